#ifndef ABSL_SYNCHRONIZATION_NOTIFICATION_H_
#define ABSL_SYNCHRONIZATION_NOTIFICATION_H_
#include "absl/synchronization/mutex.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class Notification {
 public:
  SIM_AI Notification() {}
  SIM_AI explicit Notification(bool prenotify) : done_(prenotify) {}
  Notification(const Notification&) = delete;
  SIM_AI ~Notification() { MutexLock l(&mu_); }
  SIM_AI bool HasBeenNotified() const { MutexLock l(&mu_); return done_; }
  SIM_AI void WaitForNotification() const { MutexLock l(&mu_, Condition(&done_)); }
  SIM_AI bool WaitForNotificationWithTimeout(absl::Duration t) const { MutexLock l(&mu_); return mu_.AwaitWithTimeout(Condition(&done_), t); }
  SIM_AI bool WaitForNotificationWithDeadline(absl::Time t) const { MutexLock l(&mu_); return mu_.AwaitWithDeadline(Condition(&done_), t); }
  SIM_AI void Notify() { MutexLock l(&mu_); done_ = true; }
 private:
  mutable Mutex mu_;
  bool done_ = false;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
