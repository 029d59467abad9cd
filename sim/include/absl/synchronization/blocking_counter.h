#ifndef ABSL_SYNCHRONIZATION_BLOCKING_COUNTER_H_
#define ABSL_SYNCHRONIZATION_BLOCKING_COUNTER_H_
#include "absl/synchronization/mutex.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class BlockingCounter {
 public:
  SIM_AI explicit BlockingCounter(int n) : n_(n) {}
  BlockingCounter(const BlockingCounter&) = delete;
  SIM_AI bool DecrementCount() { MutexLock l(&mu_); return --n_ == 0; }
  SIM_AI void Wait() { MutexLock l(&mu_); auto z = [this]() { return n_ == 0; }; mu_.Await(Condition(&z)); }
 private:
  Mutex mu_;
  int n_;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
