#ifndef ABSL_SYNCHRONIZATION_BARRIER_H_
#define ABSL_SYNCHRONIZATION_BARRIER_H_
#include "absl/synchronization/mutex.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class Barrier {
 public:
  SIM_AI explicit Barrier(int n) : to_block_(n), to_exit_(n) {}
  SIM_AI bool Block() {
    MutexLock l(&mu_);
    --to_block_;
    auto z = [this]() { return to_block_ == 0; };
    mu_.Await(Condition(&z));
    return --to_exit_ == 0;
  }
 private:
  Mutex mu_;
  int to_block_, to_exit_;
};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
