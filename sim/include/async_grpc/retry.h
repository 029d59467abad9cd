#ifndef VERIF_ASYNC_GRPC_RETRY_H_
#define VERIF_ASYNC_GRPC_RETRY_H_
#include <chrono>
#include <functional>
#include <set>
#include "absl/types/optional.h"
#include "cartographer/common/time.h"
#include "grpc++/grpc++.h"
namespace async_grpc {
// Given the failure number and its status: the delay before the next attempt.
using RetryStrategy = std::function<absl::optional<cartographer::common::Duration>(int, const ::grpc::Status&)>;
inline RetryStrategy CreateLimitedBackoffStrategy(cartographer::common::Duration min_delay, float factor, int max_attempts) {
  return [=](int failed, const ::grpc::Status& status) -> absl::optional<cartographer::common::Duration> {
    if (status.ok() || failed >= max_attempts) return absl::nullopt;
    double d = 1;
    for (int i = 1; i < failed; ++i) d *= factor;
    return cartographer::common::FromSeconds(cartographer::common::ToSeconds(min_delay) * d);
  };
}
inline RetryStrategy CreateUnlimitedConstantDelayStrategy(cartographer::common::Duration delay) {
  return [=](int, const ::grpc::Status& status) -> absl::optional<cartographer::common::Duration> {
    if (status.ok()) return absl::nullopt;
    return delay;
  };
}
inline RetryStrategy CreateUnlimitedConstantDelayStrategy(cartographer::common::Duration delay, const std::set<::grpc::StatusCode>& unrecoverable) {
  return [=](int, const ::grpc::Status& status) -> absl::optional<cartographer::common::Duration> {
    if (status.ok() || unrecoverable.count(status.error_code())) return absl::nullopt;
    return delay;
  };
}
}  // namespace async_grpc
#endif
