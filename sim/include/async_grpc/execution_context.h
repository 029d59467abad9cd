#ifndef VERIF_ASYNC_GRPC_EXECUTION_CONTEXT_H_
#define VERIF_ASYNC_GRPC_EXECUTION_CONTEXT_H_
#include "absl/synchronization/mutex.h"
namespace async_grpc {
class ExecutionContext {
 public:
  template <typename ContextType>
  class Synchronized {
   public:
    ContextType* operator->() { return static_cast<ContextType*>(context_); }
    Synchronized(absl::Mutex* lock, ExecutionContext* context) : locker_(lock), context_(context) {}
    Synchronized(const Synchronized&) = delete;
   private:
    absl::MutexLock locker_;
    ExecutionContext* context_;
  };
  ExecutionContext() = default;
  virtual ~ExecutionContext() = default;
  ExecutionContext(const ExecutionContext&) = delete;
  ExecutionContext& operator=(const ExecutionContext&) = delete;
  absl::Mutex* lock() { return &lock_; }
 private:
  absl::Mutex lock_;
};
}  // namespace async_grpc
#endif
