#ifndef VERIF_ASYNC_GRPC_SERVER_H_
#define VERIF_ASYNC_GRPC_SERVER_H_
#include <map>
#include <memory>
#include <string>
#include "async_grpc/execution_context.h"
#include "harness/simnet.h"
namespace async_grpc {
class Server {
 public:
  class Builder {
   public:
    void SetNumGrpcThreads(size_t) {}
    void SetNumEventThreads(size_t n) { event_threads_ = n; }
    void SetServerAddress(const std::string& address) { address_ = address; }
    void SetMaxReceiveMessageSize(int) {}
    void SetMaxSendMessageSize(int) {}
    template <typename H>
    void RegisterHandler() {
      factories_[H::MethodName()] = [] { return std::unique_ptr<simnet::HandlerBase>(new H()); };
    }
    std::unique_ptr<Server> Build() { return std::unique_ptr<Server>(new Server(*this)); }
   private:
    friend class Server;
    int event_threads_ = 1;
    std::string address_;
    std::map<std::string, simnet::HandlerFactory> factories_;
  };
  ~Server() {}
  void Start() { core_->Start(); }
  void WaitForShutdown() { core_->WaitForShutdown(); }
  void Shutdown() { core_->Shutdown(); }
  void SetExecutionContext(std::unique_ptr<ExecutionContext> context) {
    context_ = std::move(context);
    core_->set_context(context_.get());
  }
  template <typename T>
  ExecutionContext::Synchronized<T> GetContext() { return {context_->lock(), context_.get()}; }
  template <typename T>
  T* GetUnsynchronizedContext() { return dynamic_cast<T*>(context_.get()); }
 private:
  explicit Server(const Builder& b) : core_(new simnet::ServerCore(b.address_, b.event_threads_, b.factories_)) {}
  std::unique_ptr<ExecutionContext> context_;
  std::shared_ptr<simnet::ServerCore> core_;
};
}  // namespace async_grpc
#endif
