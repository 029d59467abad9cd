#ifndef VERIF_ASYNC_GRPC_RPC_HANDLER_H_
#define VERIF_ASYNC_GRPC_RPC_HANDLER_H_
#include <memory>
#include <string>
#include "async_grpc/execution_context.h"
#include "async_grpc/type_traits.h"
#include "glog/logging.h"
#include "google/protobuf/message.h"
#include "grpc++/grpc++.h"
#include "harness/simnet.h"
namespace async_grpc {
template <typename Signature>
class RpcHandler : public simnet::HandlerBase {
 public:
  using RequestType = StripStream<typename Signature::IncomingType>;
  using ResponseType = StripStream<typename Signature::OutgoingType>;
  static const char* MethodName() { return Signature::MethodName(); }
  class Writer {
   public:
    explicit Writer(std::weak_ptr<simnet::Rpc> rpc) : rpc_(std::move(rpc)) {}
    bool Write(std::unique_ptr<ResponseType> message) const {
      if (auto rpc = rpc_.lock()) { rpc->Write(message->SerializeAsString()); return true; }
      return false;
    }
    bool WritesDone() const {
      if (auto rpc = rpc_.lock()) { rpc->Finish(::grpc::Status::OK); return true; }
      return false;
    }
    bool Finish(const ::grpc::Status& status) const {
      if (auto rpc = rpc_.lock()) { rpc->Finish(status); return true; }
      return false;
    }
   private:
    const std::weak_ptr<simnet::Rpc> rpc_;
  };
  virtual ~RpcHandler() = default;
  virtual void OnRequest(const RequestType& request) = 0;
  void Finish(::grpc::Status status) { rpc()->Finish(status); }
  void Send(std::unique_ptr<ResponseType> response) {
    rpc()->Write(response->SerializeAsString());
    if (!StripImpl<typename Signature::OutgoingType>::streaming) rpc()->Finish(::grpc::Status::OK);
  }
  template <typename T>
  ExecutionContext::Synchronized<T> GetContext() { return {context()->lock(), context()}; }
  template <typename T>
  T* GetUnsynchronizedContext() { return dynamic_cast<T*>(context()); }
  Writer GetWriter() { return Writer(weak_rpc()); }

  void HandleRequest(const std::string& bytes) override {
    RequestType request;
    CHECK(request.ParseFromString(bytes));
    OnRequest(request);
  }
};
}  // namespace async_grpc
#endif
