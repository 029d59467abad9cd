#ifndef VERIF_ASYNC_GRPC_CLIENT_H_
#define VERIF_ASYNC_GRPC_CLIENT_H_
#include <memory>
#include <thread>
#include "async_grpc/retry.h"
#include "async_grpc/type_traits.h"
#include "harness/simnet.h"
namespace async_grpc {
template <typename Signature>
class Client {
 public:
  using RequestType = StripStream<typename Signature::IncomingType>;
  using ResponseType = StripStream<typename Signature::OutgoingType>;
  static constexpr bool kRequests = StripImpl<typename Signature::IncomingType>::streaming;
  static constexpr bool kResponses = StripImpl<typename Signature::OutgoingType>::streaming;

  explicit Client(std::shared_ptr<::grpc::Channel> channel) : channel_(channel) {}
  Client(std::shared_ptr<::grpc::Channel> channel, cartographer::common::Duration timeout) : channel_(channel), timeout_(timeout) {}
  Client(std::shared_ptr<::grpc::Channel> channel, RetryStrategy retry) : channel_(channel), retry_(retry) {}
  Client(std::shared_ptr<::grpc::Channel> channel, cartographer::common::Duration timeout, RetryStrategy retry) : channel_(channel), timeout_(timeout), retry_(retry) {}

  bool Write(const RequestType& request, ::grpc::Status* status = nullptr) {
    ::grpc::Status s;
    for (int failed = 0;;) {
      s = WriteOnce(request);
      if (s.ok()) break;
      ++failed;
      if (!retry_) break;
      const auto delay = retry_(failed, s);
      if (!delay.has_value()) break;
      std::this_thread::sleep_for(delay.value());
      call_.reset();
    }
    if (status != nullptr) *status = s;
    return s.ok();
  }
  bool StreamRead(ResponseType* response) {
    std::string bytes;
    if (!call_ || !call_->Read(&bytes)) return false;
    CHECK(response->ParseFromString(bytes));
    return true;
  }
  bool StreamWritesDone() { return call_ && call_->WritesDone(); }
  ::grpc::Status StreamFinish() {
    Open();
    if (kRequests && !kResponses) ReadResponse();
    return call_->Wait();
  }
  const ResponseType& response() { return response_; }

 private:
  void Open() {
    if (call_) return;
    int64_t timeout = -1;
    if (timeout_.has_value()) timeout = static_cast<int64_t>(cartographer::common::ToSeconds(timeout_.value()) * 1e9);
    call_ = simnet::ClientCall::Start(channel_.get(), Signature::MethodName(), timeout);
  }
  void ReadResponse() {
    std::string bytes;
    if (call_->Read(&bytes)) CHECK(response_.ParseFromString(bytes));
  }
  ::grpc::Status WriteOnce(const RequestType& request) {
    if (!kRequests) call_.reset();
    Open();
    const bool sent = call_->Write(request.SerializeAsString());
    if (kRequests) return sent ? ::grpc::Status::OK : ::grpc::Status(::grpc::INTERNAL, "Writing stream failed.");
    call_->WritesDone();
    if (kResponses) return ::grpc::Status::OK;
    ReadResponse();
    return call_->Wait();
  }
  std::shared_ptr<::grpc::Channel> channel_;
  absl::optional<cartographer::common::Duration> timeout_;
  RetryStrategy retry_;
  std::shared_ptr<simnet::ClientCall> call_;
  ResponseType response_;
};
}  // namespace async_grpc
#endif
