// Stand-in for gRPC: the parts of its API that cartographer's cloud code uses,
// on top of the simulated network (harness/simnet.h).
#ifndef VERIF_GRPCPP_H_
#define VERIF_GRPCPP_H_
#include <chrono>
#include <memory>
#include <string>

enum grpc_connectivity_state {
  GRPC_CHANNEL_IDLE, GRPC_CHANNEL_CONNECTING, GRPC_CHANNEL_READY,
  GRPC_CHANNEL_TRANSIENT_FAILURE, GRPC_CHANNEL_SHUTDOWN
};

namespace grpc {
enum StatusCode {
  OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4,
  NOT_FOUND = 5, ALREADY_EXISTS = 6, PERMISSION_DENIED = 7, UNAUTHENTICATED = 16,
  RESOURCE_EXHAUSTED = 8, FAILED_PRECONDITION = 9, ABORTED = 10, OUT_OF_RANGE = 11,
  UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14, DATA_LOSS = 15
};
class Status {
 public:
  Status() {}
  Status(StatusCode code, const std::string& message) : code_(code), message_(message) {}
  static const Status OK;
  static const Status CANCELLED;
  bool ok() const { return code_ == StatusCode::OK; }
  StatusCode error_code() const { return code_; }
  std::string error_message() const { return message_; }
 private:
  StatusCode code_ = StatusCode::OK;
  std::string message_;
};
struct ChannelCredentials {};
struct SslCredentialsOptions {};
inline std::shared_ptr<ChannelCredentials> InsecureChannelCredentials() { return std::make_shared<ChannelCredentials>(); }
inline std::shared_ptr<ChannelCredentials> SslCredentials(const SslCredentialsOptions&) { return std::make_shared<ChannelCredentials>(); }
inline std::shared_ptr<ChannelCredentials> GoogleDefaultCredentials() { return std::make_shared<ChannelCredentials>(); }

class Channel {
 public:
  explicit Channel(const std::string& address) : address_(address) {}
  grpc_connectivity_state GetState(bool try_to_connect);
  bool WaitForConnected(std::chrono::system_clock::time_point deadline);
  const std::string& address() const { return address_; }
 private:
  std::string address_;
};
std::shared_ptr<Channel> CreateChannel(const std::string& address, const std::shared_ptr<ChannelCredentials>&);
}  // namespace grpc
#endif
