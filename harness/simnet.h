// A simulated network below the stand-in for async_grpc (sim/include/async_grpc):
// connections with delays, losses of connection, partitions, servers that
// disappear and come back. Messages are serialised, streams are ordered, there
// is no order between streams. A server has event threads as async_grpc has:
// the events of one call are handled in order by one of them.
#ifndef VERIF_SIMNET_H_
#define VERIF_SIMNET_H_
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include "absl/synchronization/mutex.h"
#include "async_grpc/execution_context.h"
#include "grpc++/grpc++.h"

namespace simnet {

struct Config {
  double delay = 0;             // Probability that a message is late,
  int64_t max_delay_ns = 0;     // by at most this.
  double break_connection = 0;  // Probability per message that the connection breaks.
  int64_t max_down_ns = 0;      // How long it then takes to come back, at most.
  bool calm = false;            // Long deadlines do not count.
  std::string fragile;          // Only connections to this address break or are late.
};
Config& config();
// Nobody reaches 'address' while it is down; connections to it break.
void SetLink(const std::string& address, bool up);
// Breaks the connections of this channel.
void BreakChannel(int channel_id);
void Clear();
// The channel this thread created last, and how many requests of 'method' from
// it the server's handlers have seen.
int my_channel();
int handled(int channel_id, const std::string& method);
uint64_t breaks();

class Rpc;
class ServerCore;
struct Wire;

class HandlerBase {
 public:
  virtual ~HandlerBase() = default;
  virtual void HandleRequest(const std::string& bytes) = 0;
  virtual void OnReadsDone() {}
  virtual void OnFinish() {}
  Rpc* rpc() { return rpc_; }
  std::weak_ptr<Rpc> weak_rpc();
  async_grpc::ExecutionContext* context() { return context_; }
  void Bind(Rpc* rpc, async_grpc::ExecutionContext* context) { rpc_ = rpc; context_ = context; }
 private:
  Rpc* rpc_ = nullptr;
  async_grpc::ExecutionContext* context_ = nullptr;
};
using HandlerFactory = std::function<std::unique_ptr<HandlerBase>()>;

// The server's side of a call.
class Rpc : public std::enable_shared_from_this<Rpc> {
 public:
  Rpc(ServerCore* server, std::shared_ptr<Wire> wire, std::unique_ptr<HandlerBase> handler, int queue);
  ~Rpc();
  void Write(const std::string& bytes);
  void Finish(const ::grpc::Status& status);
 private:
  friend class ServerCore;
  ServerCore* const server_;
  const std::shared_ptr<Wire> wire_;
  const std::unique_ptr<HandlerBase> handler_;
  const int queue_;
  int64_t number_ = 0;
  bool reads_done_ = false;  // Only used by the event thread.
};

// The client's side of a call.
class ClientCall {
 public:
  static std::shared_ptr<ClientCall> Start(::grpc::Channel* channel, const std::string& method, int64_t timeout_ns);
  ~ClientCall();
  bool Write(const std::string& bytes);
  bool WritesDone();
  bool Read(std::string* bytes);
  ::grpc::Status Wait();
 private:
  std::shared_ptr<Wire> wire_;
};

class ServerCore {
 public:
  ServerCore(const std::string& address, int event_threads, const std::map<std::string, HandlerFactory>& factories);
  ~ServerCore();
  void set_context(async_grpc::ExecutionContext* context) { context_ = context; }
  void Start();
  void WaitForShutdown();
  void Shutdown();

  enum Kind { REQUEST, READS_DONE, GONE, FINISHED };
  struct Event {
    Kind kind;
    int64_t ready;
    std::weak_ptr<Rpc> weak;
    std::string bytes;
  };
  // Makes the server's side of a new call; false if it does not take any.
  bool Accept(const std::string& method, const std::shared_ptr<Wire>& wire);
  void Push(int queue, Event event);
 private:
  struct EventQueue {
    absl::Mutex mu;
    std::multimap<int64_t, Event> events;
    bool stop = false;
    std::thread thread;
  };
  void Run(EventQueue* queue);
  void Handle(const Event& event);
  void Remove(const std::shared_ptr<Rpc>& rpc);
  static void Touch(const std::shared_ptr<Rpc>& rpc);

  const std::string address_;
  const std::map<std::string, HandlerFactory> factories_;
  async_grpc::ExecutionContext* context_ = nullptr;
  std::vector<std::unique_ptr<EventQueue>> queues_;
  absl::Mutex mu_;
  bool serving_ = false;
  int next_queue_ = 0;
  std::map<int64_t, std::shared_ptr<Rpc>> active_;
  int64_t next_call_ = 0;
  absl::Mutex shutdown_mu_;
  bool shut_down_ = false;
};

}  // namespace simnet
#endif
