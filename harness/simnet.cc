// INSTRUMENT: no
#include "harness/simnet.h"

#include <algorithm>
#include <limits>

#include "sim/sim.h"

namespace grpc {
const Status Status::OK;
const Status Status::CANCELLED(StatusCode::CANCELLED, "");
}  // namespace grpc

namespace simnet {

// Both directions of a call.
struct Wire {
  absl::Mutex mu;
  int channel = 0;
  std::string address, method;
  std::weak_ptr<Rpc> rpc;
  bool accepted = false, gone = false;   // The server's side exists, is over.
  ServerCore* server = nullptr;
  int queue = 0;
  std::deque<std::pair<int64_t, std::string>> to_client;
  int64_t last_to_client = 0, last_to_server = 0;
  bool finished = false;
  ::grpc::Status status;
  int64_t finished_at = 0;
  bool broken = false;
  ::grpc::Status broken_status;
  int64_t broken_at = 0;
  int64_t deadline = -1;
};

namespace {
// All of this is only touched without preemption.
struct State {
  Config config;
  std::map<std::string, ServerCore*> servers;
  std::set<std::string> links_down;
  std::map<int, int64_t> channel_down_until;
  std::map<int, std::vector<std::weak_ptr<Wire>>> wires;
  std::map<const ::grpc::Channel*, int> channels;
  std::map<std::pair<int, std::string>, int> handled;
  int next_channel = 0;
  uint64_t breaks = 0;
};
State* g = new State;

int64_t Delay(const std::string& address) {
  if (g->config.fragile != "" && g->config.fragile != address) return 0;
  if (g->config.delay <= 0 || g->config.max_delay_ns <= 0) return 0;
  const uint64_t k = sim::fault_value("net.delay", g->config.delay, 16);
  return g->config.max_delay_ns * static_cast<int64_t>(k) / 16;
}

// The call is lost, for both sides.
void Break(const std::shared_ptr<Wire>& wire, ::grpc::StatusCode code, const char* why) {
  std::weak_ptr<Rpc> rpc;
  ServerCore* server = nullptr;
  int queue = 0;
  int64_t at;
  {
    absl::MutexLock lock(&wire->mu);
    if (wire->broken) return;
    if (sim::tracing()) sim::note("call " + wire->method + " of channel " + std::to_string(wire->channel) + ": " + why);
    wire->broken = true;
    wire->broken_status = ::grpc::Status(code, why);
    at = wire->broken_at = sim::now_ns();
    if (wire->finished || wire->gone || !wire->accepted) return;
    rpc = wire->rpc;
    server = wire->server;
    queue = wire->queue;
  }
  server->Push(queue, {ServerCore::GONE, at, rpc, ""});
}

std::vector<std::shared_ptr<Wire>> WiresOf(std::function<bool(int, const Wire&)> want) {
  sim::Quiet quiet;
  std::vector<std::shared_ptr<Wire>> result;
  for (auto& entry : g->wires) {
    for (auto& weak : entry.second) {
      if (auto wire = weak.lock()) if (want(entry.first, *wire)) result.push_back(wire);
    }
  }
  return result;
}

bool Reachable(int channel, const std::string& address) {
  return g->servers.count(address) && !g->links_down.count(address) &&
         !(g->channel_down_until.count(channel) && g->channel_down_until[channel] > sim::now_ns());
}

void MaybeBreak(int channel, const std::string& address) {
  if (g->config.fragile != "" && g->config.fragile != address) return;
  if (g->config.break_connection <= 0) return;
  const uint64_t k = sim::fault_value("net.break", g->config.break_connection, 16);
  if (k == 0) return;
  {
    sim::Quiet quiet;
    g->channel_down_until[channel] = sim::now_ns() + g->config.max_down_ns * static_cast<int64_t>(k - 1) / 16;
  }
  BreakChannel(channel);
}

int ChannelId(const ::grpc::Channel* channel) {
  sim::Quiet quiet;
  auto it = g->channels.find(channel);
  if (it == g->channels.end()) it = g->channels.emplace(channel, g->next_channel++).first;
  return it->second;
}
}  // namespace

Config& config() { return g->config; }
thread_local int t_channel = -1;
int my_channel() { return t_channel; }
int handled(int channel_id, const std::string& method) { sim::Quiet quiet; return g->handled[{channel_id, method}]; }
uint64_t breaks() { return g->breaks; }
void Clear() { sim::Quiet quiet; *g = State(); }

void SetLink(const std::string& address, bool up) {
  {
    sim::Quiet quiet;
    if (up) g->links_down.erase(address); else g->links_down.insert(address);
  }
  if (!up) {
    sim::count("fault.net.partition");
    for (auto& wire : WiresOf([&](int, const Wire& w) { return w.address == address; })) {
      Break(wire, ::grpc::UNAVAILABLE, "partition");
    }
  }
}

void BreakChannel(int channel_id) {
  { sim::Quiet quiet; ++g->breaks; }
  sim::note("connection of channel " + std::to_string(channel_id) + " breaks");
  for (auto& wire : WiresOf([&](int id, const Wire&) { return id == channel_id; })) {
    Break(wire, ::grpc::UNAVAILABLE, "connection lost");
  }
}

// ---- client ---------------------------------------------------------------------
std::shared_ptr<ClientCall> ClientCall::Start(::grpc::Channel* channel, const std::string& method, int64_t timeout_ns) {
  auto call = std::make_shared<ClientCall>();
  auto wire = call->wire_ = std::make_shared<Wire>();
  wire->channel = ChannelId(channel);
  wire->address = channel->address();
  wire->method = method.substr(method.rfind('/') + 1);
  // The scheduler lets time pass although threads could go on. A long deadline
  // only counts where messages can be late; otherwise a call without an answer
  // hangs, which the simulator reports.
  const bool patient = timeout_ns > 5000000000LL && (g->config.fragile != wire->address || g->config.calm);
  if (timeout_ns >= 0 && !patient) wire->deadline = sim::now_ns() + timeout_ns;
  MaybeBreak(wire->channel, wire->address);
  ServerCore* server = nullptr;
  {
    sim::Quiet quiet;
    if (Reachable(wire->channel, wire->address)) server = g->servers.at(wire->address);
    auto& list = g->wires[wire->channel];
    list.erase(std::remove_if(list.begin(), list.end(), [](const std::weak_ptr<Wire>& w) { return w.expired(); }), list.end());
    list.push_back(wire);
  }
  if (server == nullptr || !server->Accept(method, wire)) Break(wire, ::grpc::UNAVAILABLE, "no connection");
  return call;
}

ClientCall::~ClientCall() {
  if (wire_) Break(wire_, ::grpc::CANCELLED, "cancelled");
}

bool ClientCall::Write(const std::string& bytes) {
  MaybeBreak(wire_->channel, wire_->address);
  std::weak_ptr<Rpc> rpc;
  int64_t ready;
  {
    absl::MutexLock lock(&wire_->mu);
    if (wire_->broken || wire_->finished || wire_->gone || !wire_->accepted) return false;
    rpc = wire_->rpc;
    ready = wire_->last_to_server = std::max(wire_->last_to_server, sim::now_ns() + Delay(wire_->address));
  }
  wire_->server->Push(wire_->queue, {ServerCore::REQUEST, ready, rpc, bytes});
  return true;
}

bool ClientCall::WritesDone() {
  std::weak_ptr<Rpc> rpc;
  int64_t ready;
  {
    absl::MutexLock lock(&wire_->mu);
    if (wire_->broken || wire_->finished || wire_->gone || !wire_->accepted) return false;
    rpc = wire_->rpc;
    ready = wire_->last_to_server;
  }
  wire_->server->Push(wire_->queue, {ServerCore::READS_DONE, ready, rpc, ""});
  return true;
}

bool ClientCall::Read(std::string* bytes) {
  Wire* const w = wire_.get();
  bool late = false;
  {
    absl::MutexLock lock(&w->mu);
    const auto something = [w]() { return !w->to_client.empty() || w->finished || w->broken; };
    if (w->deadline >= 0) {
      late = !w->mu.AwaitWithTimeout(absl::Condition(&something), absl::Nanoseconds(std::max<int64_t>(0, w->deadline - sim::now_ns())));
    } else {
      w->mu.Await(absl::Condition(&something));
    }
    if (!late) {
      if (w->to_client.empty()) return false;
      const int64_t at = w->to_client.front().first;
      // What was on its way when the connection broke is lost.
      if (w->broken && at > w->broken_at) { w->to_client.clear(); return false; }
      if (w->deadline >= 0 && at > w->deadline) {
        late = true;
      } else if (at <= sim::now_ns()) {
        *bytes = w->to_client.front().second;
        w->to_client.pop_front();
        return true;
      } else {
        const auto broken = [w]() { return w->broken; };
        w->mu.AwaitWithTimeout(absl::Condition(&broken), absl::Nanoseconds(at - sim::now_ns()));
        if (w->broken && at > w->broken_at) { w->to_client.clear(); return false; }
        *bytes = w->to_client.front().second;
        w->to_client.pop_front();
        return true;
      }
    }
  }
  Break(wire_, ::grpc::DEADLINE_EXCEEDED, "deadline exceeded");
  return false;
}

::grpc::Status ClientCall::Wait() {
  Wire* const w = wire_.get();
  bool late = false;
  {
    absl::MutexLock lock(&w->mu);
    const auto over = [w]() { return w->finished || w->broken; };
    if (w->deadline >= 0) {
      late = !w->mu.AwaitWithTimeout(absl::Condition(&over), absl::Nanoseconds(std::max<int64_t>(0, w->deadline - sim::now_ns())));
    } else {
      w->mu.Await(absl::Condition(&over));
    }
    if (!late) {
      // Reading gave up already.
      if (w->broken && w->broken_status.error_code() == ::grpc::DEADLINE_EXCEEDED) return w->broken_status;
      if (w->broken && (!w->finished || w->finished_at > w->broken_at)) return w->broken_status;
      if (w->deadline < 0 || w->finished_at <= w->deadline) {
        if (w->finished_at > sim::now_ns()) {
          const auto broken = [w]() { return w->broken; };
          w->mu.AwaitWithTimeout(absl::Condition(&broken), absl::Nanoseconds(w->finished_at - sim::now_ns()));
          if (w->broken && w->finished_at > w->broken_at) return w->broken_status;
        }
        return w->status;
      }
    }
  }
  Break(wire_, ::grpc::DEADLINE_EXCEEDED, "deadline exceeded");
  return ::grpc::Status(::grpc::DEADLINE_EXCEEDED, "deadline exceeded");
}

// ---- server ---------------------------------------------------------------------
std::weak_ptr<Rpc> HandlerBase::weak_rpc() { return rpc_->shared_from_this(); }

Rpc::Rpc(ServerCore* server, std::shared_ptr<Wire> wire, std::unique_ptr<HandlerBase> handler, int queue)
    : server_(server), wire_(wire), handler_(std::move(handler)), queue_(queue) {}
// References are dropped under this mutex, or after using it: what their
// holders did to the handler happened before.
Rpc::~Rpc() { absl::MutexLock lock(&wire_->mu); }

void Rpc::Write(const std::string& bytes) {
  MaybeBreak(wire_->channel, wire_->address);
  absl::MutexLock lock(&wire_->mu);
  if (wire_->finished || wire_->broken) return;
  const int64_t ready = wire_->last_to_client = std::max(wire_->last_to_client, sim::now_ns() + Delay(wire_->address));
  wire_->to_client.emplace_back(ready, bytes);
}

void Rpc::Finish(const ::grpc::Status& status) {
  {
    absl::MutexLock lock(&wire_->mu);
    if (wire_->finished) return;
    wire_->finished = true;
    wire_->status = status;
    wire_->finished_at = wire_->broken ? std::numeric_limits<int64_t>::max() : wire_->last_to_client;
  }
  server_->Push(queue_, {ServerCore::FINISHED, sim::now_ns(), shared_from_this(), ""});
}

ServerCore::ServerCore(const std::string& address, int event_threads, const std::map<std::string, HandlerFactory>& factories)
    : address_(address), factories_(factories) {
  for (int i = 0; i < event_threads; ++i) queues_.emplace_back(new EventQueue);
}

ServerCore::~ServerCore() {}

void ServerCore::Start() {
  for (auto& queue : queues_) {
    EventQueue* const q = queue.get();
    q->thread = std::thread([this, q]() { Run(q); });
  }
  { absl::MutexLock lock(&mu_); serving_ = true; }
  sim::Quiet quiet;
  g->servers[address_] = this;
}

void ServerCore::Touch(const std::shared_ptr<Rpc>& rpc) { absl::MutexLock lock(&rpc->wire_->mu); }

void ServerCore::WaitForShutdown() {
  absl::MutexLock lock(&shutdown_mu_);
  shutdown_mu_.Await(absl::Condition(&shut_down_));
}

void ServerCore::Shutdown() {
  { sim::Quiet quiet; if (g->servers.count(address_) && g->servers[address_] == this) g->servers.erase(address_); }
  std::vector<std::shared_ptr<Rpc>> rest;
  {
    absl::MutexLock lock(&mu_);
    serving_ = false;
    const auto empty = [this]() { return active_.empty(); };
    mu_.AwaitWithTimeout(absl::Condition(&empty), absl::Milliseconds(500));
    for (auto& entry : active_) rest.push_back(entry.second);
  }
  for (auto& rpc : rest) Break(rpc->wire_, ::grpc::UNAVAILABLE, "server shut down");
  for (auto& rpc : rest) Touch(rpc);
  rest.clear();
  for (auto& queue : queues_) {
    { absl::MutexLock lock(&queue->mu); queue->stop = true; }
    queue->thread.join();
  }
  { absl::MutexLock lock(&mu_); active_.clear(); }
  absl::MutexLock lock(&shutdown_mu_);
  shut_down_ = true;
}

bool ServerCore::Accept(const std::string& method, const std::shared_ptr<Wire>& wire) {
  absl::MutexLock lock(&mu_);
  if (!serving_) return false;
  const auto factory = factories_.find(method);
  if (factory == factories_.end()) return false;
  const int queue = next_queue_++ % queues_.size();
  auto handler = factory->second();
  auto rpc = std::make_shared<Rpc>(this, wire, std::move(handler), queue);
  rpc->handler_->Bind(rpc.get(), context_);
  rpc->number_ = next_call_++;
  active_[rpc->number_] = rpc;
  absl::MutexLock wire_lock(&wire->mu);
  wire->rpc = rpc;
  wire->accepted = true;
  wire->server = this;
  wire->queue = queue;
  return true;
}

void ServerCore::Push(int index, Event event) {
  EventQueue* const queue = queues_.at(index).get();
  absl::MutexLock lock(&queue->mu);
  const int64_t ready = event.ready;
  queue->events.emplace(ready, std::move(event));
}

void ServerCore::Run(EventQueue* const queue) {
  for (;;) {
    Event event;
    {
      absl::MutexLock lock(&queue->mu);
      for (;;) {
        if (queue->events.empty()) {
          if (queue->stop) return;
          const auto some = [queue]() { return queue->stop || !queue->events.empty(); };
          queue->mu.Await(absl::Condition(&some));
          continue;
        }
        const int64_t first = queue->events.begin()->first, now = sim::now_ns();
        if (first <= now) break;
        const auto earlier = [queue, first]() { return queue->events.begin()->first < first; };
        queue->mu.AwaitWithTimeout(absl::Condition(&earlier), absl::Nanoseconds(first - now));
      }
      event = std::move(queue->events.begin()->second);
      queue->events.erase(queue->events.begin());
    }
    Handle(event);
  }
}

void ServerCore::Handle(const Event& event) {
  std::shared_ptr<Rpc> rpc = event.weak.lock();
  if (!rpc) return;
  {
    absl::MutexLock lock(&rpc->wire_->mu);
    const Wire& w = *rpc->wire_;
    if (event.kind == REQUEST || event.kind == READS_DONE) {
      if (w.finished || rpc->reads_done_) return;
      if (w.broken && event.ready > w.broken_at) return;
    }
  }
  switch (event.kind) {
    case REQUEST:
      rpc->handler_->HandleRequest(event.bytes);
      { sim::Quiet quiet; ++g->handled[{rpc->wire_->channel, rpc->wire_->method}]; }
      break;
    case READS_DONE:
      rpc->reads_done_ = true;
      rpc->handler_->OnReadsDone();
      break;
    case GONE: {
      // A pending read fails, which is how the end of the requests is
      // announced, too.
      bool finished;
      if (!rpc->reads_done_) { rpc->reads_done_ = true; rpc->handler_->OnReadsDone(); }
      { absl::MutexLock lock(&rpc->wire_->mu); finished = rpc->wire_->finished; }
      if (!finished) Remove(rpc);
      break;
    }
    case FINISHED:
      rpc->handler_->OnFinish();
      Remove(rpc);
      break;
  }
  Touch(rpc);
}

void ServerCore::Remove(const std::shared_ptr<Rpc>& rpc) {
  { absl::MutexLock lock(&rpc->wire_->mu); rpc->wire_->gone = true; }
  absl::MutexLock lock(&mu_);
  active_.erase(rpc->number_);
}

}  // namespace simnet

namespace grpc {
grpc_connectivity_state Channel::GetState(bool) {
  const int id = simnet::ChannelId(this);
  sim::Quiet quiet;
  return simnet::Reachable(id, address_) ? GRPC_CHANNEL_READY : GRPC_CHANNEL_TRANSIENT_FAILURE;
}

bool Channel::WaitForConnected(std::chrono::system_clock::time_point deadline) {
  const int id = simnet::ChannelId(this);
  for (;;) {
    { sim::Quiet quiet; if (simnet::Reachable(id, address_)) return true; }
    if (std::chrono::system_clock::now() >= deadline) return false;
    sim::sleep_ns(50000000);
  }
}

std::shared_ptr<Channel> CreateChannel(const std::string& address, const std::shared_ptr<ChannelCredentials>&) {
  auto channel = std::make_shared<Channel>(address);
  {
    // The address may be that of an earlier channel.
    sim::Quiet quiet;
    simnet::t_channel = simnet::g->channels[channel.get()] = simnet::g->next_channel++;
  }
  return channel;
}
}  // namespace grpc
