// C02: the bounded blocking queue.
// FLAVOR: tsan
// INSTRUMENT: yes
#include <deque>
#include <memory>
#include <string>
#include <vector>

#include "cartographer/common/internal/blocking_queue.h"
#include "harness/linear.h"
#include "sim/sim.h"

using sim::Quiet;
namespace {
struct Value { int id; };
struct NoDelete { void operator()(Value*) const {} };
using Ptr = std::unique_ptr<Value, NoDelete>;
using Queue = cartographer::common::BlockingQueue<Ptr>;

enum Kind { kPush, kPushT, kPop, kPopT, kPeek, kPeekT, kSize, kEmpty };
const char* kNames[] = {"Push", "PushWithTimeout", "Pop", "PopWithTimeout", "Peek", "PeekWithTimeout", "Size", "WaitUntilEmpty"};
struct Op {
  Kind kind;
  int arg = 0;         // value pushed
  int64_t timeout = 0; // ns
  int result = 0;      // value, size, 1/0 for success
  int thread = 0;
};
struct Model {
  size_t cap;
  std::deque<int> q;
  bool Apply(const Op& o) {
    const bool full = cap != 0 && q.size() >= cap;
    switch (o.kind) {
      case kPush: if (full) return false; q.push_back(o.arg); return true;
      case kPushT: if (!o.result) return full; if (full) return false; q.push_back(o.arg); return true;
      case kPop: if (q.empty() || q.front() != o.result) return false; q.pop_front(); return true;
      case kPopT: if (!o.result) return q.empty(); if (q.empty() || q.front() != o.result) return false; q.pop_front(); return true;
      case kPeek: case kPeekT: return o.result ? !q.empty() && q.front() == o.result : q.empty();
      case kSize: return static_cast<int>(q.size()) == o.result;
      case kEmpty: return q.empty();
    }
    return false;
  }
  std::string Key() const {
    std::string k;
    for (int v : q) { k += std::to_string(v); k += ','; }
    return k;
  }
};

std::vector<Op> history;
std::vector<linear::Stamp> stamps;
std::vector<Value> values;

void Exec(Queue* q, Op op) {
  size_t idx;
  int64_t t0;
  {
    Quiet z;
    idx = history.size();
    history.push_back(op);
    stamps.push_back({});
    stamps[idx].inv = sim::seq();
    op.thread = sim::thread_id();
    t0 = sim::now_ns();
  }
  const auto to = cartographer::common::Duration(op.timeout / 100);
  switch (op.kind) {
    case kPush: q->Push(Ptr(&values[op.arg])); break;
    case kPushT: op.result = q->PushWithTimeout(Ptr(&values[op.arg]), to); break;
    case kPop: { Ptr p = q->Pop(); Quiet z; SIM_CHECK(p != nullptr, "queue:null-pop", "a blocking pop returned nothing"); op.result = p->id; break; }
    case kPopT: { Ptr p = q->PopWithTimeout(to); Quiet z; op.result = p ? p->id : 0; break; }
    case kPeek: { const Value* p = q->Peek<Value>(); Quiet z; op.result = p ? p->id : 0; break; }
    case kPeekT: { Value* p = q->PeekWithTimeout<Value>(to); Quiet z; op.result = p ? p->id : 0; break; }
    case kSize: op.result = q->Size(); break;
    case kEmpty: q->WaitUntilEmpty(); break;
  }
  Quiet z;
  if ((op.kind == kPushT || op.kind == kPopT || op.kind == kPeekT) && !op.result) {
    sim::count("fault.timeout_expired");
    SIM_CHECK(sim::now_ns() - t0 >= op.timeout, "queue:early-timeout",
              std::string(kNames[op.kind]) + " gave up after " + std::to_string(sim::now_ns() - t0) + " ns of " + std::to_string(op.timeout));
  }
  history[idx] = op;
  stamps[idx].ret = sim::seq();
  sim::log_event(op.kind * 1000 + op.result);
  if (sim::tracing()) sim::note(std::string(kNames[op.kind]) + " arg " + std::to_string(op.arg) + " -> " + std::to_string(op.result));
}

void Run() {
  auto& r = sim::workload();
  history.reserve(1000);
  stamps.reserve(1000);
  const size_t cap = r.chance(0.2) ? 0 : r.range(1, 3);
  const int nthreads = r.range(2, 4);
  const int per = r.range(1, 5);
  const int mix = r.range(0, 3);
  values.resize(600);
  for (int i = 0; i < 600; ++i) values[i].id = i;
  int next = 1;
  std::vector<std::vector<Op>> plan(nthreads);
  int opi = 0;
  for (int t = 0; t < nthreads; ++t)
    for (int k = 0; k < per; ++k) {
      Op o;
      const int w = r.range(0, 99);
      const bool producer = mix == 0 ? t % 2 == 0 : mix == 1 ? r.chance(0.5) : mix == 2 ? t == 0 : t != 0;
      if (w < 10) o.kind = kSize;
      else if (w < 17) o.kind = kPeek;
      else if (w < 24) o.kind = kPeekT;
      else if (w < 27) o.kind = kEmpty;
      else if (producer) o.kind = w < 60 ? kPush : kPushT;
      else o.kind = w < 60 ? kPop : kPopT;
      const int tk = r.range(0, 5);
      o.timeout = tk == 0 ? 0 : tk == 1 ? 100 : tk == 2 ? 1000000000ll : tk == 3 ? -1000 : r.range(1, 200) * 100000ll;
      if (o.kind == kPush || o.kind == kPushT) o.arg = next++;
      if (sim::op_enabled(opi++)) plan[t].push_back(o);
    }
  const bool sleepy = r.chance(0.5);
  std::vector<int> naps;
  for (int i = 0; i < 64; ++i) naps.push_back(r.range(0, 20));
  Queue q(cap);
  int done = 0;
  std::vector<int> th;
  for (int t = 0; t < nthreads; ++t)
    th.push_back(sim::spawn([&, t] {
      for (size_t k = 0; k < plan[t].size(); ++k) {
        if (sleepy) { int nap; { Quiet z; nap = naps[(t * 7 + k) % 64]; } if (nap > 10) sim::sleep_ns(nap * 1000000ll); }
        Op o; { Quiet z; o = plan[t][k]; }
        Exec(&q, o);
      }
      Quiet z;
      ++done;
    }));
  // Help whoever is blocked, within a bounded number of rounds.
  bool finished = false;
  for (int round = 0; round < 120 && !finished; ++round) {
    sim::sleep_ns(3000000000ll);
    { Quiet z; finished = done == nthreads; }
    if (finished) break;
    if (round % 2 == 0) {
      for (int k = 0; k < 40; ++k) {
        Op o; o.kind = kPopT; o.timeout = 0;
        Exec(&q, o);
        Quiet z;
        if (history.back().result == 0) break;
      }
    } else {
      Op o; o.kind = kPushT; o.timeout = 0; o.arg = next++;
      Exec(&q, o);
    }
    sim::count("probe.helped");
  }
  SIM_CHECK(finished, "queue:stuck", "a blocked call was not woken although it could proceed");
  for (int t : th) sim::join(t);
  Quiet z;
  linear::Checker<Op, Model> c(history, stamps);
  Model m;
  m.cap = cap;
  const int ok = c.Run(m);
  if (ok < 0) { sim::count("linearizability_gave_up"); return; }
  sim::count("ops", history.size());
  if (!ok) {
    std::string s = "capacity " + std::to_string(cap) + "\n";
    for (size_t i = 0; i < history.size(); ++i)
      s += "  [" + std::to_string(stamps[i].inv) + "," + std::to_string(stamps[i].ret) + "] t" + std::to_string(history[i].thread) + " " + kNames[history[i].kind] +
           " arg " + std::to_string(history[i].arg) + " -> " + std::to_string(history[i].result) + "\n";
    sim::fail("queue:not-linearizable", s);
  }
}
}  // namespace
const sim::Harness sim::kHarness = {"bqueue", nullptr, Run, true};
