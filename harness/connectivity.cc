// C16: trajectory connectivity.
// FLAVOR: tsan
// INSTRUMENT: yes
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "absl/synchronization/mutex.h"
#include "cartographer/mapping/internal/connected_components.h"
#include "cartographer/mapping/internal/trajectory_connectivity_state.h"
#include "harness/linear.h"
#include "sim/sim.h"

using cartographer::mapping::ConnectedComponents;
using cartographer::mapping::TrajectoryConnectivityState;
using sim::Quiet;
namespace {
enum Kind { kAdd, kConnect, kTrans, kCount, kComponents, kComponent, kLast };
const char* kNames[] = {"Add", "Connect", "TransitivelyConnected", "ConnectionCount", "Components", "GetComponent", "LastConnectionTime"};
struct Op {
  Kind kind;
  int a = 0, b = 0;
  int64_t time = 0;
  int64_t result = 0;
  std::string list;
  int thread = 0;
};
std::string Canon(std::vector<std::vector<int>> c) {
  for (auto& x : c) std::sort(x.begin(), x.end());
  std::sort(c.begin(), c.end());
  std::string s;
  for (auto& x : c) { s += "{"; for (int i : x) s += std::to_string(i) + ","; s += "}"; }
  return s;
}
struct Model {
  std::set<int> ids;
  std::map<std::pair<int, int>, int> links;
  std::map<std::pair<int, int>, int64_t> last;
  bool time_model = false;
  std::set<int> Component(int a) const {
    std::set<int> c{a};
    for (bool more = true; more;) {
      more = false;
      for (auto& l : links) {
        const bool x = c.count(l.first.first), y = c.count(l.first.second);
        if (x != y) { c.insert(l.first.first); c.insert(l.first.second); more = true; }
      }
    }
    return c;
  }
  bool Connected(int a, int b) const { return a == b || (ids.count(a) && ids.count(b) && Component(a).count(b)); }
  bool Apply(const Op& o) {
    const auto p = std::minmax(o.a, o.b);
    const std::pair<int, int> pair(p.first, p.second);
    switch (o.kind) {
      case kAdd: ids.insert(o.a); return true;
      case kConnect: {
        if (time_model) {
          if (Connected(o.a, o.b)) {
            auto it = last.find(pair);
            if (it == last.end() || it->second < o.time) last[pair] = o.time;
          } else {
            for (int x : Component(o.a)) for (int y : Component(o.b)) last[std::minmax(x, y)] = o.time;
          }
        }
        ids.insert(o.a);
        ids.insert(o.b);
        ++links[pair];
        return true;
      }
      case kTrans: return o.result == Connected(o.a, o.b);
      case kCount: { auto it = links.find(pair); return o.result == (it == links.end() ? 0 : it->second); }
      case kComponents: {
        std::set<std::vector<int>> s;
        for (int i : ids) { auto c = Component(i); s.insert(std::vector<int>(c.begin(), c.end())); }
        return o.list == Canon(std::vector<std::vector<int>>(s.begin(), s.end()));
      }
      case kComponent: { auto c = Component(o.a); return o.list == Canon({std::vector<int>(c.begin(), c.end())}); }
      case kLast: { auto it = last.find(pair); return o.result == (it == last.end() ? INT64_MIN : it->second); }
    }
    return false;
  }
  std::string Key() const {
    std::string k;
    for (int i : ids) k += std::to_string(i) + ",";
    for (auto& l : links) k += std::to_string(l.first.first) + "-" + std::to_string(l.first.second) + ":" + std::to_string(l.second) + ";";
    return k;
  }
};

std::vector<Op> history;
std::vector<linear::Stamp> stamps;

std::string Describe(const Op& o) {
  return std::string(kNames[o.kind]) + "(" + std::to_string(o.a) + "," + std::to_string(o.b) + ") -> " + std::to_string(o.result) + " " + o.list;
}

std::vector<std::vector<Op>> Plan(sim::Rng& r, int nthreads, int per, int nids, bool with_time, int preadded) {
  std::vector<std::vector<Op>> plan(nthreads);
  int opi = 0;
  for (int t = 0; t < nthreads; ++t)
    for (int k = 0; k < per; ++k) {
      Op o;
      const int w = r.range(0, 99);
      o.kind = w < 8 ? kAdd : w < 42 ? kConnect : w < 65 ? kTrans : w < 75 ? (with_time ? kLast : kCount) : w < 88 ? kComponents : (with_time ? kLast : kComponent);
      o.a = r.below(nids);
      o.b = r.below(nids);
      o.time = 1000 + r.below(1000);
      if (o.kind == kComponent) o.a = r.below(std::max(1, preadded));
      if (o.kind == kComponent && preadded == 0) o.kind = kComponents;
      if (sim::op_enabled(opi++)) plan[t].push_back(o);
    }
  return plan;
}

void RunComponents() {
  auto& r = sim::workload();
  const int nthreads = r.range(2, 4), per = r.range(2, 6), nids = r.range(2, 6);
  const int preadded = r.range(0, nids);
  auto plan = Plan(r, nthreads, per, nids, false, preadded);
  ConnectedComponents cc;
  Model m;
  for (int i = 0; i < preadded; ++i) { cc.Add(i); m.ids.insert(i); }
  history.reserve(200);
  stamps.reserve(200);
  std::vector<int> th;
  for (int t = 0; t < nthreads; ++t)
    th.push_back(sim::spawn([&, t] {
      for (size_t k = 0; k < plan[t].size(); ++k) {
        Op o;
        size_t idx;
        { Quiet q; o = plan[t][k]; idx = history.size(); history.push_back(o); stamps.push_back({sim::seq(), ~0ull}); }
        switch (o.kind) {
          case kAdd: cc.Add(o.a); break;
          case kConnect: cc.Connect(o.a, o.b); break;
          case kTrans: o.result = cc.TransitivelyConnected(o.a, o.b); break;
          case kCount: o.result = cc.ConnectionCount(o.a, o.b); break;
          case kComponents: { auto c = cc.Components(); Quiet q; o.list = Canon(c); break; }
          case kComponent: { auto c = cc.GetComponent(o.a); Quiet q; o.list = Canon({c}); break; }
          default: break;
        }
        Quiet q;
        o.thread = t;
        history[idx] = o;
        stamps[idx].ret = sim::seq();
        sim::log_event(Describe(o));
      }
    }));
  for (int t : th) sim::join(t);
  Quiet q;
  linear::Checker<Op, Model> c(history, stamps);
  const int ok = c.Run(m);
  sim::count("ops", history.size());
  if (ok < 0) { sim::count("linearizability_gave_up"); return; }
  if (!ok) {
    std::string s;
    for (size_t i = 0; i < history.size(); ++i)
      s += "  [" + std::to_string(stamps[i].inv) + "," + std::to_string(stamps[i].ret) + "] t" + std::to_string(history[i].thread) + " " + Describe(history[i]) + "\n";
    sim::fail("connectivity:not-linearizable", s);
  }
}

// The connectivity state is used under its owner's lock by many threads.
void RunState() {
  auto& r = sim::workload();
  const int nthreads = r.range(1, 3), per = r.range(3, 14), nids = r.range(2, 6);
  auto plan = Plan(r, nthreads, per, nids, true, 0);
  TrajectoryConnectivityState state;
  Model m;
  m.time_model = true;
  absl::Mutex mu;
  std::vector<int> th;
  std::string log;
  for (int t = 0; t < nthreads; ++t)
    th.push_back(sim::spawn([&, t] {
      for (size_t k = 0; k < plan[t].size(); ++k) {
        Op o;
        { Quiet q; o = plan[t][k]; }
        absl::MutexLock l(&mu);
        switch (o.kind) {
          case kAdd: state.Add(o.a); break;
          case kConnect: state.Connect(o.a, o.b, cartographer::common::Time(cartographer::common::Duration(o.time))); break;
          case kTrans: o.result = state.TransitivelyConnected(o.a, o.b); break;
          case kComponents: { auto c = state.Components(); Quiet q; o.list = Canon(c); break; }
          case kLast: {
            const auto v = state.LastConnectionTime(o.a, o.b);
            o.result = v == cartographer::common::Time() ? INT64_MIN : v.time_since_epoch().count();
            break;
          }
          default: break;
        }
        Quiet q;
        log += "  " + Describe(o) + " time " + std::to_string(o.time) + "\n";
        SIM_CHECK(m.Apply(o), "connectivity:wrong-answer", "sequence of calls:\n" + log);
        sim::log_event(Describe(o));
      }
    }));
  for (int t : th) sim::join(t);
  sim::count("probe.connectivity_state");
}
void Run() { if (sim::workload().chance(0.7)) RunComponents(); else RunState(); }
}  // namespace
const sim::Harness sim::kHarness = {"connectivity", nullptr, Run, true};
