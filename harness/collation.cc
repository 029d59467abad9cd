// C03: sensor streams pushed by producer threads, merged by the collators and
// handed to a trajectory builder.
// FLAVOR: tsan
// INSTRUMENT: yes
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "cartographer/common/internal/blocking_queue.h"
#include "cartographer/common/time.h"
#include "cartographer/mapping/internal/collated_trajectory_builder.h"
#include "cartographer/mapping/internal/local_slam_result_data.h"
#include "cartographer/sensor/internal/collator.h"
#include "cartographer/sensor/internal/dispatchable.h"
#include "cartographer/sensor/internal/trajectory_collator.h"
#include "sim/sim.h"

using sim::Quiet;
namespace cs = cartographer::sensor;
namespace cm = cartographer::mapping;
namespace cc = cartographer::common;
using SensorId = cm::TrajectoryBuilderInterface::SensorId;
namespace {

enum Kind { kRange = 0, kImu, kOdom, kFixed, kLandmark };
struct Sensor { int traj; std::string id; int kind; bool expected; bool direct; };
struct Message { int sensor; int64_t time; int id; };
struct Delivery {
  int traj; std::string sensor; int64_t time; int id; int kind;
  bool operator==(const Delivery& o) const { return traj == o.traj && sensor == o.sensor && time == o.time && id == o.id && kind == o.kind; }
};
std::string Str(const Delivery& d) {
  return "(trajectory " + std::to_string(d.traj) + " sensor " + d.sensor + " time " + std::to_string(d.time) + " message " + std::to_string(d.id) + ")";
}

std::vector<Delivery> delivered;   // by the code
std::vector<Delivery> expected;    // by the model

// Payloads carry the message number in a field of their own.
cc::Time T(int64_t t) { return cc::FromUniversal(t); }
cs::ImuData Imu(const Message& m) { return {T(m.time), Eigen::Vector3d(m.id, 0, 0), Eigen::Vector3d(0, 0, m.id)}; }
cs::OdometryData Odom(const Message& m) { return {T(m.time), cartographer::transform::Rigid3d::Translation(Eigen::Vector3d(m.id, 0, 0))}; }
cs::FixedFramePoseData Fixed(const Message& m) {
  cs::FixedFramePoseData d;
  d.time = T(m.time);
  d.pose = cartographer::transform::Rigid3d::Translation(Eigen::Vector3d(m.id, 0, 0));
  return d;
}
cs::LandmarkData Landmark(const Message& m) {
  cs::LandmarkData d;
  d.time = T(m.time);
  d.landmark_observations.push_back({std::to_string(m.id), cartographer::transform::Rigid3d::Identity(), 1., 1.});
  return d;
}
cs::TimedPointCloudData Range(const Message& m) {
  cs::TimedPointCloudData d;
  d.time = T(m.time);
  d.origin = Eigen::Vector3f(m.id, 0, 0);
  d.ranges.push_back({Eigen::Vector3f(1, 2, 3), 0.f});
  return d;
}

struct Recorder : public cm::TrajectoryBuilderInterface {
  int traj;
  explicit Recorder(int t) : traj(t) {}
  void Got(const std::string& s, cc::Time t, int id, int kind) {
    Quiet z;
    delivered.push_back({traj, s, cc::ToUniversal(t), id, kind});
  }
  void AddSensorData(const std::string& s, const cs::TimedPointCloudData& d) override {
    SIM_CHECK(d.ranges.size() == 1 && d.ranges[0].position == Eigen::Vector3f(1, 2, 3), "message-altered", "points of a scan changed on the way");
    Got(s, d.time, static_cast<int>(d.origin.x()), kRange);
  }
  void AddSensorData(const std::string& s, const cs::ImuData& d) override {
    SIM_CHECK(d.linear_acceleration.x() == d.angular_velocity.z(), "message-altered", "IMU reading changed on the way");
    Got(s, d.time, static_cast<int>(d.linear_acceleration.x()), kImu);
  }
  void AddSensorData(const std::string& s, const cs::OdometryData& d) override { Got(s, d.time, static_cast<int>(d.pose.translation().x()), kOdom); }
  void AddSensorData(const std::string& s, const cs::FixedFramePoseData& d) override { Got(s, d.time, static_cast<int>(d.pose->translation().x()), kFixed); }
  void AddSensorData(const std::string& s, const cs::LandmarkData& d) override { Got(s, d.time, std::stoi(d.landmark_observations.at(0).id), kLandmark); }
  void AddLocalSlamResultData(std::unique_ptr<cm::LocalSlamResultData>) override {}
};

// The reference: what has to have been delivered after each call.
struct Model {
  struct Q { std::deque<Delivery> q; bool finished = false; };
  // One group waits together: everything (Collator) or one trajectory.
  std::map<int, std::map<std::pair<int, std::string>, Q>> groups;
  std::map<int, int64_t> start;
  bool per_trajectory = false;
  int Group(int traj) const { return per_trajectory ? traj : 0; }
  void Step(int g) {
    auto& qs = groups[g];
    while (true) {
      for (auto it = qs.begin(); it != qs.end();)
        if (it->second.q.empty() && it->second.finished) it = qs.erase(it); else ++it;
      if (qs.empty()) return;
      for (auto& e : qs) if (e.second.q.empty()) return;
      auto best = qs.begin();
      for (auto it = qs.begin(); it != qs.end(); ++it)
        if (it->second.q.front().time < best->second.q.front().time) best = it;
      const int traj = best->first.first;
      if (!start.count(traj)) {
        int64_t t = 0;
        for (auto& e : qs) if (e.first.first == traj) t = std::max(t, e.second.q.front().time);
        start[traj] = t;
      }
      auto& q = best->second.q;
      const int64_t t0 = start[traj];
      if (q.front().time < t0) {
        if (q.size() < 2) {
          if (!best->second.finished) return;
        } else if (q[1].time <= t0) {
          sim::count("probe.dropped_before_start");
          q.pop_front();
          continue;
        } else {
          sim::count("probe.kept_last_before_start");
        }
      }
      expected.push_back(q.front());
      q.pop_front();
    }
  }
  // Trajectories that something is really waited for in.
  std::vector<int> Blockers() {
    std::vector<int> r;
    for (auto& g : groups) for (auto& e : g.second) {
      if (e.second.finished) continue;
      if (e.second.q.empty()) r.push_back(e.first.first);
      else if (e.second.q.size() < 2 && start.count(e.first.first) && e.second.q.front().time < start[e.first.first]) r.push_back(e.first.first);
    }
    return r;
  }
};

size_t compared = 0;
void Compare(const char* what) {
  Quiet z;
  for (; compared < delivered.size() || compared < expected.size(); ++compared) {
    if (compared >= expected.size())
      sim::fail("early-or-extra-delivery", std::string("after ") + what + " a message was delivered that may not be yet: " + Str(delivered[compared]));
    if (compared >= delivered.size())
      sim::fail("withheld", std::string("after ") + what + " a message is due but was not delivered: " + Str(expected[compared]));
    if (!(delivered[compared] == expected[compared]))
      sim::fail("wrong-delivery", std::string("after ") + what + " delivered " + Str(delivered[compared]) + ", due was " + Str(expected[compared]));
  }
}

void Run() {
  auto& r = sim::workload();
  Quiet* setup = new Quiet;
  const bool per_traj = r.chance(0.5);
  const bool builder = r.chance(0.6);
  const bool collate_landmarks = r.chance(0.5), collate_fixed = r.chance(0.5);
  const int ntraj = r.range(1, 3);
  const bool late = ntraj > 1 && r.chance(0.4);   // last trajectory joins later
  if (r.chance(0.2)) sim::set_clock_jumps(0.05);
  // Sometimes one sensor is silent while another fills its queue far beyond the
  // size the collators start to complain about.
  const bool backlog = r.chance(0.02);
  const double stray = r.chance(0.3) ? 0.1 : 0.;
  Model model;
  model.per_trajectory = per_traj;

  std::vector<Sensor> sensors;
  std::vector<std::vector<Message>> streams;
  int nid = 1;
  int64_t latest = 0;
  for (int t = 0; t < ntraj; ++t) {
    const int n = r.range(1, 4);
    const int64_t base = (late && t == ntraj - 1) ? 0 : 1000;
    for (int i = 0; i < n; ++i) {
      Sensor s;
      s.traj = t;
      s.kind = r.range(0, i == 0 ? 2 : 4);
      s.id = std::string(1, "rpqst"[r.range(0, 4)]) + std::to_string(i);
      s.expected = !r.chance(0.1) || i == 0;   // some readings nobody asked for
      s.direct = builder && ((s.kind == kLandmark && !collate_landmarks) || (s.kind == kFixed && !collate_fixed));
      std::vector<Message> st;
      int64_t time = base + r.range(0, r.chance(0.3) ? 12 : 4);
      int count = r.chance(0.08) ? 0 : r.range(1, 9);
      if (backlog && t == 0 && i == 0) count = r.range(505, 620);
      for (int k = 0; k < count; ++k) {
        st.push_back({static_cast<int>(sensors.size()), time, nid++});
        time += r.chance(0.1) ? 0 : r.chance(0.1) ? r.range(5, 20) : r.range(1, 3);
      }
      if (!(late && t == ntraj - 1)) latest = std::max(latest, time);
      sensors.push_back(s);
      streams.push_back(st);
    }
  }
  if (late)
    for (size_t s = 0; s < sensors.size(); ++s)
      if (sensors[s].traj == ntraj - 1) for (auto& m : streams[s]) m.time += latest + 5;
  // The minimiser may take messages out.
  std::vector<std::vector<Message>> kept(streams.size());
  for (size_t s = 0; s < streams.size(); ++s)
    for (auto& m : streams[s]) if (sim::op_enabled(m.id - 1)) kept[s].push_back(m);

  const int nprod = backlog ? (r.range(1, 3), 1) : r.range(1, 3);
  std::vector<std::vector<int>> producer_sensors(nprod);
  for (size_t s = 0; s < sensors.size(); ++s) producer_sensors[r.below(nprod)].push_back(s);
  const size_t cap = r.chance(0.3) ? 0 : r.range(1, 6);
  const bool flush = r.chance(0.4);
  const int finish_mode = r.range(0, 2);
  const double stall = r.chance(0.3) ? 0.2 : 0.03;
  const int burst = r.range(1, 6);

  std::unique_ptr<cs::CollatorInterface> collator;
  if (per_traj) collator.reset(new cs::TrajectoryCollator); else collator.reset(new cs::Collator);
  std::vector<std::unique_ptr<cm::TrajectoryBuilderInterface>> builders(ntraj);
  delete setup;

  // Items are message numbers into a table; -1-t says "producer t is done".
  struct Item { int sensor; int index; };
  cc::BlockingQueue<std::unique_ptr<Item>> queue(cap);
  std::vector<int> handles;
  for (int p = 0; p < nprod; ++p) {
    const uint64_t pseed = r.next();
    handles.push_back(sim::spawn([&, p, pseed] {
      sim::Rng pr(pseed);
      std::vector<size_t> pos(producer_sensors[p].size(), 0);
      while (true) {
        int pick = -1;
        {
          Quiet z;
          std::vector<int> open;
          for (size_t i = 0; i < pos.size(); ++i) if (pos[i] < kept[producer_sensors[p][i]].size()) open.push_back(i);
          if (open.empty()) break;
          pick = open[pr.below(open.size())];
          if (backlog && pos[0] < kept[0].size() && pos[0] > 3 && !pr.chance(0.001)) { pick = 0; sim::count("fault.backlog_step"); }
        }
        const int n = pr.range(1, burst);
        for (int i = 0; i < n && pos[pick] < kept[producer_sensors[p][pick]].size(); ++i) {
          std::unique_ptr<Item> item(new Item{producer_sensors[p][pick], static_cast<int>(pos[pick]++)});
          queue.Push(std::move(item));
        }
        if (sim::fault("sensor_stall", stall)) sim::sleep_ns(1000000 * (1 + (pr.next() & 1023)));
        else sim::sleep_ns(pr.range(1, 3000));
      }
      queue.Push(std::unique_ptr<Item>(new Item{-1, p}));
    }, "producer"));
  }

  // The consumer, as the server's SLAM thread.
  auto add_trajectory = [&](int t) {
    absl::flat_hash_set<std::string> ids;
    std::set<SensorId> sids;
    {
      Quiet z;
      for (auto& s : sensors) if (s.traj == t && s.expected) {
        ids.insert(s.id);
        sids.insert(SensorId{static_cast<SensorId::SensorType>(s.kind), s.id});
        if (!s.direct) model.groups[model.Group(t)][{t, s.id}];
      }
    }
    if (builder) {
      cm::proto::TrajectoryBuilderOptions o;
      o.set_collate_landmarks(collate_landmarks);
      o.set_collate_fixed_frame(collate_fixed);
      builders[t].reset(new cm::CollatedTrajectoryBuilder(o, collator.get(), t, sids, std::unique_ptr<cm::TrajectoryBuilderInterface>(new Recorder(t))));
    } else {
      Recorder* rec = new Recorder(t);
      builders[t].reset(rec);
      collator->AddTrajectory(t, ids, [rec](const std::string& id, std::unique_ptr<cs::Data> d) {
        SIM_CHECK(id == d->GetSensorId(), "message-altered", "delivered under another sensor's name");
        d->AddToTrajectoryBuilder(rec);
      });
    }
  };
  auto blocked_check = [&] {
    if (per_traj) return;
    Quiet z;
    auto b = model.Blockers();
    if (b.empty()) return;
    auto got = collator->GetBlockingTrajectoryId();
    SIM_CHECK(got.has_value(), "blocker", "no trajectory is reported as waited for although data is missing");
    SIM_CHECK(std::find(b.begin(), b.end(), *got) != b.end(), "blocker", "a trajectory is reported as waited for that is not");
  };
  std::vector<bool> added(ntraj), finished(ntraj);
  for (int t = 0; t < ntraj; ++t) if (!(late && t == ntraj - 1)) { add_trajectory(t); added[t] = true; }
  std::vector<size_t> got(sensors.size(), 0);
  std::deque<Item> early;   // for the trajectory that has not joined yet
  int done = 0, handled = 0;
  auto finish = [&](int t) {
    if (finished[t]) return;
    finished[t] = true;
    {
      Quiet z;
      auto& qs = model.groups[model.Group(t)];
      for (auto& e : qs) if (e.first.first == t) e.second.finished = true;
      model.Step(model.Group(t));
    }
    collator->FinishTrajectory(t);
    Compare("finishing a trajectory");
    sim::count("probe.finish_trajectory");
  };
  auto handle = [&](const Item& it) {
    const Message& m = kept[it.sensor][it.index];
    const Sensor& s = sensors[it.sensor];
    const Delivery d{s.traj, s.id, m.time, m.id, s.kind};
    bool accepted = false;
    {
      Quiet z;
      ++got[it.sensor];
      if (s.direct) {
        expected.push_back(d);
      } else {
        auto& qs = model.groups[model.Group(s.traj)];
        auto q = qs.find({s.traj, s.id});
        accepted = q != qs.end();
        if (accepted) { q->second.q.push_back(d); model.Step(model.Group(s.traj)); }
      }
    }
    if (builder) {
      auto* b = builders[s.traj].get();
      switch (s.kind) {
        case kRange: b->AddSensorData(s.id, Range(m)); break;
        case kImu: b->AddSensorData(s.id, Imu(m)); break;
        case kOdom: b->AddSensorData(s.id, Odom(m)); break;
        case kFixed: b->AddSensorData(s.id, Fixed(m)); break;
        default: b->AddSensorData(s.id, Landmark(m));
      }
    } else {
      std::unique_ptr<cs::Data> data;
      switch (s.kind) {
        case kRange: data = cs::MakeDispatchable(s.id, Range(m)); break;
        case kImu: data = cs::MakeDispatchable(s.id, Imu(m)); break;
        case kOdom: data = cs::MakeDispatchable(s.id, Odom(m)); break;
        case kFixed: data = cs::MakeDispatchable(s.id, Fixed(m)); break;
        default: data = cs::MakeDispatchable(s.id, Landmark(m));
      }
      collator->AddSensorData(s.traj, std::move(data));
    }
    Compare("a sensor reading");
    if (accepted) blocked_check();
    // Readings nobody waits for: of unknown sensors, of unknown trajectories
    // and of trajectories that are over. None may show up anywhere.
    if (stray > 0 && sim::fault("stray_reading", stray)) {
      int t = 0;
      std::string name;
      bool send = true;
      {
        Quiet z;
        const int what = r.range(0, 2);
        std::vector<int> over;
        for (int k = 0; k < ntraj; ++k) {
          bool held = false;   // data of a finished trajectory may still wait for others
          for (auto& e : model.groups[model.Group(k)]) if (e.first.first == k) held = true;
          if (finished[k] && !held) over.push_back(k);
        }
        name = s.id;
        t = s.traj;
        if (what == 0) name = "nobody";
        else if (what == 1 && !per_traj) t = ntraj + r.range(0, 2);
        else if (!over.empty()) { t = over[r.below(over.size())]; for (auto& o : sensors) if (o.traj == t) name = o.id; }
        else send = false;
      }
      if (send) {
        collator->AddSensorData(t, cs::MakeDispatchable(name, Imu(Message{0, m.time, 1000000 + m.id})));
        Compare("a reading nobody waits for");
      }
    }
    // As soon as a trajectory's streams are through it may be finished.
    bool complete = true;
    for (size_t k = 0; k < sensors.size(); ++k) if (sensors[k].traj == s.traj && got[k] < kept[k].size()) complete = false;
    if (complete && finish_mode == 0) finish(s.traj);
  };
  auto join_late = [&] {
    const int t = ntraj - 1;
    add_trajectory(t);
    added[t] = true;
    sim::count("probe.trajectory_added_later");
    while (!early.empty()) { Item it = early.front(); early.pop_front(); handle(it); }
  };
  const int join_after = r.range(0, 20);
  while (done < nprod) {
    std::unique_ptr<Item> it;
    if (r.chance(0.5)) it = queue.Pop();
    else it = queue.PopWithTimeout(cc::FromMilliseconds(20));
    if (!it) { sim::count("fault.consumer_timeout"); continue; }
    if (it->sensor < 0) { ++done; continue; }
    if (late && !added[ntraj - 1] && handled++ >= join_after) join_late();
    if (!added[sensors[it->sensor].traj]) { early.push_back(*it); continue; }
    handle(*it);
  }
  if (late && !added[ntraj - 1]) join_late();
  for (int h : handles) sim::join(h);
  if (flush) {
    {
      Quiet z;
      for (auto& g : model.groups) {
        for (auto& e : g.second) e.second.finished = true;
        model.Step(g.first);
      }
    }
    collator->Flush();
    sim::count("probe.flush");
    // Flushing goes through the groups in their own order; trajectories of
    // different groups are compared separately below.
  } else {
    if (finish_mode == 1) for (int t = 0; t < ntraj; ++t) finish(t);
    else for (int t = ntraj; t-- > 0;) finish(t);
  }
  {
    Quiet z;
    if (flush && per_traj) {
      // Only the order inside a trajectory is promised here.
      auto by = [](const Delivery& a, const Delivery& b) { return a.traj < b.traj; };
      std::stable_sort(delivered.begin() + compared, delivered.end(), by);
      std::stable_sort(expected.begin() + compared, expected.end(), by);
    }
  }
  Compare("flushing everything");
  {
    Quiet z;
    // Independently of the step by step model: sorted, complete, no doubles.
    std::map<int, int64_t> last;
    std::map<int, int> times;
    for (auto& d : delivered) {
      bool direct = false;
      for (auto& s : sensors) if (s.traj == d.traj && s.id == d.sensor) direct = s.direct;
      ++times[d.id];
      if (direct) continue;
      SIM_CHECK(!last.count(d.traj) || last[d.traj] <= d.time, "order", "delivered out of time order: " + Str(d));
      last[d.traj] = d.time;
      sim::log_event(static_cast<uint64_t>(d.id));
    }
    for (auto& t : times) SIM_CHECK(t.second == 1, "duplicate", "message " + std::to_string(t.first) + " delivered twice");
    std::map<int, int64_t> start;
    for (size_t s = 0; s < sensors.size(); ++s)
      if (sensors[s].expected && !sensors[s].direct && !kept[s].empty()) start[sensors[s].traj] = std::max(start[sensors[s].traj], kept[s][0].time);
    for (size_t s = 0; s < sensors.size(); ++s)
      for (auto& m : kept[s]) {
        if (!sensors[s].expected && !sensors[s].direct) { SIM_CHECK(!times.count(m.id), "unexpected-sensor", "a reading of an unknown sensor was delivered"); continue; }
        if (sensors[s].direct || m.time >= start[sensors[s].traj])
          SIM_CHECK(times.count(m.id), "lost", "message " + std::to_string(m.id) + " was never delivered");
      }
  }
  builders.clear();
  collator.reset();
}
void Setup() {}
}  // namespace
namespace sim { const Harness kHarness = {"collation", Setup, Run, true}; }
