// C04: scans of several range sensors, synchronised by the range data collator.
// FLAVOR: tsan
// INSTRUMENT: yes
#include <algorithm>
#include <cmath>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "cartographer/common/internal/blocking_queue.h"
#include "cartographer/common/time.h"
#include "cartographer/mapping/internal/range_data_collator.h"
#include "cartographer/mapping/trajectory_builder_interface.h"
#include "cartographer/sensor/internal/dispatchable.h"
#include "cartographer/sensor/internal/trajectory_collator.h"
#include "sim/sim.h"

using sim::Quiet;
namespace cs = cartographer::sensor;
namespace cm = cartographer::mapping;
namespace cc = cartographer::common;
namespace {

struct Point { int id; float rel; float intensity; int64_t abs; };  // abs in ticks
struct Scan { int sensor; int64_t time; Eigen::Vector3f origin; bool with_intensity; std::vector<Point> points; int id; };
struct Out { int64_t time; std::vector<Point> points; };

cs::TimedPointCloudData Make(const Scan& s) {
  cs::TimedPointCloudData d;
  d.time = cc::FromUniversal(s.time);
  d.origin = s.origin;
  for (auto& p : s.points) {
    d.ranges.push_back({Eigen::Vector3f(p.id, 1, 2), p.rel});
    if (s.with_intensity) d.intensities.push_back(p.intensity);
  }
  return d;
}

// What has happened to each point.
struct Fate { int emitted = 0; bool seen = false; const Scan* scan = nullptr; const Point* point = nullptr; };

struct Oracle {
  std::set<int> expected_sensors;
  bool ordered = true;
  std::map<int, std::pair<const Scan*, std::vector<const Point*>>> pending;
  int64_t start = INT64_MIN, end = INT64_MIN, newest_end = INT64_MIN;
  std::map<int, Fate> fate;
  std::map<int, int> newest;

  void Got(const Scan& s, const cs::TimedPointCloudOriginData& out, const std::string& when) {
    for (auto& p : s.points) fate[p.id] = {0, true, &s, &p};
    // Reference: which points are due, and up to when.
    bool due = false;
    auto crop = [&] {
      std::set<int> want;
      for (auto it = pending.begin(); it != pending.end();) {
        std::vector<const Point*> keep;
        for (auto* p : it->second.second) {
          if (p->abs > end) keep.push_back(p);
          else if (p->abs >= start) want.insert(p->id);
          else sim::count("probe.point_too_old");
        }
        it->second.second = keep;
        if (keep.empty()) it = pending.erase(it);
        else { sim::count("probe.scan_carried_over"); ++it; }
      }
      return want;
    };
    std::set<int> want;
    std::vector<const Point*> pts;
    for (auto& p : s.points) pts.push_back(&p);
    if (pending.count(s.sensor)) {
      start = end;
      end = pending[s.sensor].first->time;
      want = crop();
      due = true;
      sim::count("probe.same_sensor_twice");
      pending[s.sensor] = {&s, pts};
    } else {
      pending[s.sensor] = {&s, pts};
      if (pending.size() == expected_sensors.size()) {
        start = end;
        end = INT64_MAX;
        for (auto& e : pending) end = std::min(end, e.second.first->time);
        want = crop();
        due = true;
      }
    }
    // The output itself.
    const int64_t out_time = cc::ToUniversal(out.time);
    std::set<int> got;
    float last = -1e30f;
    for (auto& r : out.ranges) {
      const int id = static_cast<int>(r.point_time.position.x());
      auto f = fate.find(id);
      SIM_CHECK(f != fate.end() && f->second.seen, "foreign-point", "an output contains a point that was not measured (" + when + ")");
      ++f->second.emitted;
      SIM_CHECK(f->second.emitted == 1, "duplicate-point", "point " + std::to_string(id) + " is output twice (" + when + ")");
      const Point& p = *f->second.point;
      const Scan& sc = *f->second.scan;
      SIM_CHECK(r.point_time.position == Eigen::Vector3f(id, 1, 2), "point-altered", "position changed");
      SIM_CHECK(r.intensity == (sc.with_intensity ? p.intensity : 0.f), "intensity", "point " + std::to_string(id) + " has intensity " + std::to_string(r.intensity) + " (" + when + ")");
      SIM_CHECK(r.origin_index < out.origins.size() && out.origins[r.origin_index] == sc.origin, "origin", "point " + std::to_string(id) + " refers to another sensor's origin (" + when + ")");
      SIM_CHECK(r.point_time.time <= 0.f, "later-than-output", "point " + std::to_string(id) + " is later than its output (" + when + ")");
      SIM_CHECK(r.point_time.time >= last, "unsorted", "points of one output are not sorted by time (" + when + ")");
      last = r.point_time.time;
      const double want_rel = static_cast<double>(sc.time - out_time) * 1e-7 + static_cast<double>(p.rel);
      SIM_CHECK(std::abs(static_cast<double>(r.point_time.time) - want_rel) < 2e-6 + 1e-6 * std::abs(want_rel), "time-shifted",
                "point " + std::to_string(id) + " was measured at " + std::to_string(want_rel) + " s relative to the output but carries " + std::to_string(r.point_time.time) + " (" + when + ")");
      got.insert(id);
    }
    if (!ordered) {
      // Arrival out of time order is outside the contract; only what must never
      // happen is checked.
      newest_end = std::max(newest_end, out_time);
      newest[s.sensor] = s.id;
      return;
    }
    if (!due) {
      SIM_CHECK(out.ranges.empty(), "early-output", "points were output although other sensors must still be waited for (" + when + ")");
      return;
    }
    sim::count("probe.output");
    SIM_CHECK(out_time == end, "output-time", "output is stamped " + std::to_string(out_time) + ", its interval ends at " + std::to_string(end) + " (" + when + ")");
    SIM_CHECK(out_time >= newest_end, "interval-order", "outputs go back in time (" + when + ")");
    newest_end = std::max(newest_end, out_time);
    for (int id : want) SIM_CHECK(got.count(id), "withheld-point", "point " + std::to_string(id) + " is due in the output at " + std::to_string(end) + " but missing (" + when + ")");
    for (int id : got) SIM_CHECK(want.count(id), "wrong-interval", "point " + std::to_string(id) + " does not belong into the output at " + std::to_string(end) + " (" + when + ")");
  }
  // At the end: every point of an accepted scan was output, is still pending, or
  // was measured before an interval that was already output.
  void Final() {
    std::set<int> held;
    for (auto& e : pending) for (auto* p : e.second.second) held.insert(p->id);
    if (!ordered) {
      held.clear();
      for (auto& f : fate) if (newest[f.second.scan->sensor] == f.second.scan->id) held.insert(f.first);
    }
    for (auto& f : fate)
      if (!f.second.emitted && !held.count(f.first))
        SIM_CHECK(f.second.point->abs < newest_end, "lost-point", "point " + std::to_string(f.first) + " was never output");
  }
};

struct Sink : public cm::TrajectoryBuilderInterface {
  cm::RangeDataCollator* collator;
  Oracle* oracle;
  const std::vector<Scan>* scans;
  int64_t last_in = INT64_MIN;
  void Feed(const std::string& id, const Scan& s, const cs::TimedPointCloudData& d) {
    auto out = collator->AddRangeData(id, d);
    Quiet z;
    oracle->Got(s, out, "after scan " + std::to_string(s.id) + " of " + id + " at " + std::to_string(s.time));
    sim::log_event(static_cast<uint64_t>(s.id * 1000 + out.ranges.size()));
  }
  void AddSensorData(const std::string& id, const cs::TimedPointCloudData& d) override {
    // Scans are recognised by their origin's z coordinate.
    Feed(id, (*scans)[std::lround(d.origin.z() * 1024)], d);
  }
  void AddSensorData(const std::string&, const cs::ImuData&) override {}
  void AddSensorData(const std::string&, const cs::OdometryData&) override {}
  void AddSensorData(const std::string&, const cs::FixedFramePoseData&) override {}
  void AddSensorData(const std::string&, const cs::LandmarkData&) override {}
  void AddLocalSlamResultData(std::unique_ptr<cm::LocalSlamResultData>) override {}
};

void Run() {
  auto& r = sim::workload();
  std::unique_ptr<Quiet> setup(new Quiet);
  const int nsensors = r.range(1, 4);
  const bool ordered = r.chance(0.75);
  std::vector<Scan> scans;
  std::vector<std::vector<int>> per(nsensors);
  std::vector<std::string> names;
  int pid = 1, op = 0;
  for (int s = 0; s < nsensors; ++s) {
    names.push_back("range_" + std::to_string(s));
    int64_t period = r.range(1, 5) * 100000;          // 10..50 ms in 100 ns ticks
    int64_t time = 10000000 + r.range(0, 4) * 50000;
    const int n = r.range(1, 8);
    const bool wi = r.chance(0.6);
    for (int k = 0; k < n; ++k) {
      if (sim::fault("scan_dropped", 0.1)) { time += period; }
      Scan sc;
      sc.sensor = s;
      sc.time = time;
      sc.with_intensity = wi && !r.chance(0.1);
      sc.id = scans.size();
      sc.origin = Eigen::Vector3f(0.01f * s, 0.001f * k, sc.id / 1024.f);
      const int np = r.chance(0.05) ? 0 : r.range(1, 7);
      // Spread over the time since the last scan, sometimes overlapping it.
      const int64_t span = r.chance(0.15) ? period * 3 : r.chance(0.1) ? 0 : period;
      std::vector<int64_t> t;
      for (int i = 0; i < np; ++i) t.push_back(np > 1 && r.chance(0.8) ? span * i / (np - 1) : r.range(0, static_cast<int>(span)));
      std::sort(t.begin(), t.end());
      const int64_t newest = np == 0 || !r.chance(0.8) ? span : t[np - 1];
      for (int i = 0; i < np; ++i) {
        Point p;
        p.id = pid++;
        p.rel = static_cast<float>((t[i] - newest) * 1e-7);
        p.intensity = p.id * 0.5f + 1;
        p.abs = cc::ToUniversal(cc::FromUniversal(time) + cc::FromSeconds(p.rel));
        sc.points.push_back(p);
      }
      if (sim::op_enabled(op++)) { scans.push_back(sc); per[s].push_back(sc.id); }
      // Jitter, and now and then the same stamp again.
      if (sim::fault("stamp_repeated", 0.06)) continue;
      time += period;
      if (r.chance(0.3)) time += r.range(0, 20000);
    }
  }
  const double stall = r.chance(0.4) ? 0.25 : 0.03;
  std::vector<uint64_t> pseeds;
  for (int s = 0; s < nsensors; ++s) pseeds.push_back(r.next());
  cm::RangeDataCollator collator(names);
  Oracle oracle;
  oracle.ordered = ordered;
  for (int s = 0; s < nsensors; ++s) oracle.expected_sensors.insert(s);
  Sink* sink = new Sink;
  sink->collator = &collator;
  sink->oracle = &oracle;
  sink->scans = &scans;
  std::unique_ptr<cm::TrajectoryBuilderInterface> owner(sink);
  setup.reset();

  // Sensor drivers push, the SLAM thread pops, collates and synchronises.
  cc::BlockingQueue<std::unique_ptr<int>> queue(8);
  std::vector<int> handles;
  for (int s = 0; s < nsensors; ++s)
    handles.push_back(sim::spawn([&, s] {
      sim::Rng pr(pseeds[s]);
      for (int id : per[s]) {
        queue.Push(std::unique_ptr<int>(new int(id)));
        if (sim::fault("sensor_stall", stall)) sim::sleep_ns(1000000 * (1 + (pr.next() & 255)));
        else sim::sleep_ns(pr.range(1, 3000));
      }
      queue.Push(std::unique_ptr<int>(new int(-1)));
    }, "driver"));
  cs::TrajectoryCollator ordering;
  if (ordered) {
    absl::flat_hash_set<std::string> ids(names.begin(), names.end());
    ordering.AddTrajectory(0, ids, [&](const std::string&, std::unique_ptr<cs::Data> d) { d->AddToTrajectoryBuilder(sink); });
  }
  int open = nsensors;
  while (open) {
    auto it = queue.Pop();
    if (*it < 0) { --open; continue; }
    const Scan& s = scans[*it];
    if (ordered) ordering.AddSensorData(0, cs::MakeDispatchable(names[s.sensor], Make(s)));
    else sink->Feed(names[s.sensor], s, Make(s));
  }
  if (ordered) ordering.FinishTrajectory(0);
  for (int h : handles) sim::join(h);
  Quiet z;
  if (!ordered) sim::count("probe.unordered_arrival");
  oracle.Final();
}
void Setup() {}
}  // namespace
namespace sim { const Harness kHarness = {"rangecollate", Setup, Run, true}; }
