// C18: local SLAM, from the sensors to the result callback, through MapBuilder.
// FLAVOR: plain
// INSTRUMENT: no
#include <array>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/map_builder.h"
#include "cartographer/transform/transform.h"
#include "harness/sensors.h"
#include "harness/world.h"
#include "sim/sim.h"

using sim::Quiet;
using namespace cartographer;
using namespace cartographer::mapping;
using transform::Rigid3d;

namespace {
proto::MapBuilderOptions* base[2];
proto::TrajectoryBuilderOptions* base_trajectory;

void Setup() {
  for (int d : {2, 3}) {
    auto dict = world::Lua(std::string(R"text(
      include "map_builder.lua"
      MAP_BUILDER.use_trajectory_builder_)text") + (d == 2 ? "2" : "3") + R"text(d = true
      MAP_BUILDER.num_background_threads = 1
      g = MAP_BUILDER.pose_graph
      g.optimize_every_n_nodes = 0
      g.max_num_final_iterations = 2
      g.global_sampling_ratio = 0.
      g.constraint_builder.sampling_ratio = 0.
      g.constraint_builder.log_matches = false
      g.log_residual_histograms = false
      return MAP_BUILDER)text");
    base[d - 2] = new proto::MapBuilderOptions(CreateMapBuilderOptions(dict.get()));
  }
  auto dict = world::Lua(R"text(
      include "trajectory_builder.lua"
      t = TRAJECTORY_BUILDER.trajectory_builder_2d
      t.min_range = 0.1
      t.max_range = 20.
      t.adaptive_voxel_filter.min_num_points = 40
      t.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 8
      t.submaps.range_data_inserter.probability_grid_range_data_inserter.hit_probability = 0.7
      t.submaps.range_data_inserter.probability_grid_range_data_inserter.miss_probability = 0.45
      t.motion_filter.max_time_seconds = 1.
      t.motion_filter.max_distance_meters = 0.1
      t.motion_filter.max_angle_radians = 0.05
      u = TRAJECTORY_BUILDER.trajectory_builder_3d
      u.min_range = 0.1
      u.max_range = 20.
      u.rotational_histogram_size = 12
      u.high_resolution_adaptive_voxel_filter.min_num_points = 60
      u.low_resolution_adaptive_voxel_filter.min_num_points = 40
      u.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 6
      u.submaps.high_resolution_max_range = 10.
      u.submaps.range_data_inserter.hit_probability = 0.7
      u.motion_filter.max_distance_meters = 0.1
      u.motion_filter.max_angle_radians = 0.05
      return TRAJECTORY_BUILDER)text");
  base_trajectory = new proto::TrajectoryBuilderOptions(CreateTrajectoryBuilderOptions(dict.get()));
}

struct Trajectory {
  robot::Robot robot;
  proto::TrajectoryBuilderOptions options;
  bool clean = false;      // no sensor faults: everything is predictable
  bool blind = false;      // the same, but some scans are empty or see nothing
  bool single_range = true;
  bool repeats = false;    // stamps may repeat
  bool uses_imu = false;
  int accumulate = 1;
  int window = 3;          // num_range_data of the submaps
  double t0 = 0, t1 = 0;
};
struct Plan {
  int dim = 2;
  std::vector<Trajectory> trajectories;
  bool by_trajectory = false;
  bool final_optimization = false;
  struct Step { int t; int event; bool on; };
  std::vector<Step> steps;
};

// What a run of the plan produced.
struct Result {
  double time;
  Rigid3d pose;
  int node = -1;
  uint64_t cloud = 0;
};
struct Outcome { std::vector<std::vector<Result>> results; };

uint64_t Bits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }
uint64_t Mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h; }
uint64_t Hash(const Rigid3d& p) {
  uint64_t h = 1;
  for (int i = 0; i < 3; ++i) h = Mix(h, Bits(p.translation()[i]));
  for (int i = 0; i < 4; ++i) h = Mix(h, Bits(p.rotation().coeffs()[i]));
  return h;
}
uint64_t Hash(const sensor::PointCloud& c) {
  uint64_t h = c.size();
  for (auto& p : c) for (int i = 0; i < 3; ++i) h = Mix(h, Bits(p.position[i]));
  return h;
}
bool Finite(const Rigid3d& p) {
  return p.translation().allFinite() && p.rotation().coeffs().allFinite() && std::abs(p.rotation().norm() - 1.) < 1e-5;
}
std::string Num(double d) { char b[64]; snprintf(b, sizeof b, "%.7g", d); return b; }

std::string GridOf(const Submap& s) {
  auto p = s.ToProto(true);
  std::string out;
  p.SerializeToString(&out);
  return out;
}

Plan MakePlan(int dim) {
  auto& r = sim::workload();
  Plan p;
  p.dim = dim;
  p.by_trajectory = r.chance(0.3);
  p.final_optimization = r.chance(0.1);
  const int nt = r.chance(0.25) || sim::param("pending", 0) ? 2 : 1;
  // A known finding: with the collator for all trajectories, finishing a
  // trajectory whose data still waits for another one's stops the program.
  const bool pending = sim::param("pending", 0);
  if (pending) p.by_trajectory = false;
  const bool careful = nt == 2 && !p.by_trajectory && !pending;
  for (int k = 0; k < nt; ++k) {
    p.trajectories.emplace_back();
    Trajectory& t = p.trajectories.back();
    t.robot.dim = dim;
    t.robot.truth.phase = r.uniform(0, 6.28);
    t.robot.truth.speed = r.uniform(0.6, 1.4);
    t.t0 = r.uniform(1, 3);
    t.t1 = t.t0 + r.uniform(2., 6.);
    t.options = *base_trajectory;
    t.clean = r.chance(0.3) || (careful && k == 1);
    t.blind = !t.clean && r.chance(0.2);
    if (careful && k == 1) t.t1 = std::max(t.t1, p.trajectories[0].t1 + 2.);
    t.uses_imu = dim == 3 || r.chance(0.6);
    t.accumulate = r.chance(0.6) ? 1 : r.range(2, 3);
    t.window = r.range(1, 4);
    auto* o2 = t.options.mutable_trajectory_builder_2d_options();
    auto* o3 = t.options.mutable_trajectory_builder_3d_options();
    o2->set_use_imu_data(t.uses_imu);
    o2->set_num_accumulated_range_data(t.accumulate);
    o3->set_num_accumulated_range_data(t.accumulate);
    o2->mutable_submaps_options()->set_num_range_data(t.window);
    o3->mutable_submaps_options()->set_num_range_data(t.window);
    for (auto* m : {o2->mutable_motion_filter_options(), o3->mutable_motion_filter_options()}) {
      const double kind = r.unit();
      if (kind < 0.3) { m->set_max_distance_meters(0); m->set_max_time_seconds(0); m->set_max_angle_radians(0); }
      else if (kind < 0.5) { m->set_max_distance_meters(100); m->set_max_angle_radians(100); m->set_max_time_seconds(r.chance(0.5) ? 0.7 : r.uniform(0., 1.)); }
    }
    if (r.chance(0.2)) { o2->set_use_online_correlative_scan_matching(true); o3->set_use_online_correlative_scan_matching(true); }
    if (dim == 2 && r.chance(0.2)) {
      auto* s = o2->mutable_submaps_options();
      s->mutable_grid_options_2d()->set_grid_type(proto::GridOptions2D::TSDF);
      s->mutable_range_data_inserter_options()->set_range_data_inserter_type(proto::RangeDataInserterOptions::TSDF_INSERTER_2D);
    }
    // Small cells: the grid has to grow.
    if (dim == 2 && r.chance(0.3)) o2->mutable_submaps_options()->mutable_grid_options_2d()->set_resolution(0.03);
    if (dim == 3 && r.chance(0.2)) o3->set_use_intensities(true);
    if (dim == 3 && r.chance(0.2)) o3->mutable_pose_extrapolator_options()->set_use_imu_based(true);
    t.options.set_collate_landmarks(r.chance(0.5));
    t.options.set_collate_fixed_frame(r.chance(0.7));
    if (r.chance(0.2)) {
      auto* f = t.options.mutable_pose_graph_odometry_motion_filter();
      f->set_max_time_seconds(0.5); f->set_max_distance_meters(0.1); f->set_max_angle_radians(0.1);
    }
    // Sensors.
    const int ranges = !t.clean && !t.blind && r.chance(0.3) ? 2 : 1;
    t.single_range = ranges == 1;
    for (int i = 0; i < ranges; ++i) {
      robot::Sensor s{robot::kRange, "range" + std::to_string(i)};
      s.rate = r.pick(std::vector<double>{4., 5., 8.});
      s.offset = 0.01 + 0.07 * i;
      s.duration = r.chance(0.3) && !t.clean ? 0. : r.uniform(0.02, 0.8 / s.rate);
      s.points = dim == 2 ? 60 : 90;
      t.robot.sensors.push_back(s);
    }
    if (t.uses_imu) { robot::Sensor s{robot::kImu, "imu"}; s.rate = r.pick(std::vector<double>{10., 25.}); t.robot.sensors.push_back(s); }
    if (r.chance(0.5)) { robot::Sensor s{robot::kOdom, "odom"}; s.rate = r.pick(std::vector<double>{5., 10., 20.}); t.robot.sensors.push_back(s); }
    if (r.chance(0.25)) { robot::Sensor s{robot::kFixed, "gps"}; s.rate = 2; t.robot.sensors.push_back(s); }
    if (r.chance(0.25)) { robot::Sensor s{robot::kLandmark, "beacon"}; s.rate = 3; t.robot.sensors.push_back(s); }
    for (auto& s : t.robot.sensors) s.latency = r.chance(0.5) ? 0.3 : 0.;
    if (t.blind) {
      t.robot.sensors[0].blind = 0.4;
      t.robot.sensors[0].empty = 0.2;
    } else if (!t.clean) {
      for (auto& s : t.robot.sensors) {
        const int kind = r.range(0, 9);
        if (kind == 0) s.drop = 0.3;
        // The pose graph stores IMU, odometry and fixed frame data by time and
        // stops loudly when a stamp repeats, unless its own filter drops the
        // repeated message first.
        const bool may_repeat = s.type == robot::kRange || s.type == robot::kLandmark;
        if ((kind == 1 && may_repeat) || (s.type == robot::kOdom && t.options.has_pose_graph_odometry_motion_filter() && r.chance(0.4))) { s.repeat = r.chance(0.5) ? 0.3 : 0.9; t.repeats = true; }
        if (kind == 2 && may_repeat) { s.same_stamp = 0.3; t.repeats = true; }
        if (kind == 3) { s.gap_from = r.uniform(t.t0, t.t1); s.gap_to = s.gap_from + r.uniform(0.5, 3); }
        if (kind == 4) s.start = r.uniform(0.2, 2);
        if (kind == 5) s.stop = r.uniform(0.2, 2);
        if (kind == 6) s.jitter = r.uniform(0, 0.6) / s.rate;
        if (kind == 7 && s.type == robot::kRange) s.empty = 0.3;
        if (kind == 8 && s.type == robot::kRange) s.blind = 0.3;
      }
      if (r.chance(0.15) && !careful) { t.robot.leap_at = r.uniform(t.t0, t.t1); t.robot.leap = r.pick(std::vector<double>{0.5, 2., 5.}); sim::count("fault.stamp_leap"); }
    }
    t.robot.Generate(r, t.t0, t.t1);
  }
  // Deliver both robots' events interleaved.
  std::vector<size_t> pos(nt, 0);
  int op = 0;
  for (;;) {
    std::vector<int> open;
    for (int t = 0; t < nt; ++t) if (pos[t] < p.trajectories[t].robot.events.size()) open.push_back(t);
    if (open.empty()) break;
    const int t = r.pick(open);
    const int burst = r.range(1, 12);
    for (int i = 0; i < burst && pos[t] < p.trajectories[t].robot.events.size(); ++i) {
      const bool on = sim::op_enabled(op++);
      if (!on) p.trajectories[t].clean = p.trajectories[t].blind = false;
      p.steps.push_back({t, static_cast<int>(pos[t]++), on});
    }
  }
  return p;
}

// What the motion filter should say: a result is dropped if since the last one
// kept neither enough time, distance nor angle has passed.
struct Filter {
  double time = 0, distance = 0, angle = 0;
  bool any = false;
  double last_time = 0;
  Rigid3d last_pose;
  // 1: drop, 0: keep, -1: too close to tell
  int Drop(double t, const Rigid3d& pose) const {
    if (!any) return 0;
    const double d[3] = {t - last_time - time, (pose.translation() - last_pose.translation()).norm() - distance, transform::GetAngle(pose.inverse() * last_pose) - angle};
    bool sure = true;
    for (double x : d) {
      if (x > 1e-6) return 0;
      if (x > -1e-6) sure = false;
    }
    return sure ? 1 : -1;
  }
  void Keep(double t, const Rigid3d& pose) { any = true; last_time = t; last_pose = pose; }
};

// The occupancy grids of a submap, by cell, and what a scan does to them: cells
// with hits become more probable once, all others at most less probable once.
using Cell = std::array<int, 3>;
struct Cells {
  std::map<Cell, double> known;
  std::map<Cell, bool> hits;  // false: at the border, may belong to a neighbour
};
double Updated(const std::map<Cell, double>& cells, const Cell& c, double p) {
  const auto it = cells.find(c);
  if (it == cells.end()) return p;
  const double odds = it->second / (1 - it->second) * p / (1 - p);
  return std::min(0.9, std::max(0.1, odds / (1 + odds)));
}
std::string Compare(const std::map<Cell, double>& before, const Cells& after, double hit, double miss) {
  auto same = [](double a, double b) { return std::abs(a - b) < 1e-3; };
  auto name = [](const Cell& c) { return "cell (" + std::to_string(c[0]) + ", " + std::to_string(c[1]) + ", " + std::to_string(c[2]) + ")"; };
  for (auto& h : after.hits) if (h.second && !after.known.count(h.first)) return name(h.first) + " was hit but is still unknown";
  for (auto& b : before) if (!after.known.count(b.first)) return name(b.first) + " was known and is not any more";
  for (auto& a : after.known) {
    const auto h = after.hits.find(a.first);
    const auto old = before.find(a.first);
    const bool as_hit = same(a.second, Updated(before, a.first, hit)), as_miss = same(a.second, Updated(before, a.first, miss)), unchanged = old != before.end() && same(a.second, old->second);
    const bool good = h == after.hits.end() ? as_miss || unchanged : h->second ? as_hit : as_hit || as_miss || unchanged;
    if (!good) return name(a.first) + (h == after.hits.end() ? ", not hit," : ", hit,") + " went from " + (old == before.end() ? "unknown" : Num(old->second)) + " to " + Num(a.second);
  }
  return "";
}
// Marks the cells of 'p', whose index is found with 'index'.
template <class Index>
void Hit(Cells* cells, const Eigen::Vector3f& p, int dims, const Index& index) {
  std::set<Cell> found;
  for (int k = 0; k < 1 << dims; ++k) {
    Eigen::Vector3f q = p;
    for (int i = 0; i < dims; ++i) q[i] += k >> i & 1 ? 3e-4f : -3e-4f;
    found.insert(index(q));
  }
  for (auto& c : found) {
    auto& sure = cells->hits[c];
    sure |= found.size() == 1;
  }
}
Cells CellsOf(const Submap2D& s, const ProbabilityGrid& g, const Eigen::Vector2d& base, const sensor::RangeData& range) {
  Cells out;
  const double res = g.limits().resolution();
  auto key = [&](const Eigen::Array2i& i) {
    // x is indexed by the second, y by the first coordinate.
    return Cell{static_cast<int>(std::llround((g.limits().max().x() - base.x()) / res)) - i.y(), static_cast<int>(std::llround((g.limits().max().y() - base.y()) / res)) - i.x(), 0};
  };
  const auto& n = g.limits().cell_limits();
  for (int x = 0; x < n.num_x_cells; ++x)
    for (int y = 0; y < n.num_y_cells; ++y)
      if (g.IsKnown({x, y})) out.known[key({x, y})] = g.GetProbability({x, y});
  for (auto& p : range.returns)
    Hit(&out, p.position, 2, [&](const Eigen::Vector3f& q) {
      return key({static_cast<int>(std::floor((g.limits().max().y() - q.y()) / res)), static_cast<int>(std::floor((g.limits().max().x() - q.x()) / res))});
    });
  return out;
}
Cells CellsOf(const Submap3D& s, const HybridGrid& g, const sensor::RangeData& range, double max_range) {
  Cells out;
  for (auto it = HybridGrid::Iterator(g); !it.Done(); it.Next()) {
    const auto i = it.GetCellIndex();
    if (g.GetProbability(i) > 0.09) out.known[{i.x(), i.y(), i.z()}] = g.GetProbability(i);
  }
  const auto to_submap = s.local_pose().inverse().cast<float>();
  for (auto& p : range.returns) {
    const double distance = (p.position - range.origin).norm();
    if (distance > max_range + 1e-3) continue;
    Hit(&out, to_submap * p.position, 3, [&](const Eigen::Vector3f& q) {
      const Eigen::Vector3f c = q / g.resolution();
      return Cell{static_cast<int>(std::lround(c.x())), static_cast<int>(std::lround(c.y())), static_cast<int>(std::lround(c.z()))};
    });
    if (distance > max_range - 1e-3) for (auto& h : out.hits) h.second = false;
  }
  return out;
}

// The front end's bookkeeping of one trajectory.
struct Watch {
  std::map<const Submap*, std::map<Cell, double>> cells[2];
  std::map<const Submap*, Eigen::Vector2d> base;
  int few_points = 1 << 30;
  const Trajectory* t = nullptr;
  int id = 0, dim = 2;
  std::vector<Result> results;
  int nodes = 0;
  std::vector<std::shared_ptr<const Submap>> submaps;  // in order of appearance
  std::vector<int> inserted;                           // scans each one got
  std::map<const Submap*, std::string> finished;
  std::vector<common::Time> node_times;
  Filter filter;
  // The scan being handed over right now may be late; results are stamped with
  // times of scans handed over so far.
  double newest_scan = -1;
  int scans = 0;
};

void OnResult(Watch* w, int trajectory, common::Time time, const Rigid3d& pose, const sensor::RangeData& range,
              const TrajectoryBuilderInterface::InsertionResult* ins) {
  const Trajectory& t = *w->t;
  const std::string who = "trajectory " + std::to_string(w->id) + ", result " + std::to_string(w->results.size());
  SIM_CHECK(trajectory == w->id, "local:wrong-trajectory", who + " is reported for trajectory " + std::to_string(trajectory));
  const double s = robot::Seconds(time);
  SIM_CHECK(Finite(pose), "local:bad-pose", who + " has an invalid pose " + pose.DebugString());
  for (auto& p : range.returns) SIM_CHECK(p.position.allFinite(), "local:bad-points", who + " has points that are not numbers");
  SIM_CHECK(!range.returns.empty(), "local:no-points", who + " has no points");
  if (!w->results.empty()) {
    const double before = w->results.back().time;
    SIM_CHECK(t.repeats ? s >= before : s > before, "local:time-order", who + " is for time " + Num(s) + " after one for " + Num(before));
  }
  SIM_CHECK(s <= w->newest_scan + 1e-9, "local:time-ahead", who + " is for time " + Num(s) + ", but the newest scan is of " + Num(w->newest_scan));
  Result r;
  r.time = s;
  r.pose = pose;
  r.cloud = Hash(range.returns);
  const int filtered = w->filter.Drop(s, pose);
  if (ins != nullptr) w->filter.Keep(s, pose);
  w->few_points = std::min<int>(w->few_points, range.returns.size());
  SIM_CHECK(filtered < 0 || (filtered == 1) == (ins == nullptr), "local:motion-filter", who + (filtered ? " was inserted although the robot has not moved enough" : " was not inserted although the robot moved or time passed"));
  if (ins != nullptr) {
    r.node = ins->node_id.node_index;
    SIM_CHECK(ins->node_id.trajectory_id == w->id && ins->node_id.node_index == w->nodes, "local:node-id", who + " became node " + std::to_string(ins->node_id.node_index) + " instead of " + std::to_string(w->nodes));
    SIM_CHECK(ins->constant_data != nullptr && ins->constant_data->time == time, "local:node-time", who + ": the node has another time");
    SIM_CHECK(Hash(ins->constant_data->local_pose) == Hash(pose), "local:node-pose", who + ": the node has another pose");
    SIM_CHECK(std::abs(ins->constant_data->gravity_alignment.norm() - 1.) < 1e-5, "local:gravity", who + " has no valid gravity alignment");
    // The node's points are points of the scan.
    const bool flat = w->dim == 2;
    const auto& cloud = flat ? ins->constant_data->filtered_gravity_aligned_point_cloud : ins->constant_data->high_resolution_point_cloud;
    const transform::Rigid3f to_local = (flat ? pose * Rigid3d::Rotation(ins->constant_data->gravity_alignment).inverse() : pose).cast<float>();
    SIM_CHECK(!cloud.empty(), "local:node-points", who + ": the node has no points");
    for (auto& p : cloud) {
      bool found = false;
      for (auto& q : range.returns) if ((to_local * p.position - q.position).norm() < 1e-3) { found = true; break; }
      SIM_CHECK(found, "local:node-points", who + ": a point of the node is none of the scan");
    }
    // Which submaps must have got this scan?
    const int last = w->nodes / t.window, first = std::max(0, last - 1);
    const auto& got = ins->insertion_submaps;
    SIM_CHECK(static_cast<int>(got.size()) == last - first + 1, "local:submaps", who + " went into " + std::to_string(got.size()) + " submaps instead of " + std::to_string(last - first + 1));
    for (int i = first; i <= last; ++i) {
      const auto& sub = got[i - first];
      SIM_CHECK(sub != nullptr, "local:submaps", who + " went into a missing submap");
      if (i == static_cast<int>(w->submaps.size())) {
        for (auto& old : w->submaps) SIM_CHECK(old != sub, "local:submaps", who + " reopened an old submap instead of a new one");
        w->submaps.push_back(sub);
        w->inserted.push_back(0);
        SIM_CHECK(Finite(sub->local_pose()), "local:submap-pose", who + ": a submap has an invalid pose");
      }
      SIM_CHECK(w->submaps[i] == sub, "local:submaps", who + " went into the wrong submap");
      ++w->inserted[i];
      SIM_CHECK(sub->num_range_data() == w->inserted[i], "local:scan-count", "submap " + std::to_string(i) + " says it has " + std::to_string(sub->num_range_data()) + " scans, it was given " + std::to_string(w->inserted[i]));
      const bool complete = w->inserted[i] == 2 * t.window;
      SIM_CHECK(sub->insertion_finished() == complete, "local:finished", "submap " + std::to_string(i) + " with " + std::to_string(w->inserted[i]) + " of " + std::to_string(2 * t.window) + " scans is " + (complete ? "not " : "") + "finished");
      if (complete) w->finished[sub.get()] = GridOf(*sub);
      for (int g = 0; g < (flat ? 1 : 2); ++g) {
        Cells after;
        double hit, miss;
        if (flat) {
          const auto& s2 = static_cast<const Submap2D&>(*sub);
          const auto* grid = dynamic_cast<const ProbabilityGrid*>(s2.grid());
          if (grid == nullptr) continue;
          const auto& o = t.options.trajectory_builder_2d_options().submaps_options().range_data_inserter_options().probability_grid_range_data_inserter_options_2d();
          hit = o.hit_probability();
          miss = o.miss_probability();
          if (!w->base.count(sub.get())) w->base[sub.get()] = grid->limits().max();
          after = CellsOf(s2, *grid, w->base[sub.get()], range);
        } else {
          const auto& s3 = static_cast<const Submap3D&>(*sub);
          const auto& o = t.options.trajectory_builder_3d_options().submaps_options().range_data_inserter_options();
          hit = o.hit_probability();
          miss = o.miss_probability();
          after = CellsOf(s3, g == 0 ? s3.high_resolution_hybrid_grid() : s3.low_resolution_hybrid_grid(), range, g == 0 ? t.options.trajectory_builder_3d_options().submaps_options().high_resolution_max_range() : 1e9);
        }
        auto& before = w->cells[g][sub.get()];
        const std::string d = Compare(before, after, hit, miss);
        SIM_CHECK(d.empty(), "local:insertion", who + " was not inserted exactly once into submap " + std::to_string(i) + ": " + d);
        before = std::move(after.known);
        sim::count("probe.grid_checked");
      }
    }
    for (int i = 0; i < first; ++i)
      SIM_CHECK(w->submaps[i]->insertion_finished() && w->submaps[i]->num_range_data() == 2 * t.window, "local:finished", "submap " + std::to_string(i) + " left the window unfinished");
    w->node_times.push_back(time);
    ++w->nodes;
  }
  w->results.push_back(r);
}

int finished_trajectories = 0;
Outcome Execute(const Plan& plan, int workers) {
  finished_trajectories = 0;
  proto::MapBuilderOptions options = *base[plan.dim - 2];
  options.set_num_background_threads(workers);
  options.set_collate_by_trajectory(plan.by_trajectory);
  auto builder = CreateMapBuilder(options);
  std::vector<std::unique_ptr<Watch>> watches;
  for (auto& t : plan.trajectories) {
    watches.push_back(absl::make_unique<Watch>());
    Watch* w = watches.back().get();
    w->t = &t;
    const auto& f = plan.dim == 2 ? t.options.trajectory_builder_2d_options().motion_filter_options() : t.options.trajectory_builder_3d_options().motion_filter_options();
    w->filter.time = f.max_time_seconds();
    w->filter.distance = f.max_distance_meters();
    w->filter.angle = f.max_angle_radians();
    w->dim = plan.dim;
    w->id = builder->AddTrajectoryBuilder(t.robot.Ids(), t.options, [w](int id, common::Time time, Rigid3d pose, sensor::RangeData range, std::unique_ptr<const TrajectoryBuilderInterface::InsertionResult> ins) {
      Quiet z;
      OnResult(w, id, time, pose, range, ins.get());
    });
  }
  int n = 0;
  for (auto& s : plan.steps) {
    if (!s.on) continue;
    const auto& t = plan.trajectories[s.t];
    const auto& e = t.robot.events[s.event];
    Watch* w = watches[s.t].get();
    if (t.robot.sensors[e.sensor].type == robot::kRange) {
      w->newest_scan = std::max(w->newest_scan, robot::Seconds(robot::At(e.stamp)));
      ++w->scans;
    }
    t.robot.Deliver(e, builder->GetTrajectoryBuilder(w->id));
    if (++n % 16 == 0) sim::sleep_ns(1000000);
  }
  for (auto& w : watches) {
    ++finished_trajectories;
    builder->FinishTrajectory(w->id);
  }
  if (plan.final_optimization) builder->pose_graph()->RunFinalOptimization();
  Outcome out;
  {
    Quiet z;
    for (auto& w : watches) {
      const Trajectory& t = *w->t;
      const std::string who = "trajectory " + std::to_string(w->id);
      for (auto& f : w->finished) SIM_CHECK(GridOf(*f.first) == f.second, "local:changed-finished", "a finished submap of " + who + " changed");
      for (size_t i = 0; i < w->submaps.size(); ++i) SIM_CHECK(w->submaps[i]->num_range_data() == w->inserted[i], "local:scan-count", "submap " + std::to_string(i) + " of " + who + " got scans that were not reported");
      SIM_CHECK(static_cast<int>(w->results.size()) <= w->scans * (t.single_range ? 1 : 2), "local:too-many", who + ": more results than scans");
      const auto nodes = builder->pose_graph()->GetTrajectoryNodes();
      int k = 0;
      if (w->nodes > 0)
        for (const auto& node : nodes.trajectory(w->id)) {
          SIM_CHECK(k < w->nodes && node.id.node_index == k && node.data.constant_data->time == w->node_times[k], "local:graph-nodes", who + ": the pose graph's nodes differ from the reported ones");
          ++k;
        }
      SIM_CHECK(k == w->nodes, "local:graph-nodes", who + ": the pose graph has " + std::to_string(k) + " nodes, " + std::to_string(w->nodes) + " were reported");
      if (t.clean || t.blind) {
        // Everything that can be used must have been used.
        double init = -1;
        std::vector<std::pair<double, bool>> stamps;  // and whether it sees anything
        for (auto& e : t.robot.events) {
          const auto type = t.robot.sensors[e.sensor].type;
          const double s = robot::Seconds(robot::At(e.stamp));
          if (type == robot::kRange && e.empty) continue;
          if (type == robot::kRange) stamps.emplace_back(s, !e.blind);
          if ((t.uses_imu ? type == robot::kImu : type == robot::kRange) && (init < 0 || s < init)) init = s;
        }
        std::sort(stamps.begin(), stamps.end());
        std::vector<double> expected;
        int acc = 0;
        bool sees = false;
        const auto& sensor = t.robot.sensors[0];
        for (auto& stamp : stamps) {
          const double s = stamp.first;
          const double first_point = s + sensor.duration * (1 - sensor.points) / sensor.points;
          if (std::abs(first_point - init) < 1e-6) { expected.clear(); acc = -1; break; }
          if (first_point < init) continue;
          sees |= stamp.second;
          if (++acc < t.accumulate) continue;
          if (sees) expected.push_back(s);
          acc = 0;
          sees = false;
        }
        if (acc >= 0) {
          sim::count(t.blind ? "probe.blind" : "probe.clean");
          SIM_CHECK(expected.size() == w->results.size(), "local:lost", who + ": " + std::to_string(w->results.size()) + " results instead of " + std::to_string(expected.size()));
          for (size_t i = 0; i < expected.size(); ++i) SIM_CHECK(std::abs(expected[i] - w->results[i].time) < 1e-6, "local:lost", who + ": result " + std::to_string(i) + " is for " + Num(w->results[i].time) + " instead of " + Num(expected[i]));
          double worst = 0, turn = 0;
          if (!w->results.empty()) {
            const Rigid3d start = t.robot.truth.Pose(w->results[0].time);
            const Rigid3d first = w->results[0].pose;
            for (auto& r : w->results) {
              const Rigid3d err = (start.inverse() * t.robot.truth.Pose(r.time)).inverse() * (first.inverse() * r.pose);
              worst = std::max(worst, err.translation().norm());
              turn = std::max(turn, transform::GetAngle(err));
            }
          }
          // All parts of an accumulated scan are in it; filtering takes some points.
          if (t.clean && !w->results.empty())
            SIM_CHECK(w->few_points >= (plan.dim == 2 ? 0.55 : 0.38) * t.accumulate * sensor.points, "local:points-lost", who + ": a result has only " + std::to_string(w->few_points) + " points of " + std::to_string(t.accumulate) + " scans with " + std::to_string(sensor.points) + " points each");
          // With odometry, the scan matcher starts next to the solution.
          bool odometry = false;
          for (auto& o : t.robot.sensors) odometry |= o.type == robot::kOdom;
          if (t.clean && odometry && (plan.dim == 2 || t.window > 1) && !t.options.trajectory_builder_2d_options().use_online_correlative_scan_matching()) {
            sim::count("probe.tracked");
            SIM_CHECK(worst < (plan.dim == 3 ? 1.2 : t.window > 1 ? 0.4 : 0.7) && turn < (plan.dim == 3 ? 0.45 : 0.4), "local:lost-track", who + ": the estimate is off by " + Num(worst) + " m and " + Num(turn) + " rad with perfect sensors");
          }
        }
      }
      sim::count("results", w->results.size());
      sim::count("nodes", w->nodes);
      if (w->submaps.size() > 2) sim::count("probe.three_submaps");
      uint64_t h = 0;
      for (auto& r : w->results) h = Mix(Mix(h, Hash(r.pose)), r.cloud);
      sim::log_event(h);
      out.results.push_back(w->results);
    }
  }
  builder.reset();
  return out;
}

void Run() {
  auto& r = sim::workload();
  sim::set_step_budget(20000000);
  const Plan plan = MakePlan(sim::param("dim", 2));
  const bool pending = sim::param("pending", 0);
  sim::on_fatal([pending](const std::string& m) {
    if (pending && finished_trajectories > 0 && (m.find("FINISHED") != std::string::npos || m.find("has finished but") != std::string::npos || m.find("map::at") != std::string::npos))
      sim::fail("local:finish-with-data-pending", "data of a finished trajectory, which the collator held back for another trajectory's sensors, stopped the program: " + m);
    sim::fail("local:stopped", "local SLAM stopped the program: " + m);
  });
  const bool twice = r.chance(0.4);
  const int workers = r.range(1, 3);
  const double jumps = r.chance(0.5) ? 0.01 : 0.;
  sim::set_clock_jumps(jumps);
  const Outcome a = Execute(plan, workers);
  if (!twice) return;
  sim::count("probe.twice");
  sim::set_clock_jumps(jumps > 0 ? 0 : 0.05);
  const Outcome b = Execute(plan, 1 + workers % 3);
  Quiet z;
  for (size_t t = 0; t < a.results.size(); ++t) {
    SIM_CHECK(a.results[t].size() == b.results[t].size(), "local:clock-dependent", "the same sensor data gave " + std::to_string(a.results[t].size()) + " and then " + std::to_string(b.results[t].size()) + " results");
    for (size_t i = 0; i < a.results[t].size(); ++i) {
      const auto &x = a.results[t][i], &y = b.results[t][i];
      SIM_CHECK(x.time == y.time && x.node == y.node && x.cloud == y.cloud && Hash(x.pose) == Hash(y.pose), "local:clock-dependent",
                "the same sensor data gave a different result " + std::to_string(i) + " the second time");
    }
  }
}
}  // namespace
const sim::Harness sim::kHarness = {"localslam", Setup, Run, false};
