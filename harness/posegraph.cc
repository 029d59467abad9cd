// C06-C10: the global SLAM back end (pose graphs, optimization problems,
// constraint builders, trimmers, thread pool) below a simulated front end.
// FLAVOR: tsan
// INSTRUMENT: yes
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "absl/synchronization/mutex.h"
#include "cartographer/common/thread_pool.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/pose_graph_2d.h"
#include "cartographer/mapping/internal/3d/pose_graph_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_2d.h"
#include "cartographer/mapping/internal/optimization/optimization_problem_3d.h"
#include "cartographer/mapping/pose_graph.h"
#include "cartographer/mapping/pose_graph_trimmer.h"
#include "cartographer/transform/transform.h"
#include "harness/world.h"
#include "sim/sim.h"

using sim::Quiet;
using namespace cartographer;
using namespace cartographer::mapping;
using Constraint = PoseGraphInterface::Constraint;
using State = PoseGraphInterface::TrajectoryState;
using transform::Rigid3d;

namespace {
constexpr int kTraj = 4, kMaxNodes = 16, kOldNodes = 6;
proto::PoseGraphOptions* graph_options;
proto::SubmapsOptions2D* submaps2;
proto::SubmapsOptions3D* submaps3;

// What local SLAM would hand over, for every node of every trajectory.
struct Scan {
  std::shared_ptr<const TrajectoryNode::Data> data;
  sensor::RangeData range;  // local frame
  Eigen::Quaterniond gravity = Eigen::Quaterniond::Identity();
};
Scan scans2[kTraj][kMaxNodes], scans3[kTraj][kMaxNodes];
common::Time At(double s) { return common::FromUniversal(1000000000LL + static_cast<int64>(s * 1e7)); }
double NodeTime(int t, int k) { return 1. + k + 0.13 * t; }

std::string Str(const NodeId& n) { return "node " + std::to_string(n.trajectory_id) + "." + std::to_string(n.node_index); }
std::string Str(const SubmapId& n) { return "submap " + std::to_string(n.trajectory_id) + "." + std::to_string(n.submap_index); }

template <int D> struct Dim;
template <> struct Dim<2> {
  using Graph = PoseGraph2D;
  using Problem = optimization::OptimizationProblem2D;
  using Sub = Submap2D;
  using Active = ActiveSubmaps2D;
  static std::unique_ptr<Active> NewActive() { return absl::make_unique<Active>(*submaps2); }
  static const Scan& At(int t, int k) { return scans2[t][k]; }
  static std::vector<std::shared_ptr<const Sub>> Insert(Active* a, const Scan& s) { return a->InsertRangeData(s.range); }
};
template <> struct Dim<3> {
  using Graph = PoseGraph3D;
  using Problem = optimization::OptimizationProblem3D;
  using Sub = Submap3D;
  using Active = ActiveSubmaps3D;
  static std::unique_ptr<Active> NewActive() { return absl::make_unique<Active>(*submaps3); }
  static const Scan& At(int t, int k) { return scans3[t][k]; }
  static std::vector<std::shared_ptr<const Sub>> Insert(Active* a, const Scan& s) {
    return a->InsertData(s.range, s.data->local_pose.rotation() * s.data->gravity_alignment.inverse(), s.data->rotational_scan_matcher_histogram);
  }
};

// An older map, as it comes out of a state file.
struct OldMap {
  std::vector<std::pair<Rigid3d, proto::Submap>> submaps;
  std::vector<std::pair<Rigid3d, proto::Node>> nodes;
  std::vector<Constraint> constraints;
};
OldMap old2, old3;

template <int D>
OldMap MakeOld() {
  OldMap m;
  auto active = Dim<D>::NewActive();
  std::vector<std::shared_ptr<const typename Dim<D>::Sub>> subs;
  // The map was optimised, so every part has been moved a little differently.
  auto to_global = [](int i) { return world::Pose2(0.05 - 0.004 * i, -0.03 + 0.003 * i, 0.02 + 0.002 * i); };
  for (int k = 0; k < kOldNodes; ++k) {
    const Scan& s = Dim<D>::At(0, k);
    for (auto& sub : Dim<D>::Insert(active.get(), s)) {
      size_t i = 0;
      while (i < subs.size() && subs[i] != sub) ++i;
      if (i == subs.size()) subs.push_back(sub);
      m.constraints.push_back(Constraint{SubmapId{0, static_cast<int>(i)}, NodeId{0, k}, {sub->local_pose().inverse() * s.data->local_pose, 500., 1600.}, Constraint::INTRA_SUBMAP});
    }
    proto::Node n;
    n.mutable_node_id()->set_node_index(k);
    *n.mutable_node_data() = ToProto(*s.data);
    m.nodes.push_back({to_global(k) * s.data->local_pose, n});
  }
  for (size_t i = 0; i < subs.size(); ++i) {
    proto::Submap p = subs[i]->ToProto(true);
    p.mutable_submap_id()->set_submap_index(i);
    m.submaps.push_back({to_global(2 * i) * subs[i]->local_pose(), p});
  }
  return m;
}

void Setup() {
  auto dict = world::Lua(R"text(
      include "pose_graph.lua"
      g = POSE_GRAPH
      g.optimize_every_n_nodes = 3
      g.max_num_final_iterations = 8
      g.global_sampling_ratio = 0.3
      g.log_residual_histograms = false
      g.global_constraint_search_after_n_seconds = 3.
      g.optimization_problem.ceres_solver_options.max_num_iterations = 4
      g.optimization_problem.ceres_solver_options.num_threads = 1
      c = g.constraint_builder
      c.sampling_ratio = 0.6
      c.min_score = 0.4
      c.global_localization_min_score = 0.45
      c.log_matches = false
      c.fast_correlative_scan_matcher.linear_search_window = 0.3
      c.fast_correlative_scan_matcher.angular_search_window = 0.1
      c.fast_correlative_scan_matcher.branch_and_bound_depth = 3
      c.fast_correlative_scan_matcher_3d.branch_and_bound_depth = 5
      c.fast_correlative_scan_matcher_3d.full_resolution_depth = 2
      c.fast_correlative_scan_matcher_3d.min_rotational_score = 0.5
      c.fast_correlative_scan_matcher_3d.min_low_resolution_score = 0.2
      c.fast_correlative_scan_matcher_3d.linear_xy_search_window = 0.3
      c.fast_correlative_scan_matcher_3d.linear_z_search_window = 0.2
      c.fast_correlative_scan_matcher_3d.angular_search_window = 0.1
      c.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 2
      c.ceres_scan_matcher_3d.ceres_solver_options.max_num_iterations = 2
      return g)text");
  graph_options = new proto::PoseGraphOptions(CreatePoseGraphOptions(dict.get()));
  auto d2 = world::Lua(R"text(
      include "trajectory_builder_2d.lua"
      s = TRAJECTORY_BUILDER_2D.submaps
      s.num_range_data = 2
      s.grid_options_2d.resolution = 0.1
      s.range_data_inserter.probability_grid_range_data_inserter.insert_free_space = false
      s.range_data_inserter.probability_grid_range_data_inserter.hit_probability = 0.8
      return s)text");
  submaps2 = new proto::SubmapsOptions2D(CreateSubmapsOptions2D(d2.get()));
  auto d3 = world::Lua(R"text(
      include "trajectory_builder_3d.lua"
      s = TRAJECTORY_BUILDER_3D.submaps
      s.num_range_data = 2
      s.high_resolution = 0.2
      s.high_resolution_max_range = 5.
      s.range_data_inserter.num_free_space_voxels = 0
      s.range_data_inserter.hit_probability = 0.8
      return s)text");
  submaps3 = new proto::SubmapsOptions3D(CreateSubmapsOptions3D(d3.get()));
  const world::Room room;
  for (int t = 0; t < kTraj; ++t) {
    Rigid3d first;
    for (int k = 0; k < kMaxNodes; ++k) {
      double u = std::fmod(0.3 * k + 0.5 * t, 4.8);
      if (u > 2.4) u = 4.8 - u;
      const double x = 0.4 + u, y = 1.45 + 0.05 * ((k + t) % 3), yaw = 0.08 * ((k * 7 + t) % 5) - 0.16;
      const Rigid3d pose = world::Pose2(x, y, yaw);
      if (k == 0) first = pose;
      // Local SLAM starts at the origin and drifts.
      const Rigid3d local = world::Pose2(0.004 * k, -0.003 * k, 0.002 * k) * (first.inverse() * pose);
      const Eigen::Quaterniond tilt(Eigen::AngleAxisd(0.01 * ((k + t) % 3), Eigen::Vector3d::UnitX()));
      auto d = std::make_shared<TrajectoryNode::Data>();
      d->time = At(NodeTime(t, k));
      d->gravity_alignment = tilt;
      d->local_pose = local * Rigid3d::Rotation(tilt);
      d->filtered_gravity_aligned_point_cloud = room.Scan2D(x, y, yaw, 14, 0.3);
      Scan& s = scans2[t][k];
      s.range = sensor::RangeData{local.translation().cast<float>(), sensor::TransformPointCloud(room.Scan2D(x, y, yaw, 48), local.cast<float>()), {}};
      s.data = d;
      auto e = std::make_shared<TrajectoryNode::Data>();
      e->time = d->time;
      e->gravity_alignment = Eigen::Quaterniond::Identity();
      e->local_pose = local;
      e->high_resolution_point_cloud = room.Scan3D(x, y, yaw, 15, 0.3);
      e->low_resolution_point_cloud = room.Scan3D(x, y, yaw, 8, 0.7);
      e->rotational_scan_matcher_histogram = scan_matching::RotationalScanMatcher::ComputeHistogram(room.Scan3D(x, y, yaw, 90), 10);
      Scan& s3 = scans3[t][k];
      s3.range = sensor::RangeData{local.translation().cast<float>(), sensor::TransformPointCloud(room.Scan3D(x, y, yaw, 120), local.cast<float>()), {}};
      s3.data = e;
    }
  }
  old2 = MakeOld<2>();
  old3 = MakeOld<3>();
}

// ---- the workload -----------------------------------------------------------
enum Kind { kNode, kOdom, kImu, kFixed, kLandmark, kSetLandmark, kLoad, kTrimmer, kFinish, kDelete, kFinal, kPause, kQuery, kInitial, kFreeze };
struct Op {
  Kind kind;
  int t = 0;
  double time = 0;
  int a = 0;  // landmark, submaps to keep, frozen, length of the pause
  bool frozen = false;
};
struct Plan {
  std::vector<Op> ops;
  int workers = 1, readers = 0, reads = 0;
  bool overlap = false;  // overlapping submaps trimmer (2D)
  bool two_feeders = false;
  bool final_optimization = true;
  bool query_in_callback = false;
  bool check_in_callback = false;
  bool eager_readers = false;
  proto::PoseGraphOptions options;
};

struct Landmark { int id; double time; int t; };

// What must be true in the end.
struct Model {
  struct Traj {
    bool exists = false, loaded = false, frozen = false, finished = false, deleted = false;
    int keep = 0;                       // localisation trimmer
    int initial = -1;                   // the trajectory it starts relative to
    std::vector<std::vector<int>> in;   // submaps of every node
    int submaps = 0;
    std::vector<bool> complete;         // submaps that get no more data
    std::vector<common::Time> odom, imu, fixed;
  };
  Traj t[kTraj];
  std::vector<Landmark> landmarks;
  bool set_landmark[3] = {false, false, false}, frozen_landmark[3] = {false, false, false};
};

Plan MakePlan(int focus, int dim) {
  auto& r = sim::workload();
  Plan p;
  p.options = *graph_options;
  p.options.set_optimize_every_n_nodes(r.pick(std::vector<int>{0, 1, 2, 3, 5}));
  p.options.mutable_constraint_builder_options()->set_sampling_ratio(r.pick(std::vector<double>{0.3, 0.6, 1.}));
  p.options.set_global_sampling_ratio(r.pick(std::vector<double>{0.1, 0.5}));
  if (dim == 3 && r.chance(0.3)) p.options.mutable_optimization_problem_options()->set_fix_z_in_3d(true);
  if (dim == 3 && r.chance(0.2)) p.options.set_log_residual_histograms(true);
  p.workers = r.range(1, 4);
  p.readers = focus == 7 ? r.range(1, 3) : r.range(0, 1);
  p.reads = focus == 7 ? 18 : 6;
  p.overlap = dim == 2 && focus == 10 && r.chance(0.35);
  if (p.overlap) {
    auto* o = p.options.mutable_overlapping_submaps_trimmer_2d();
    o->set_fresh_submaps_count(1);
    o->set_min_covered_area(r.pick(std::vector<double>{0.3, 1.}));
    o->set_min_added_submaps_count(r.range(0, 2));
  }
  p.final_optimization = r.chance(0.95);
  p.query_in_callback = r.chance(0.3);
  p.check_in_callback = r.chance(0.6);
  p.eager_readers = r.chance(0.5);
  const int nt = focus == 8 ? r.range(1, 2) : r.range(1, 3);
  // Every trajectory's own sequence.
  std::vector<std::vector<Op>> seq;
  bool is_frozen[kTraj] = {false, false, false, false};
  for (int t = 0; t < nt; ++t) {
    seq.emplace_back();
    auto& s = seq.back();
    const double load = focus == 9 ? 0.5 : focus == 10 ? 0.3 : focus == 8 ? 0.2 : 0.15;
    bool loaded = false, frozen = false;
    if (r.chance(load)) {
      loaded = true;
      frozen = r.chance(0.7);
      Op o{kLoad, t};
      o.frozen = frozen;
      is_frozen[t] = frozen;
      s.push_back(o);
    } else {
      // (Relative to a trajectory that is still being mapped, the outcome may
      // depend on how far it has got.)
      if (t > 0 && r.chance(0.3) && (focus != 8 || is_frozen[0])) { Op o{kInitial, t, r.pick(std::vector<double>{0., 1.5, 2., 3.7, 40.})}; o.a = r.range(0, t - 1); s.push_back(o); }
      const bool trimmed = r.chance(focus == 10 && !p.overlap ? 0.7 : focus == 9 ? 0.2 : focus == 7 ? 0.35 : 0.1);
      if (trimmed) { Op o{kTrimmer, t}; o.a = r.range(2, 3); s.push_back(o); }
      const int n = focus == 10 ? r.range(4, 12) : focus == 8 ? r.range(3, 8) : r.range(1, 9);
      const bool odom = r.chance(0.4), imu = dim == 3 || r.chance(0.2), fixed = r.chance(0.25), lm = r.chance(0.35);
      for (int k = 0; k < n; ++k) {
        const double nt0 = NodeTime(t, k);
        if (imu) { Op o{kImu, t, nt0 - 0.1}; s.push_back(o); }
        if (odom && r.chance(0.8)) s.push_back(Op{kOdom, t, nt0 - 0.3});
        if (fixed && r.chance(0.5)) s.push_back(Op{kFixed, t, nt0 - 0.2});
        if (lm && r.chance(0.5)) { Op o{kLandmark, t, nt0 - r.pick(std::vector<double>{0.4, 0., 0.05})}; o.a = r.range(0, 2); s.push_back(o); }
        Op o{kNode, t, nt0};
        o.a = k;
        s.push_back(o);
        if (imu) s.push_back(Op{kImu, t, nt0 + 0.2});
        if (odom && r.chance(0.7)) s.push_back(Op{kOdom, t, nt0 + 0.1});
      }
    }
    const double fin = focus == 9 ? 0.7 : 0.3;
    bool done = loaded && frozen;
    if (!done && !loaded && s[0].kind != kTrimmer && (s.size() < 2 || s[1].kind != kTrimmer) && r.chance(focus == 9 ? 0.3 : 0.06)) { s.push_back(Op{kFreeze, t}); done = true; }
    if (!done && r.chance(fin)) { s.push_back(Op{kFinish, t}); done = true; }
    // A finished localisation trajectory is deleted by its trimmer.
    bool trimmed = false;
    for (auto& o : s) trimmed |= o.kind == kTrimmer;
    if (done && !trimmed && s.back().kind != kFreeze && r.chance(focus == 9 ? 0.6 : focus == 7 ? 0.4 : 0.2)) s.push_back(Op{kDelete, t});
  }
  // Interleave.
  std::vector<size_t> pos(nt, 0);
  p.two_feeders = focus == 6 && r.chance(0.3);
  for (;;) {
    std::vector<int> open;
    for (int t = 0; t < nt; ++t) if (pos[t] < seq[t].size()) open.push_back(t);
    if (open.empty()) break;
    const int t = r.pick(open);
    const int burst = r.range(1, 6);
    for (int i = 0; i < burst && pos[t] < seq[t].size(); ++i) p.ops.push_back(seq[t][pos[t]++]);
    if (r.chance(0.15)) { Op o{kPause, t}; o.a = r.range(1, 40); p.ops.push_back(o); }
    if (r.chance(0.1)) { Op o{kSetLandmark, t}; o.a = r.range(0, 2); o.frozen = r.chance(0.5); p.ops.push_back(o); }
    if (r.chance(0.06) && !p.two_feeders) p.ops.push_back(Op{kFinal, t});
    if (r.chance(0.15)) p.ops.push_back(Op{kQuery, t});
  }
  return p;
}

// ---- observations -----------------------------------------------------------
bool Finite(const Rigid3d& p) {
  return p.translation().allFinite() && p.rotation().coeffs().allFinite() && std::abs(p.rotation().norm() - 1.) < 1e-6;
}
bool Near(const Rigid3d& a, const Rigid3d& b, double e) {
  return (a.translation() - b.translation()).norm() < e &&
         std::min((a.rotation().coeffs() - b.rotation().coeffs()).norm(), (a.rotation().coeffs() + b.rotation().coeffs()).norm()) < e;
}

// What has been seen of a map so far by one observer, and what all agree on.
struct Shared {
  std::map<NodeId, const void*> node_data;     // immutable data per node
  std::map<SubmapId, const void*> submap_data;
  std::map<NodeId, Rigid3d> frozen_nodes;
  std::map<SubmapId, Rigid3d> frozen_submaps;
  std::set<int> loaded;
  std::set<int> froze;  // seen to have become frozen
  std::map<NodeId, Rigid3d> froze_nodes;
  std::map<SubmapId, Rigid3d> froze_submaps;
  std::set<int> relative;  // started relative to another trajectory
  int returned[kTraj] = {0, 0, 0, 0};  // nodes whose AddNode has returned
  int started[kTraj] = {0, 0, 0, 0};   // nodes whose AddNode has been called
  bool may_shrink[kTraj] = {false, false, false, false};
  bool overlap = false;
  int inserting = 0;
};
struct Observer {
  std::set<NodeId> nodes, gone_nodes;
  std::set<SubmapId> submaps, gone_submaps;
  std::map<int, State> states;
  std::map<SubmapId, int> versions;
  const char* who;
};

bool Shrinks(const Shared& s, int t) { return s.overlap || s.may_shrink[t]; }

void SeeNodes(Shared* s, Observer* o, const std::set<NodeId>& now, const int (&returned)[kTraj]) {
  for (const NodeId& id : now) {
    SIM_CHECK(id.trajectory_id >= 0 && id.trajectory_id < kTraj, "graph:unknown-node", Str(id) + " was never added");
    SIM_CHECK(s->loaded.count(id.trajectory_id) || id.node_index < s->started[id.trajectory_id], "graph:unknown-node", Str(id) + " was never added");
    SIM_CHECK(!o->gone_nodes.count(id), "graph:node-reappears", Str(id) + " was gone and is back");
  }
  for (const NodeId& id : o->nodes)
    if (!now.count(id)) {
      SIM_CHECK(Shrinks(*s, id.trajectory_id), "graph:node-vanishes", Str(id) + " is gone, but nothing was trimmed or deleted");
      o->gone_nodes.insert(id);
    }
  for (int t = 0; t < kTraj; ++t)
    for (int k = 0; k < returned[t] && !Shrinks(*s, t); ++k)
      SIM_CHECK(now.count(NodeId{t, k}), "graph:node-missing", Str(NodeId{t, k}) + " was added but is not in the map");
  o->nodes = now;
}
void SeeSubmaps(Shared* s, Observer* o, const std::set<SubmapId>& now) {
  for (const SubmapId& id : now) SIM_CHECK(!o->gone_submaps.count(id), "graph:submap-reappears", Str(id) + " was gone and is back");
  for (const SubmapId& id : o->submaps)
    if (!now.count(id)) {
      SIM_CHECK(Shrinks(*s, id.trajectory_id), "graph:submap-vanishes", Str(id) + " is gone, but nothing was trimmed or deleted");
      o->gone_submaps.insert(id);
    }
  o->submaps = now;
}
void SeePose(const Shared& s, const NodeId& id, const Rigid3d& pose) {
  SIM_CHECK(Finite(pose), "graph:pose", Str(id) + " has an improper pose " + pose.DebugString());
  auto it = s.frozen_nodes.find(id);
  SIM_CHECK(it == s.frozen_nodes.end() || Near(it->second, pose, 1e-7), "graph:frozen-moved", "frozen " + Str(id) + " moved to " + pose.DebugString());
}
void SeePose(const Shared& s, const SubmapId& id, const Rigid3d& pose) {
  SIM_CHECK(Finite(pose), "graph:pose", Str(id) + " has an improper pose " + pose.DebugString());
  auto it = s.frozen_submaps.find(id);
  SIM_CHECK(it == s.frozen_submaps.end() || Near(it->second, pose, 1e-7), "graph:frozen-moved", "frozen " + Str(id) + " moved to " + pose.DebugString());
}

void SeeConstraints(const std::vector<Constraint>& cs, const std::string& where) {
  std::set<std::pair<SubmapId, NodeId>> intra;
  for (auto& c : cs) {
    SIM_CHECK(Finite(c.pose.zbar_ij), "graph:constraint", where + ": improper constraint");
    if (c.tag != Constraint::INTRA_SUBMAP) continue;
    SIM_CHECK(intra.insert({c.submap_id, c.node_id}).second, "graph:duplicate-constraint", where + ": " + Str(c.node_id) + " is tied to " + Str(c.submap_id) + " twice");
    SIM_CHECK(c.submap_id.trajectory_id == c.node_id.trajectory_id, "graph:constraint", where + ": insertion constraint between trajectories");
  }
  for (auto& c : cs)
    SIM_CHECK(c.tag == Constraint::INTRA_SUBMAP || !intra.count({c.submap_id, c.node_id}), "graph:constraint", where + ": loop closure between " + Str(c.node_id) + " and a submap it was inserted into");
}

// Trajectories that were frozen before the query began do not move any more.
template <class Id>
void SeeFroze(std::map<Id, Rigid3d>* at, const std::set<int>& froze, const Id& id, const Rigid3d& pose) {
  if (!froze.count(id.trajectory_id)) return;
  auto it = at->emplace(id, pose).first;
  sim::count("probe.froze");
  SIM_CHECK(Near(it->second, pose, 1e-6), "graph:frozen-moved", Str(id) + " of a trajectory that had been frozen moved from " + it->second.DebugString() + " to " + pose.DebugString());
}

template <class Graph>
void Query(const Graph& g, Shared* s, Observer* o, int what, int t, bool feeder) {
  int returned[kTraj];
  std::set<int> froze;
  { Quiet z; for (int i = 0; i < kTraj; ++i) returned[i] = s->returned[i]; froze = s->froze; }
  switch (what) {
    case 0: {
      const auto nodes = g.GetTrajectoryNodes();
      Quiet z;
      std::set<NodeId> ids;
      for (const auto& n : nodes) {
        ids.insert(n.id);
        SeePose(*s, n.id, n.data.global_pose);
        SeeFroze(&s->froze_nodes, froze, n.id, n.data.global_pose);
        SIM_CHECK(n.data.constant_data != nullptr, "graph:node-data", Str(n.id) + " has no data");
        auto it = s->node_data.emplace(n.id, n.data.constant_data.get()).first;
        SIM_CHECK(it->second == n.data.constant_data.get(), "graph:node-data", "the data of " + Str(n.id) + " changed");
      }
      SeeNodes(s, o, ids, returned);
      break;
    }
    case 1: {
      const auto nodes = g.GetTrajectoryNodePoses();
      Quiet z;
      std::set<NodeId> ids;
      for (const auto& n : nodes) {
        ids.insert(n.id);
        SeePose(*s, n.id, n.data.global_pose);
        SeeFroze(&s->froze_nodes, froze, n.id, n.data.global_pose);
        SIM_CHECK(n.data.constant_pose_data.has_value(), "graph:node-data", Str(n.id) + " has no data");
      }
      SeeNodes(s, o, ids, returned);
      break;
    }
    case 2: {
      const auto subs = g.GetAllSubmapData();
      Quiet z;
      std::set<SubmapId> ids;
      for (const auto& m : subs) {
        ids.insert(m.id);
        SeePose(*s, m.id, m.data.pose);
        SeeFroze(&s->froze_submaps, froze, m.id, m.data.pose);
        SIM_CHECK(m.data.submap != nullptr, "graph:submap-data", Str(m.id) + " has no data");
        auto it = s->submap_data.emplace(m.id, m.data.submap.get()).first;
        SIM_CHECK(it->second == m.data.submap.get(), "graph:submap-data", "the data of " + Str(m.id) + " changed");
      }
      SeeSubmaps(s, o, ids);
      break;
    }
    case 3: {
      const auto subs = g.GetAllSubmapPoses();
      Quiet z;
      std::set<SubmapId> ids;
      for (const auto& m : subs) {
        ids.insert(m.id);
        SeePose(*s, m.id, m.data.pose);
        SeeFroze(&s->froze_submaps, froze, m.id, m.data.pose);
        int& v = o->versions[m.id];
        SIM_CHECK(m.data.version >= v && m.data.version <= 4, "graph:version", "version of " + Str(m.id) + " went from " + std::to_string(v) + " to " + std::to_string(m.data.version));
        v = m.data.version;
      }
      SeeSubmaps(s, o, ids);
      break;
    }
    case 4: {
      const auto c = g.constraints();
      Quiet z;
      SeeConstraints(c, o->who);
      break;
    }
    case 5: {
      const auto st = g.GetTrajectoryStates();
      Quiet z;
      for (auto& x : st) {
        if (x.second == State::FROZEN && !s->loaded.count(x.first)) s->froze.insert(x.first);
        auto it = o->states.find(x.first);
        if (it == o->states.end()) { o->states[x.first] = x.second; continue; }
        const State a = it->second, b = x.second;
        const bool ok = a == b || (a == State::ACTIVE) || (a == State::FINISHED && b == State::DELETED) || (a == State::FROZEN && b == State::DELETED);
        SIM_CHECK(ok, "graph:state", "trajectory " + std::to_string(x.first) + " went from state " + std::to_string(static_cast<int>(a)) + " to " + std::to_string(static_cast<int>(b)));
        it->second = b;
      }
      for (auto& x : o->states) SIM_CHECK(st.count(x.first), "graph:state", "trajectory " + std::to_string(x.first) + " lost its state");
      break;
    }
    case 6: {
      const auto lm = g.GetLandmarkPoses();
      const auto ln = g.GetLandmarkNodes();
      Quiet z;
      for (auto& x : lm) {
        SIM_CHECK(Finite(x.second), "graph:landmark", "landmark " + x.first + " has an improper pose");
        SIM_CHECK(ln.count(x.first), "graph:landmark", "landmark " + x.first + " is gone");
      }
      break;
    }
    case 7: {
      const Rigid3d p = g.GetLocalToGlobalTransform(t);
      Quiet z;
      SIM_CHECK(Finite(p), "graph:pose", "improper local to global transform");
      break;
    }
    case 8: {
      const auto c = g.GetConnectedTrajectories();
      Quiet z;
      std::set<int> all;
      for (auto& x : c) for (int i : x) SIM_CHECK(all.insert(i).second, "graph:components", "a trajectory is in two components");
      break;
    }
    case 9: {
      const auto d = g.GetTrajectoryData();
      Quiet z;
      for (auto& x : d) SIM_CHECK(std::isfinite(x.second.gravity_constant), "graph:trajectory-data", "improper gravity");
      break;
    }
    // (One at a time: the lock taken by the one would hide that another lacks it.)
    case 10: {
      const auto im = g.GetImuData();
      break;
    }
    case 13: {
      const auto od = g.GetOdometryData();
      break;
    }
    case 14: {
      const auto ff = g.GetFixedFramePoseData();
      break;
    }
    case 15: {
      const auto ln = g.GetLandmarkNodes();
      Quiet z;
      for (auto& x : ln)
        for (auto& o : x.second.landmark_observations) SIM_CHECK(o.trajectory_id >= 0 && o.trajectory_id < kTraj, "graph:landmark", "an observation of landmark " + x.first + " is of an unknown trajectory");
      break;
    }
    case 16: {
      const bool finished = g.IsTrajectoryFinished(t);
      Quiet z;
      auto it = o->states.find(t);
      SIM_CHECK(finished || it == o->states.end() || it->second != State::FINISHED || s->may_shrink[t], "graph:state", "trajectory " + std::to_string(t) + " is no longer finished");
      break;
    }
    case 17: {
      const bool frozen = g.IsTrajectoryFrozen(t);
      Quiet z;
      SIM_CHECK(frozen || !froze.count(t) || s->may_shrink[t], "graph:state", "trajectory " + std::to_string(t) + " is no longer frozen");
      break;
    }
    case 11: {
      const SubmapId id{t, 1};
      const auto d = g.GetSubmapData(id);
      Quiet z;
      if (d.submap) SeePose(*s, id, d.pose);
      break;
    }
    case 12: {
      const auto p = g.ToProto(t % 2 == 0);
      Quiet z;
      std::set<NodeId> nodes;
      std::set<SubmapId> subs;
      for (auto& tr : p.trajectory()) {
        const int id = tr.trajectory_id();
        for (auto& n : tr.node()) {
          SeePose(*s, NodeId{id, n.node_index()}, transform::ToRigid3(n.pose()));
          SIM_CHECK(nodes.insert(NodeId{id, n.node_index()}).second, "graph:proto", "a node is listed twice");
        }
        for (auto& n : tr.submap()) {
          SeePose(*s, SubmapId{id, n.submap_index()}, transform::ToRigid3(n.pose()));
          SIM_CHECK(subs.insert(SubmapId{id, n.submap_index()}).second, "graph:proto", "a submap is listed twice");
        }
      }
      for (auto& c : p.constraint()) {
        const NodeId n{c.node_id().trajectory_id(), c.node_id().node_index()};
        const SubmapId m{c.submap_id().trajectory_id(), c.submap_id().submap_index()};
        SIM_CHECK(nodes.count(n), "graph:proto-dangling", "a pose graph proto has a constraint for " + Str(n) + " but not the node");
        SIM_CHECK(subs.count(m), "graph:proto-dangling", "a pose graph proto has a constraint for " + Str(m) + " but not the submap");
      }
      break;
    }
  }
}

bool Near(const Rigid3d& a, const Rigid3d& b) {
  const Rigid3d d = a.inverse() * b;
  return d.translation().norm() < 1e-6 && d.rotation().vec().norm() < 1e-6;
}

// What is true when an optimization is reported: no other one can run, and
// nothing is taken into the optimised graph, until the report returns.
template <class Graph>
void CheckCallback(const Graph& g, const Shared& s, const std::map<int, SubmapId>& ls, const std::map<int, NodeId>& ln) {
  const auto cs = g.constraints();
  const auto nodes = g.GetTrajectoryNodes();
  const auto subs = g.GetAllSubmapData();
  std::map<int, Rigid3d> l2g;
  for (auto& x : ln) l2g.emplace(x.first, g.GetLocalToGlobalTransform(x.first));
  Quiet z;
  std::map<int, std::pair<int, int>> in;
  for (auto& c : cs) {
    if (c.tag != Constraint::INTRA_SUBMAP) continue;
    auto it = in.emplace(c.node_id.trajectory_id, std::make_pair(-1, -1)).first;
    it->second.first = std::max(it->second.first, c.node_id.node_index);
    it->second.second = std::max(it->second.second, c.submap_id.submap_index);
  }
  for (auto& x : in) {
    if (s.loaded.count(x.first)) continue;
    const auto n = ln.find(x.first);
    const auto m = ls.find(x.first);
    SIM_CHECK(n != ln.end() && m != ls.end(), "graph:callback-ids", "trajectory " + std::to_string(x.first) + " has constraints but is not reported as optimised");
    SIM_CHECK(n->second.node_index == x.second.first, "graph:callback-ids", Str(n->second) + " is reported as the last one optimised, but the last one with constraints is number " + std::to_string(x.second.first));
    SIM_CHECK(m->second.submap_index == x.second.second, "graph:callback-ids", Str(m->second) + " is reported as the last one optimised, but the last one with constraints is number " + std::to_string(x.second.second));
  }
  for (auto& x : ln) {
    const int t = x.first;
    if (s.loaded.count(t) || s.relative.count(t)) continue;
    for (const auto& n : nodes.trajectory(t)) {
      if (n.id.node_index <= x.second.node_index) continue;
      sim::count("probe.extrapolated_nodes");
      const Rigid3d want = l2g.at(t) * n.data.constant_data->local_pose;
      SIM_CHECK(Near(n.data.global_pose, want), "graph:extrapolation", Str(n.id) + ", not optimised yet, is at " + n.data.global_pose.DebugString() + " instead of " + want.DebugString());
    }
    const int last = ls.at(t).submap_index;
    for (const auto& m : subs.trajectory(t)) {
      if (m.id.submap_index <= last) continue;
      sim::count("probe.extrapolated_submaps");
      const Rigid3d want = l2g.at(t) * m.data.submap->local_pose();
      SIM_CHECK(Near(m.data.pose, want), "graph:extrapolation", Str(m.id) + ", not optimised yet, is at " + m.data.pose.DebugString() + " instead of " + want.DebugString());
    }
  }
}

struct Snapshot {
  std::vector<std::pair<NodeId, Rigid3d>> nodes;
  std::vector<std::pair<SubmapId, Rigid3d>> submaps;
  std::vector<Constraint> constraints;
  std::map<std::string, Rigid3d> landmarks;
  std::map<int, PoseGraphInterface::TrajectoryData> data;
  std::map<int, State> states;
  std::vector<std::vector<int>> components;
};
bool Same(const Rigid3d& a, const Rigid3d& b) { return a.translation() == b.translation() && a.rotation().coeffs() == b.rotation().coeffs(); }

template <class Graph>
Snapshot Take(const Graph& g) {
  Snapshot s;
  for (const auto& n : g.GetTrajectoryNodes()) s.nodes.push_back({n.id, n.data.global_pose});
  for (const auto& m : g.GetAllSubmapData()) s.submaps.push_back({m.id, m.data.pose});
  s.constraints = g.constraints();
  s.landmarks = g.GetLandmarkPoses();
  s.data = g.GetTrajectoryData();
  s.states = g.GetTrajectoryStates();
  s.components = g.GetConnectedTrajectories();
  for (auto& c : s.components) std::sort(c.begin(), c.end());
  std::sort(s.components.begin(), s.components.end());
  return s;
}

void Compare(const Snapshot& a, const Snapshot& b, const std::string& cls, const std::string& why) {
  SIM_CHECK(a.nodes.size() == b.nodes.size(), cls, why + ": " + std::to_string(a.nodes.size()) + " nodes, then " + std::to_string(b.nodes.size()));
  for (size_t i = 0; i < a.nodes.size(); ++i) {
    SIM_CHECK(a.nodes[i].first == b.nodes[i].first, cls, why + ": different nodes");
    SIM_CHECK(Same(a.nodes[i].second, b.nodes[i].second), cls, why + ": " + Str(a.nodes[i].first) + " is at " + a.nodes[i].second.DebugString() + " and at " + b.nodes[i].second.DebugString());
  }
  SIM_CHECK(a.submaps.size() == b.submaps.size(), cls, why + ": different numbers of submaps");
  for (size_t i = 0; i < a.submaps.size(); ++i) {
    SIM_CHECK(a.submaps[i].first == b.submaps[i].first, cls, why + ": different submaps");
    SIM_CHECK(Same(a.submaps[i].second, b.submaps[i].second), cls, why + ": " + Str(a.submaps[i].first) + " is at " + a.submaps[i].second.DebugString() + " and at " + b.submaps[i].second.DebugString());
  }
  SIM_CHECK(a.constraints.size() == b.constraints.size(), cls, why + ": " + std::to_string(a.constraints.size()) + " constraints, then " + std::to_string(b.constraints.size()));
  for (size_t i = 0; i < a.constraints.size(); ++i) {
    auto &x = a.constraints[i], &y = b.constraints[i];
    SIM_CHECK(x.submap_id == y.submap_id && x.node_id == y.node_id && x.tag == y.tag && Same(x.pose.zbar_ij, y.pose.zbar_ij), cls, why + ": different constraints");
  }
  SIM_CHECK(a.landmarks.size() == b.landmarks.size(), cls, why + ": different landmarks");
  for (auto& l : a.landmarks) SIM_CHECK(b.landmarks.count(l.first) && Same(b.landmarks.at(l.first), l.second), cls, why + ": different landmark poses");
  SIM_CHECK(a.data.size() == b.data.size(), cls, why + ": different trajectory data");
  for (auto& d : a.data) {
    auto it = b.data.find(d.first);
    SIM_CHECK(it != b.data.end() && it->second.gravity_constant == d.second.gravity_constant && it->second.imu_calibration == d.second.imu_calibration &&
              it->second.fixed_frame_origin_in_map.has_value() == d.second.fixed_frame_origin_in_map.has_value() &&
              (!d.second.fixed_frame_origin_in_map.has_value() || Same(*d.second.fixed_frame_origin_in_map, *it->second.fixed_frame_origin_in_map)), cls, why + ": different trajectory data");
  }
  SIM_CHECK(a.states == b.states, cls, why + ": different trajectory states");
  SIM_CHECK(a.components == b.components, cls, why + ": different connected components");
}

template <class T>
std::vector<common::Time> Times(const sensor::MapByTime<T>& m, int t) {
  std::vector<common::Time> v;
  if (m.HasTrajectory(t)) for (const auto& d : m.trajectory(t)) v.push_back(d.time);
  return v;
}

void CheckSensor(const std::string& what, int t, const Model::Traj& m, const std::vector<common::Time>& given, const std::vector<common::Time>& have, common::Time first, bool gone, bool trimmed) {
  const std::string at = what + " data of trajectory " + std::to_string(t) + ": ";
  if (gone) { SIM_CHECK(have.empty(), "graph:deleted-data", at + "still there after the deletion"); return; }
  if (!trimmed) {
    SIM_CHECK(have == given, "graph:sensor-data", at + "have " + std::to_string(have.size()) + " of " + std::to_string(given.size()));
    return;
  }
  std::set<common::Time> h(have.begin(), have.end());
  for (auto x : have) SIM_CHECK(std::count(given.begin(), given.end(), x), "graph:sensor-data", at + "unknown reading");
  for (auto x : given) if (x >= first) SIM_CHECK(h.count(x), "graph:sensor-data", at + "a reading of the remaining part is missing");
}

// Everything that has to hold after the last optimization.
template <int D, class Graph>
void CheckFinal(const Graph& g, const Model& model, const Plan& plan) {
  const auto nodes = g.GetTrajectoryNodes();
  const auto subs = g.GetAllSubmapData();
  const auto cs = g.constraints();
  const auto states = g.GetTrajectoryStates();
  SeeConstraints(cs, "final map");
  std::set<std::pair<SubmapId, NodeId>> intra;
  for (auto& c : cs) {
    SIM_CHECK(nodes.Contains(c.node_id), "graph:dangling", "a constraint refers to " + Str(c.node_id) + " which does not exist");
    SIM_CHECK(subs.Contains(c.submap_id), "graph:dangling", "a constraint refers to " + Str(c.submap_id) + " which does not exist");
    if (c.tag == Constraint::INTRA_SUBMAP) intra.insert({c.submap_id, c.node_id});
    else { sim::count("probe.loop_closures"); if (c.submap_id.trajectory_id != c.node_id.trajectory_id) sim::count("probe.inter_trajectory"); }
  }
  {
    // Which trajectories are tied together.
    auto comps = g.GetConnectedTrajectories();
    std::map<int, int> of;
    for (size_t i = 0; i < comps.size(); ++i) for (int t : comps[i]) of[t] = i;
    for (int t = 0; t < kTraj; ++t)
      SIM_CHECK(!model.t[t].exists || of.count(t), "graph:components", "trajectory " + std::to_string(t) + " is in no component");
    for (auto& c : cs)
      SIM_CHECK(of.at(c.node_id.trajectory_id) == of.at(c.submap_id.trajectory_id), "graph:connectivity", "there is a constraint between " + Str(c.node_id) + " and " + Str(c.submap_id) + " but their trajectories are not connected");
    std::vector<int> up(kTraj);
    for (int t = 0; t < kTraj; ++t) up[t] = t;
    std::function<int(int)> find = [&](int t) { return up[t] == t ? t : find(up[t]); };
    bool lossless = !plan.overlap;
    int frozen = -1;
    for (int t = 0; t < kTraj; ++t) {
      const auto& m = model.t[t];
      lossless = lossless && !m.keep && !m.deleted;
      if (m.initial >= 0 && !m.in.empty()) up[find(t)] = find(m.initial);
      if (!m.frozen || m.deleted) continue;
      if (frozen >= 0) {
        up[find(t)] = find(frozen);
        SIM_CHECK(of.at(t) == of.at(frozen), "graph:connectivity", "two frozen trajectories are not connected");
      }
      frozen = t;
    }
    if (lossless) {
      for (auto& c : cs) up[find(c.node_id.trajectory_id)] = find(c.submap_id.trajectory_id);
      for (auto& a : of)
        for (auto& b : of)
          SIM_CHECK((a.second == b.second) == (find(a.first) == find(b.first)), "graph:connectivity", "trajectories " + std::to_string(a.first) + " and " + std::to_string(b.first) + (a.second == b.second ? " are connected without any constraint" : " are not connected"));
    }
  }
  const auto imu = g.GetImuData();
  const auto odom = g.GetOdometryData();
  const auto fixed = g.GetFixedFramePoseData();
  const auto data = g.GetTrajectoryData();
  size_t expected_nodes = 0, expected_subs = 0;
  for (int t = 0; t < kTraj; ++t) {
    const auto& m = model.t[t];
    const std::string at = "trajectory " + std::to_string(t);
    if (!m.exists) { SIM_CHECK(!nodes.SizeOfTrajectoryOrZero(t) && !subs.SizeOfTrajectoryOrZero(t), "graph:unknown-trajectory", at + " was never added"); continue; }
    const bool gone = m.deleted || (m.keep && m.finished);
    const State want = gone ? State::DELETED : m.frozen ? State::FROZEN : m.finished ? State::FINISHED : State::ACTIVE;
    SIM_CHECK(states.count(t) && states.at(t) == want, "graph:final-state", at + " is in state " + (states.count(t) ? std::to_string(static_cast<int>(states.at(t))) : "none") + " instead of " + std::to_string(static_cast<int>(want)));
    if (plan.overlap) {
      // Which submaps are dropped depends on the map: check that it is done consistently.
      for (int i = 0; i < m.submaps; ++i) {
        const bool have = subs.Contains(SubmapId{t, i});
        if (!have) { sim::count("probe.overlap_trimmed"); SIM_CHECK(gone || m.loaded || m.complete[i], "graph:trim-active", Str(SubmapId{t, i}) + " was trimmed while still active"); }
      }
      for (size_t k = 0; k < m.in.size(); ++k) {
        bool any = false;
        for (int i : m.in[k]) any |= subs.Contains(SubmapId{t, i});
        SIM_CHECK(nodes.Contains(NodeId{t, static_cast<int>(k)}) == any, "graph:trim-nodes", Str(NodeId{t, static_cast<int>(k)}) + (any ? " is gone but a submap containing it is there" : " is there but none of its submaps"));
        for (int i : m.in[k])
          if (subs.Contains(SubmapId{t, i}) && !(m.loaded && m.frozen))
            SIM_CHECK(intra.count({SubmapId{t, i}, NodeId{t, static_cast<int>(k)}}), "graph:lost-constraint", "the insertion of " + Str(NodeId{t, static_cast<int>(k)}) + " into " + Str(SubmapId{t, i}) + " is gone");
      }
      continue;
    }
    const int first_sub = gone ? m.submaps : m.keep ? std::max(0, m.submaps - m.keep) : 0;
    if (gone) sim::count("probe.deleted");
    else if (first_sub) sim::count("probe.trimmed");
    for (int i = 0; i < m.submaps; ++i)
      SIM_CHECK(subs.Contains(SubmapId{t, i}) == (i >= first_sub), gone ? "graph:deleted-submap" : i >= first_sub ? "graph:lost-submap" : "graph:untrimmed-submap",
                Str(SubmapId{t, i}) + (i >= first_sub ? " is missing" : " is still there"));
    expected_subs += m.submaps - first_sub;
    common::Time first_time = common::Time::max();
    for (size_t k = 0; k < m.in.size(); ++k) {
      const NodeId id{t, static_cast<int>(k)};
      bool any = false;
      for (int i : m.in[k]) any |= i >= first_sub;
      SIM_CHECK(nodes.Contains(id) == any, gone ? "graph:deleted-node" : any ? "graph:lost-node" : "graph:untrimmed-node", Str(id) + (any ? " is missing" : " is still there"));
      if (!any) continue;
      ++expected_nodes;
      first_time = std::min(first_time, nodes.at(id).time());
      if (m.loaded && m.frozen) continue;
      for (int i : m.in[k])
        if (i >= first_sub)
          SIM_CHECK(intra.count({SubmapId{t, i}, id}), "graph:lost-constraint", Str(id) + " lacks its insertion constraint to " + Str(SubmapId{t, i}));
    }
    if (!m.loaded) {
      if (D == 3) CheckSensor("imu", t, m, m.imu, Times(imu, t), first_time, gone, first_sub > 0);
      CheckSensor("odometry", t, m, m.odom, Times(odom, t), first_time, gone, first_sub > 0);
      CheckSensor("fixed frame", t, m, m.fixed, Times(fixed, t), first_time, gone, first_sub > 0);
    }
    SIM_CHECK((data.count(t) != 0) == !gone, gone ? "graph:deleted-data" : "graph:trajectory-data", at + (gone ? " still has" : " has no") + " trajectory data");
  }
  if (!plan.overlap) {
    SIM_CHECK(nodes.size() == expected_nodes, "graph:nodes", "there are " + std::to_string(nodes.size()) + " nodes instead of " + std::to_string(expected_nodes));
    SIM_CHECK(subs.size() == expected_subs, "graph:submaps", "there are " + std::to_string(subs.size()) + " submaps instead of " + std::to_string(expected_subs));
  }
  // Landmarks.
  std::map<std::string, std::vector<std::pair<int, common::Time>>> want;
  std::set<std::string> solvable;
  for (auto& l : model.landmarks) {
    const auto& m = model.t[l.t];
    if (m.deleted || (m.keep && m.finished)) continue;
    want["l" + std::to_string(l.id)].push_back({l.t, At(l.time)});
  }
  const auto ln = g.GetLandmarkNodes();
  for (auto& n : ln) {
    std::vector<std::pair<int, common::Time>> have;
    for (auto& o : n.second.landmark_observations) {
      const auto& m = model.t[o.trajectory_id];
      SIM_CHECK(!(m.deleted || (m.keep && m.finished)), "graph:deleted-data", "a landmark observation of deleted trajectory " + std::to_string(o.trajectory_id) + " is still there");
      have.push_back({o.trajectory_id, o.time});
    }
    if (plan.two_feeders) { std::sort(have.begin(), have.end()); std::sort(want[n.first].begin(), want[n.first].end()); }
    SIM_CHECK(have == want[n.first], "graph:landmark-data", "landmark " + n.first + " has " + std::to_string(have.size()) + " observations instead of " + std::to_string(want[n.first].size()));
    want.erase(n.first);
  }
  for (auto& w : want) SIM_CHECK(w.second.empty(), "graph:landmark-data", "landmark " + w.first + " is missing");
}

template <int D>
Snapshot Execute(const Plan& plan, int workers, bool calm, bool enabled_only) {
  using Graph = typename Dim<D>::Graph;
  Model model;
  Shared shared;
  shared.overlap = plan.overlap;
  for (auto& op : plan.ops) {
    if (op.kind == kTrimmer || op.kind == kDelete) shared.may_shrink[op.t] = true;
    if (op.kind == kLoad) shared.loaded.insert(op.t);
  }
  const OldMap& old = D == 2 ? old2 : old3;
  Snapshot result;
  struct { std::map<int, NodeId> node; std::map<int, SubmapId> submap; int calls = 0; bool over = false; } last;
  {
    common::ThreadPool pool(workers);
    auto graph = absl::make_unique<Graph>(plan.options, absl::make_unique<typename Dim<D>::Problem>(plan.options.optimization_problem_options()), &pool);
    Graph& g = *graph;
    Observer cb_observer;
    cb_observer.who = "callback";
    g.SetGlobalSlamOptimizationCallback([&](const std::map<int, SubmapId>& ls, const std::map<int, NodeId>& ln) {
      if (plan.query_in_callback && !calm) Query(g, &shared, &cb_observer, last.calls % 18, 0, false);
      if (plan.check_in_callback) CheckCallback(g, shared, ls, ln);
      Quiet z;
      ++last.calls;
      SIM_CHECK(!last.over, "graph:late-callback", "an optimization was reported after everything had come to rest");
      for (auto& x : ln) {
        auto it = last.node.find(x.first);
        SIM_CHECK(it == last.node.end() || it->second.node_index <= x.second.node_index, "graph:callback-order", "the last optimised node went back to " + Str(x.second));
        SIM_CHECK(shared.loaded.count(x.first) || x.second.node_index < shared.started[x.first], "graph:callback-order", Str(x.second) + " was never added");
        last.node.erase(x.first);
        last.node.emplace(x.first, x.second);
      }
      for (auto& x : ls) {
        auto it = last.submap.find(x.first);
        SIM_CHECK(it == last.submap.end() || it->second.submap_index <= x.second.submap_index, "graph:callback-order", "the last optimised submap went back to " + Str(x.second));
        last.submap.erase(x.first);
        last.submap.emplace(x.first, x.second);
      }
    });
    std::unique_ptr<typename Dim<D>::Active> active[kTraj];
    std::vector<std::shared_ptr<const typename Dim<D>::Sub>> seen[kTraj];
    // Nodes and everything that only makes sense with them.
    auto apply = [&](const Op& op, Observer* o, sim::Rng* rng) {
      const int t = op.t;
      switch (op.kind) {
        case kNode: {
          const Scan& s = Dim<D>::At(t, op.a);
          if (!active[t]) active[t] = Dim<D>::NewActive();
          auto ins = Dim<D>::Insert(active[t].get(), s);
          int want;
          {
            Quiet z;
            auto& m = model.t[t];
            m.exists = true;
            want = m.in.size();
            m.in.emplace_back();
            for (auto& x : ins) {
              size_t i = 0;
              while (i < seen[t].size() && seen[t][i] != x) ++i;
              if (i == seen[t].size()) seen[t].push_back(x);
              m.in.back().push_back(i);
            }
            m.submaps = seen[t].size();
            m.complete.clear();
            for (auto& x : seen[t]) m.complete.push_back(x->insertion_finished());
            shared.node_data[NodeId{t, want}] = s.data.get();
            for (size_t i = 0; i < seen[t].size(); ++i) shared.submap_data[SubmapId{t, static_cast<int>(i)}] = seen[t][i].get();
            ++shared.started[t];
          }
          const NodeId id = g.AddNode(s.data, t, ins);
          Quiet z;
          SIM_CHECK(id == (NodeId{t, want}), "graph:node-id", "node number " + std::to_string(want) + " of trajectory " + std::to_string(t) + " became " + Str(id));
          ++shared.returned[t];
          break;
        }
        case kOdom: {
          { Quiet z; model.t[t].odom.push_back(At(op.time)); }
          g.AddOdometryData(t, sensor::OdometryData{At(op.time), world::Pose2(0.3 * op.time, 0.01 * op.time, 0)});
          break;
        }
        case kImu: {
          { Quiet z; model.t[t].imu.push_back(At(op.time)); }
          g.AddImuData(t, sensor::ImuData{At(op.time), Eigen::Vector3d(0, 0, 9.8), Eigen::Vector3d(0, 0, 0.01)});
          break;
        }
        case kFixed: {
          { Quiet z; model.t[t].fixed.push_back(At(op.time)); }
          g.AddFixedFramePoseData(t, sensor::FixedFramePoseData{At(op.time), world::Pose2(0.3 * op.time + 5., 0.01 * op.time, 0.1)});
          break;
        }
        case kLandmark: {
          { Quiet z; model.landmarks.push_back({op.a, op.time, t}); }
          g.AddLandmarkData(t, sensor::LandmarkData{At(op.time), {sensor::LandmarkObservation{"l" + std::to_string(op.a), world::Pose2(1. + 0.1 * op.a, 0.5, 0.2), 100., 100.}}});
          break;
        }
        case kSetLandmark: {
          { Quiet z; model.set_landmark[op.a] = true; }
          g.SetLandmarkPose("l" + std::to_string(op.a), world::Pose2(2. + op.a, 1., 0.3), op.frozen);
          break;
        }
        case kLoad: {
          {
            Quiet z;
            auto& m = model.t[t];
            m.exists = m.loaded = true;
            m.frozen = op.frozen;
            m.submaps = old.submaps.size();
            m.in.assign(old.nodes.size(), {});
            for (auto& c : old.constraints) m.in[c.node_id.node_index].push_back(c.submap_id.submap_index);
            if (op.frozen) {
              for (auto& n : old.nodes) shared.frozen_nodes[NodeId{t, n.second.node_id().node_index()}] = n.first;
              for (auto& n : old.submaps) shared.frozen_submaps[SubmapId{t, n.second.submap_id().submap_index()}] = n.first;
            }
          }
          if (op.frozen) g.FreezeTrajectory(t);
          for (auto& x : old.submaps) {
            proto::Submap p;
            { Quiet z; p = x.second; p.mutable_submap_id()->set_trajectory_id(t); }
            g.AddSubmapFromProto(x.first, p);
          }
          for (auto& x : old.nodes) {
            proto::Node p;
            { Quiet z; p = x.second; p.mutable_node_id()->set_trajectory_id(t); }
            g.AddNodeFromProto(x.first, p);
          }
          if (op.frozen) {
            for (auto& c : old.constraints) g.AddNodeToSubmap(NodeId{t, c.node_id.node_index}, SubmapId{t, c.submap_id.submap_index});
          } else {
            if (D == 3) for (int k = 0; k < kOldNodes; ++k) g.AddImuData(t, sensor::ImuData{At(NodeTime(0, k) - 0.1), Eigen::Vector3d(0, 0, 9.8), Eigen::Vector3d(0, 0, 0.01)});
            std::vector<Constraint> cs = old.constraints;
            for (auto& c : cs) c.node_id.trajectory_id = c.submap_id.trajectory_id = t;
            g.AddSerializedConstraints(cs);
          }
          break;
        }
        case kTrimmer: {
          { Quiet z; model.t[t].keep = op.a; }
          g.AddTrimmer(absl::make_unique<PureLocalizationTrimmer>(t, op.a));
          break;
        }
        case kFreeze: {
          { Quiet z; model.t[t].frozen = true; }
          g.FreezeTrajectory(t);
          break;
        }
        case kInitial: {
          // Only makes sense once the other one is there.
          if (!model.t[op.a].exists || model.t[op.a].in.empty() || (plan.two_feeders && op.a % 2 != t % 2)) break;
          const Rigid3d relative = world::Pose2(0.4, -0.2, 0.05);
          { Quiet z; model.t[t].initial = op.a; shared.relative.insert(t); }
          g.SetInitialTrajectoryPose(t, op.a, relative, At(op.time));
          const Rigid3d have = g.GetLocalToGlobalTransform(t);
          if (!model.t[op.a].loaded || !model.t[op.a].frozen || shared.may_shrink[op.a]) break;
          Quiet z;
          Rigid3d want = old.nodes.front().first;
          double before = 0;
          for (size_t k = 0; k < old.nodes.size(); ++k) {
            const double at = NodeTime(0, k);
            if (at <= op.time) want = old.nodes[k].first;
            else {
              if (k > 0) {
                const Rigid3d &a = old.nodes[k - 1].first, &b = old.nodes[k].first;
                const double f = (op.time - before) / (at - before);
                want = Rigid3d(a.translation() + f * (b.translation() - a.translation()), a.rotation().slerp(f, b.rotation()));
              }
              break;
            }
            before = at;
          }
          want = want * relative;
          sim::count("probe.initial_pose");
          SIM_CHECK(Near(have, want), "graph:initial-pose", "trajectory " + std::to_string(t) + " starts at " + have.DebugString() + " instead of " + want.DebugString());
          break;
        }
        case kFinish: {
          { Quiet z; model.t[t].finished = true; }
          g.FinishTrajectory(t);
          break;
        }
        case kDelete: {
          { Quiet z; model.t[t].deleted = true; }
          g.DeleteTrajectory(t);
          break;
        }
        case kFinal: g.RunFinalOptimization(); break;
        case kPause: sim::sleep_ns(op.a * 1000000LL); break;
        case kQuery: Query(g, &shared, o, rng->range(0, 17), t, true); break;
      }
    };
    // Only what still makes sense once the minimiser has switched operations off.
    std::vector<Op> ops;
    {
      Quiet z;
      bool nodes[kTraj] = {false, false, false, false};
      int count[kTraj] = {0, 0, 0, 0};
      bool finished[kTraj] = {false, false, false, false}, frozen[kTraj] = {false, false, false, false};
      int i = 0;
      for (auto& op : plan.ops) {
        if (op.kind != kImu && !sim::op_enabled(i++)) continue;
        if (op.kind == kNode) { nodes[op.t] = true; Op o = op; o.a = count[op.t]++; if (o.a != op.a) o.time = NodeTime(op.t, o.a); ops.push_back(o); continue; }
        if (op.kind == kLoad) { nodes[op.t] = true; frozen[op.t] = op.frozen; }
        if (op.kind == kFinish) { if (!nodes[op.t]) continue; finished[op.t] = true; }
        if (op.kind == kFreeze) { if (!nodes[op.t]) continue; frozen[op.t] = true; }
        if (op.kind == kDelete && !finished[op.t] && !frozen[op.t]) continue;
        ops.push_back(op);
      }
    }
    std::vector<int> th;
    if (!calm)
      for (int i = 0; i < plan.readers; ++i)
        th.push_back(sim::spawn([&, i] {
          sim::Rng rng(sim::seed() * 31 + i);
          Observer o;
          o.who = "reader";
          for (int k = 0; k < plan.reads; ++k) {
            // Right after an optimization much of the map changes.
            if (plan.eager_readers && rng.chance(0.5)) {
              auto calls = [&last] { Quiet z; return last.calls; };
              const int before = calls();
              for (int j = 0; j < 30 && calls() == before; ++j) sim::sleep_ns(rng.range(100000, 500000));
            }
            const int what = rng.range(0, 21);
            Query(g, &shared, &o, what < 18 ? what : what < 20 ? 12 : what < 21 ? 13 : 4, rng.range(0, kTraj - 1), false);
            sim::sleep_ns(rng.range(0, 3000000));
          }
          Quiet z;
          sim::count("reads", plan.reads);
        }));
    auto feed = [&](int part) {
      sim::Rng rng(sim::seed() * 77 + part);
      Observer o;
      o.who = "feeder";
      for (auto& op : ops) {
        if (part >= 0 && op.t % 2 != part) continue;
        apply(op, &o, &rng);
        if (calm) sim::sleep_ns(200000000LL);
      }
    };
    if (plan.two_feeders && !calm) {
      const int a = sim::spawn([&] { feed(0); }), b = sim::spawn([&] { feed(1); });
      sim::join(a);
      sim::join(b);
    } else {
      feed(-1);
    }
    if (plan.final_optimization) {
      g.RunFinalOptimization();
      {
        Quiet z;
        last.over = true;
        result = Take(g);
        for (int t = 0; t < kTraj; ++t) {
          const auto& m = model.t[t];
          if (m.exists && !m.in.empty() && !m.deleted && !(m.keep && m.finished) && !plan.overlap)
            SIM_CHECK(last.node.count(t) && last.node.at(t).node_index == static_cast<int>(m.in.size()) - 1, "graph:not-optimised", "trajectory " + std::to_string(t) + " was not optimised up to its last node");
        }
        CheckFinal<D>(g, model, plan);
        for (auto& n : result.nodes) SeePose(shared, n.first, n.second);
        for (auto& n : result.submaps) SeePose(shared, n.first, n.second);
        sim::log_event(result.constraints.size());
        sim::count("nodes", result.nodes.size());
        sim::count("optimizations", last.calls);
      }
      sim::sleep_ns(50000000);
      {
        Quiet z;
        Compare(result, Take(g), "graph:restless", "the map changed after the final optimization had returned");
      }
    }
    for (int t : th) sim::join(t);
    graph.reset();
    Quiet z;
    last.over = true;
  }
  return result;
}

template <int D>
void RunDim() {
  const int focus = sim::param("focus", 6);
  const Plan plan = MakePlan(focus, D);
  sim::set_step_budget(30000000);
  if (sim::workload().chance(0.3)) sim::set_clock_jumps(0.001);
  if (focus == 8 && plan.final_optimization) {
    const Snapshot a = Execute<D>(plan, 1, true, true);
    const Snapshot b = Execute<D>(plan, plan.workers, false, true);
    Quiet z;
    Compare(a, b, "graph:schedule-dependent", "the same inputs gave two different maps");
    return;
  }
  Execute<D>(plan, plan.workers, false, true);
}
void Run() {
  if (sim::param("dim", 2) == 2) RunDim<2>();
  else RunDim<3>();
}
}  // namespace
const sim::Harness sim::kHarness = {"posegraph", Setup, Run, true};
