// C21: mapping through the service. Robots with real sensors data streams, a
// MapBuilderServer with a real map builder, above it (uplink=1) another one,
// over the simulated network. The reference is the same map builder driven
// directly.
// FLAVOR: tsan
// INSTRUMENT: yes
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "cartographer/cloud/client/map_builder_stub.h"
#include "cartographer/cloud/internal/map_builder_server.h"
#include "cartographer/mapping/map_builder.h"
#include "harness/mapstate.h"
#include "harness/sensors.h"
#include "harness/simnet.h"
#include "harness/world.h"
#include "sim/sim.h"

using sim::Quiet;
using namespace cartographer;
using namespace cartographer::mapping;
using mapstate::State;
using transform::Rigid3d;

namespace {
constexpr int64_t kMs = 1000000, kSec = 1000 * kMs;
proto::MapBuilderOptions* base[2];
proto::TrajectoryBuilderOptions* base_trajectory;

void Setup() {
  for (int d : {2, 3}) {
    auto dict = world::Lua(std::string(R"text(
      include "map_builder.lua"
      MAP_BUILDER.use_trajectory_builder_)text") + (d == 2 ? "2" : "3") + R"text(d = true
      MAP_BUILDER.num_background_threads = 1
      g = MAP_BUILDER.pose_graph
      g.optimize_every_n_nodes = 4
      g.max_num_final_iterations = 6
      g.global_sampling_ratio = 0.
      g.log_residual_histograms = false
      g.global_constraint_search_after_n_seconds = 1000.
      g.optimization_problem.ceres_solver_options.max_num_iterations = 4
      g.optimization_problem.ceres_solver_options.num_threads = 1
      c = g.constraint_builder
      c.sampling_ratio = 0.1
      c.min_score = 0.4
      c.global_localization_min_score = 0.45
      c.log_matches = false
      c.fast_correlative_scan_matcher.linear_search_window = 0.3
      c.fast_correlative_scan_matcher.angular_search_window = 0.1
      c.fast_correlative_scan_matcher.branch_and_bound_depth = 3
      c.fast_correlative_scan_matcher_3d.branch_and_bound_depth = 5
      c.fast_correlative_scan_matcher_3d.full_resolution_depth = 2
      c.fast_correlative_scan_matcher_3d.min_rotational_score = 0.5
      c.fast_correlative_scan_matcher_3d.min_low_resolution_score = 0.2
      c.fast_correlative_scan_matcher_3d.linear_xy_search_window = 0.3
      c.fast_correlative_scan_matcher_3d.linear_z_search_window = 0.2
      c.fast_correlative_scan_matcher_3d.angular_search_window = 0.1
      c.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 2
      c.ceres_scan_matcher_3d.ceres_solver_options.max_num_iterations = 2
      return MAP_BUILDER)text");
    base[d - 2] = new proto::MapBuilderOptions(CreateMapBuilderOptions(dict.get()));
  }
  auto dict = world::Lua(R"text(
      include "trajectory_builder.lua"
      t = TRAJECTORY_BUILDER.trajectory_builder_2d
      t.min_range = 0.1
      t.max_range = 20.
      t.adaptive_voxel_filter.min_num_points = 40
      t.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 5
      t.motion_filter.max_time_seconds = 0.
      t.submaps.grid_options_2d.resolution = 0.1
      u = TRAJECTORY_BUILDER.trajectory_builder_3d
      u.min_range = 0.1
      u.max_range = 20.
      u.rotational_histogram_size = 12
      u.high_resolution_adaptive_voxel_filter.min_num_points = 60
      u.low_resolution_adaptive_voxel_filter.min_num_points = 40
      u.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 4
      u.submaps.high_resolution_max_range = 10.
      u.submaps.high_resolution = 0.15
      u.submaps.low_resolution = 0.5
      u.motion_filter.max_time_seconds = 0.
      return TRAJECTORY_BUILDER)text");
  base_trajectory = new proto::TrajectoryBuilderOptions(CreateTrajectoryBuilderOptions(dict.get()));
}


struct Plan {
  robot::Robot robot;
  proto::TrajectoryBuilderOptions options;
  std::string name;
  int gap = 0;                 // ms between messages, at most
  int64_t start = 0;
  bool early = false;          // finishes without waiting for anything
  bool forget = false;         // never finishes
  bool remove = false;         // deletes its trajectory afterwards
  uint64_t seed = 0;
  int id = -1;
};

Plan MakePlan(int k, int dim) {
  auto& r = sim::workload();
  Plan p;
  p.name = "robot" + std::to_string(k);
  p.options = *base_trajectory;
  p.robot.dim = dim;
  p.robot.truth.phase = r.uniform(0, 6.28);
  p.robot.truth.speed = r.uniform(0.6, 1.4);
  const double t0 = 1. + r.unit(), t1 = t0 + r.uniform(0.6, 4.);
  const int window = r.range(1, 3);
  const bool imu = dim == 3 || r.chance(0.4);
  auto* o2 = p.options.mutable_trajectory_builder_2d_options();
  auto* o3 = p.options.mutable_trajectory_builder_3d_options();
  o2->set_use_imu_data(imu);
  o2->mutable_submaps_options()->set_num_range_data(window);
  o3->mutable_submaps_options()->set_num_range_data(window);
  if (r.chance(0.2)) { o2->set_num_accumulated_range_data(2); o3->set_num_accumulated_range_data(2); }
  p.options.set_collate_landmarks(r.chance(0.5));
  p.options.set_collate_fixed_frame(r.chance(0.5));
  robot::Sensor range{robot::kRange, "range"};
  range.rate = 5; range.offset = 0.05; range.duration = 0.1; range.points = dim == 2 ? 36 : 48;
  p.robot.sensors.push_back(range);
  if (imu) { robot::Sensor s{robot::kImu, "imu"}; s.rate = 10; p.robot.sensors.push_back(s); }
  if (r.chance(0.5)) { robot::Sensor s{robot::kOdom, "odom"}; s.rate = 5; p.robot.sensors.push_back(s); }
  if (r.chance(0.3)) { robot::Sensor s{robot::kFixed, "gps"}; s.rate = 2; p.robot.sensors.push_back(s); }
  if (r.chance(0.4)) { robot::Sensor s{robot::kLandmark, "beacon"}; s.rate = 3; p.robot.sensors.push_back(s); }
  for (auto& s : p.robot.sensors) s.latency = r.chance(0.5) ? 0.3 : 0.;
  p.robot.Generate(r, t0, t1);
  p.gap = r.chance(0.4) ? 0 : r.range(1, 200);
  p.start = k == 0 ? 0 : static_cast<int64_t>(r.below(2000)) * kMs;
  p.early = r.chance(0.3);
  p.forget = r.chance(0.1);
  p.remove = r.chance(0.15);
  p.seed = r.next();
  return p;
}

proto::MapBuilderOptions BuilderOptions(int dim, int workers, bool global) {
  proto::MapBuilderOptions options = *base[dim - 2];
  options.set_num_background_threads(workers);
  options.set_collate_by_trajectory(true);
  if (!global) options.mutable_pose_graph_options()->set_optimize_every_n_nodes(0);
  return options;
}
cloud::proto::MapBuilderServerOptions ServerOptions(const char* address, const char* uplink, int threads, int batch, const proto::MapBuilderOptions& m) {
  cloud::proto::MapBuilderServerOptions options;
  options.set_server_address(address);
  options.set_uplink_server_address(uplink);
  options.set_num_event_threads(threads);
  options.set_num_grpc_threads(1);
  options.set_upload_batch_size(batch);
  *options.mutable_map_builder_options() = m;
  return options;
}

// What a trajectory consists of, apart from what global SLAM makes of it.
struct Node { int64_t time; std::string data; std::vector<Rigid3d> constraints; };
struct Made {
  std::vector<Node> nodes;                    // In order of their numbers.
  std::vector<std::string> submaps;           // Finished ones, with their grids.
  std::vector<std::string> imu, odom, fixed, landmarks;
  std::string Summary() const {
    std::string s = std::to_string(nodes.size()) + " nodes, " + std::to_string(submaps.size()) + " finished submaps, " + std::to_string(imu.size()) + " IMU, " +
                    std::to_string(odom.size()) + " odometry, " + std::to_string(fixed.size()) + " fixed frame, " + std::to_string(landmarks.size()) + " landmark data";
    return s;
  }
};

std::map<int, Made> Look(MapBuilderInterface* b) {
  auto* g = dynamic_cast<mapping::PoseGraph*>(b->pose_graph());
  const auto nodes = g->GetTrajectoryNodes();
  const auto submaps = g->GetAllSubmapData();
  const auto constraints = g->constraints();
  const auto imu = g->GetImuData();
  const auto odom = g->GetOdometryData();
  const auto fixed = g->GetFixedFramePoseData();
  const auto landmarks = g->GetLandmarkNodes();
  std::map<int, Made> out;
  std::map<NodeId, std::vector<std::pair<int, Rigid3d>>> intra;
  for (const auto& c : constraints)
    if (c.tag == PoseGraphInterface::Constraint::INTRA_SUBMAP) intra[c.node_id].push_back({c.submap_id.submap_index, c.pose.zbar_ij});
  for (const auto& n : nodes) {
    Node x;
    x.time = common::ToUniversal(n.data.constant_data->time);
    x.data = mapstate::Bytes(ToProto(*n.data.constant_data));
    auto& c = intra[n.id];
    std::sort(c.begin(), c.end(), [](const std::pair<int, Rigid3d>& a, const std::pair<int, Rigid3d>& b) { return a.first < b.first; });
    for (auto& e : c) x.constraints.push_back(e.second);
    out[n.id.trajectory_id].nodes.push_back(x);
  }
  for (const auto& s : submaps) {
    if (!s.data.submap->insertion_finished()) continue;
    auto p = s.data.submap->ToProto(true);
    p.clear_submap_id();
    out[s.id.trajectory_id].submaps.push_back(mapstate::Bytes(p));
  }
  for (int t : imu.trajectory_ids()) for (const auto& d : imu.trajectory(t)) out[t].imu.push_back(mapstate::Bytes(sensor::ToProto(d)));
  for (int t : odom.trajectory_ids()) for (const auto& d : odom.trajectory(t)) out[t].odom.push_back(mapstate::Bytes(sensor::ToProto(d)));
  for (int t : fixed.trajectory_ids()) for (const auto& d : fixed.trajectory(t)) out[t].fixed.push_back(mapstate::Bytes(sensor::ToProto(d)));
  for (const auto& l : landmarks)
    for (const auto& o : l.second.landmark_observations)
      out[o.trajectory_id].landmarks.push_back(l.first + "@" + std::to_string(common::ToUniversal(o.time)));
  for (auto& e : out) std::sort(e.second.landmarks.begin(), e.second.landmarks.end());
  return out;
}

// Only how much there is.
std::string Count(MapBuilderInterface* b, int id) {
  auto* g = dynamic_cast<mapping::PoseGraph*>(b->pose_graph());
  const auto nodes = g->GetTrajectoryNodes();
  const auto submaps = g->GetAllSubmapData();
  const auto imu = g->GetImuData();
  const auto odom = g->GetOdometryData();
  const auto fixed = g->GetFixedFramePoseData();
  const auto landmarks = g->GetLandmarkNodes();
  Quiet z;
  Made m;
  m.nodes.resize(nodes.SizeOfTrajectoryOrZero(id));
  size_t n = 0;
  for (const auto& s : submaps.trajectory(id)) n += s.data.submap->insertion_finished();
  m.submaps.resize(n);
  const auto count = [id](const auto& data) { size_t n = 0; if (data.HasTrajectory(id)) for (const auto& d : data.trajectory(id)) { (void)d; ++n; } return n; };
  m.imu.resize(count(imu));
  m.odom.resize(count(odom));
  m.fixed.resize(count(fixed));
  n = 0;
  for (const auto& l : landmarks) for (const auto& o : l.second.landmark_observations) n += o.trajectory_id == id;
  m.landmarks.resize(n);
  return m.Summary();
}

bool Near(const Rigid3d& a, const Rigid3d& b) {
  return (a.translation() - b.translation()).norm() < 1e-6 && a.rotation().angularDistance(b.rotation()) < 1e-6;
}

// What driving the map builder directly gives, before and after finishing.
std::pair<Made, Made> Reference(const Plan& p) {
  auto b = CreateMapBuilder(BuilderOptions(p.robot.dim, 1, false));
  const int id = b->AddTrajectoryBuilder(p.robot.Ids(), p.options, nullptr);
  for (const auto& e : p.robot.events) p.robot.Deliver(e, b->GetTrajectoryBuilder(id));
  b->pose_graph()->RunFinalOptimization();
  std::pair<Made, Made> out;
  out.first = Look(b.get())[id];
  b->FinishTrajectory(id);
  b->pose_graph()->RunFinalOptimization();
  out.second = Look(b.get())[id];
  return out;
}

void ExpectEqual(const Made& want, const Made& got, const std::string& what) {
  SIM_CHECK(want.nodes.size() == got.nodes.size(), "cloudmap:differs", what + ": there are " + got.Summary() + " instead of " + want.Summary());
  for (size_t i = 0; i < want.nodes.size(); ++i) {
    SIM_CHECK(want.nodes[i].data == got.nodes[i].data, "cloudmap:differs", what + ": node " + std::to_string(i) + " differs");
    SIM_CHECK(want.nodes[i].constraints.size() == got.nodes[i].constraints.size(), "cloudmap:differs", what + ": node " + std::to_string(i) + " is tied to " + std::to_string(got.nodes[i].constraints.size()) + " submaps instead of " + std::to_string(want.nodes[i].constraints.size()));
    for (size_t k = 0; k < want.nodes[i].constraints.size(); ++k)
      SIM_CHECK(Near(want.nodes[i].constraints[k], got.nodes[i].constraints[k]), "cloudmap:differs", what + ": node " + std::to_string(i) + " is tied differently to its submap");
  }
  SIM_CHECK(want.submaps == got.submaps, "cloudmap:differs", what + ": the finished submaps differ");
  SIM_CHECK(want.imu == got.imu && want.odom == got.odom && want.fixed == got.fixed && want.landmarks == got.landmarks, "cloudmap:differs",
            what + ": sensor data differs: " + got.Summary() + " instead of " + want.Summary());
}

struct Seen { int64_t time; Rigid3d pose; bool inserted; int node; };
struct Up { int local; Made made; };
std::vector<Up>* ups = nullptr;   // Everything the uplink ever held.
int generation = 0;

int LocalOf(const proto::TrajectoryBuilderOptionsWithSensorIds& o) {
  for (const auto& s : o.sensor_id())
    if (s.type() == proto::SensorId::LOCAL_SLAM_RESULT) return std::stoi(s.id().substr(s.id().rfind('_') + 1));
  return -1;
}

void LookAtUplink(MapBuilderInterface* b) {
  auto all = Look(b);
  const auto& options = b->GetAllTrajectoryBuilderOptions();
  for (auto& e : all) {
    const int local = LocalOf(options.at(e.first));
    Quiet z;
    ups->push_back({local, std::move(e.second)});
  }
}

// 'sub' is what remains of 'all' after leaving some out; order is kept.
template <typename T> bool Subsequence(const std::vector<T>& sub, const std::vector<T>& all) {
  size_t k = 0;
  for (auto& x : all) if (k < sub.size() && sub[k] == x) ++k;
  return k == sub.size();
}

void CheckUp(const Up& u, const Made& robot, const std::string& what) {
  SIM_CHECK(!u.made.nodes.empty() || u.made.submaps.empty(), "cloudmap:uplink-differs", what + ": submaps without nodes");
  if (!u.made.nodes.empty()) {
    size_t first = 0;
    while (first < robot.nodes.size() && robot.nodes[first].time != u.made.nodes[0].time) ++first;
    SIM_CHECK(first < robot.nodes.size(), "cloudmap:uplink-foreign", what + " starts with a node that the robot never made");
    for (size_t i = 0; i < u.made.nodes.size(); ++i) {
      SIM_CHECK(first + i < robot.nodes.size(), "cloudmap:uplink-foreign", what + " has more nodes than the robot made");
      const Node& a = robot.nodes[first + i];
      const Node& b = u.made.nodes[i];
      SIM_CHECK(a.time == b.time, "cloudmap:uplink-gap", what + ": node " + std::to_string(i) + " is not the next one the robot made");
      SIM_CHECK(a.data == b.data, "cloudmap:uplink-differs", what + ": node " + std::to_string(i) + " is not as the robot made it");
      SIM_CHECK(!b.constraints.empty(), "cloudmap:uplink-differs", what + ": node " + std::to_string(i) + " belongs to no submap");
      // The submap that was under way when the trajectory began up there is left out.
      SIM_CHECK(b.constraints.size() <= a.constraints.size(), "cloudmap:uplink-differs", what + ": node " + std::to_string(i) + " belongs to too many submaps");
      for (size_t k = 0; k < b.constraints.size(); ++k)
        SIM_CHECK(Near(a.constraints[a.constraints.size() - 1 - k], b.constraints[b.constraints.size() - 1 - k]), "cloudmap:uplink-differs", what + ": node " + std::to_string(i) + " is tied differently to its submap");
    }
    sim::count("probe.uplink-nodes", u.made.nodes.size());
  }
  if (!u.made.submaps.empty()) {
    size_t first = 0;
    while (first < robot.submaps.size() && robot.submaps[first] != u.made.submaps[0]) ++first;
    SIM_CHECK(first < robot.submaps.size(), "cloudmap:uplink-differs", what + ": a finished submap is none of the robot's finished submaps");
    for (size_t i = 0; i < u.made.submaps.size(); ++i)
      SIM_CHECK(first + i < robot.submaps.size() && robot.submaps[first + i] == u.made.submaps[i], "cloudmap:uplink-differs", what + ": finished submap " + std::to_string(i) + " is not the robot's next one");
    sim::count("probe.uplink-submaps", u.made.submaps.size());
  }
}

// Somebody looks at the maps meanwhile.
struct Glance { std::string address; int64_t pause; int kind; };
void View(const Glance& l, int dim) {
  cloud::MapBuilderStub stub(l.address, "viewer");
  const auto poses = stub.pose_graph()->GetAllSubmapPoses();
  if (l.kind == 0) {
    for (const auto& s : poses) {
      proto::SubmapQuery::Response response;
      const std::string error = stub.SubmapToProto(s.id, &response);
      if (!error.empty()) { sim::count("probe.view-gone"); continue; }   // Deleted since.
      sim::count(response.textures_size() == 0 ? "probe.view-without-grid" : "probe.view-grid");
      SIM_CHECK(response.textures_size() <= (dim == 2 ? 1 : 2), "cloudmap:view", "a submap has " + std::to_string(response.textures_size()) + " textures");
    }
    return;
  }
  if (l.kind == 1) {
    const auto nodes = stub.pose_graph()->GetTrajectoryNodePoses();
    const auto constraints = stub.pose_graph()->constraints();
    Quiet z;
    std::map<int, int64_t> last;
    for (const auto& n : nodes) {
      SIM_CHECK(n.data.constant_pose_data.has_value(), "cloudmap:view", "a node without its data");
      const int64_t t = common::ToUniversal(n.data.constant_pose_data->time);
      SIM_CHECK(!last.count(n.id.trajectory_id) || last[n.id.trajectory_id] < t, "cloudmap:view", "nodes are not in order of time");
      last[n.id.trajectory_id] = t;
    }
    for (const auto& c : constraints) SIM_CHECK(c.pose.translation_weight > 0, "cloudmap:view", "a constraint without weight");
    return;
  }
  const std::string path = "/simdisk/" + l.address + ".pbstream";
  SIM_CHECK(stub.SerializeStateToFile(false, path), "cloudmap:view", "saving failed although the disk worked");
  sim::count("probe.view-saved");
}

void Run() {
  auto& r = sim::workload();
  simnet::Clear();
  { Quiet z; ups = new std::vector<Up>; }
  sim::set_step_budget(400000000);
  sim::on_fatal([](const std::string& m) { sim::fail("cloudmap:stopped", "a server stopped: " + m); });
  const bool with_uplink = sim::param("uplink", 0);
  const int dim = r.chance(0.6) ? 2 : 3, robots = r.range(1, 2), threads = r.range(1, 3), workers = r.range(1, 2);
  const int batch = r.pick(std::vector<int>{1, 1, 2, 3, 7});
  const bool calm = r.chance(0.3);
  const double delay = calm ? 0 : r.chance(0.5) ? r.uniform(0, 0.3) : 0, brk = calm ? 0 : r.chance(0.5) ? r.uniform(0, 0.1) : 0;
  struct Cut { int64_t wait, down; bool restart; };
  std::vector<Cut> cuts;
  const int ncuts = calm ? 0 : r.range(0, 3);
  for (int i = 0; i < ncuts; ++i) cuts.push_back({static_cast<int64_t>(r.below(3000)) * kMs, static_cast<int64_t>(r.below(r.chance(0.25) ? 60000 : 3000)) * kMs, r.chance(0.5)});
  const bool abrupt = r.chance(0.2);
  std::vector<Glance> glances;
  const int nglances = r.chance(0.5) ? r.range(1, 6) : 0;
  for (int i = 0; i < nglances; ++i) glances.push_back({with_uplink && calm && r.chance(0.7) ? "uplink" : "server", static_cast<int64_t>(r.below(4000)) * kMs, r.range(0, 2)});
  std::vector<Plan> plans;
  for (int k = 0; k < robots; ++k) plans.push_back(MakePlan(k, dim));
  std::vector<std::pair<Made, Made>> refs;
  for (auto& p : plans) refs.push_back(Reference(p));
  if (with_uplink) {
    simnet::config().fragile = "uplink";
    simnet::config().calm = calm;
    simnet::config().max_delay_ns = r.chance(0.3) ? 5 * kSec : static_cast<int64_t>(r.below(500)) * kMs;
    simnet::config().max_down_ns = (r.chance(0.2) ? 60 : r.chance(0.5) ? 5 : 1) * kSec;
  }
  std::unique_ptr<cloud::MapBuilderServer> uplink, server;
  MapBuilderInterface* up_builder = nullptr;
  const auto start_uplink = [&]() {
    auto b = CreateMapBuilder(BuilderOptions(dim, workers, true));
    up_builder = b.get();
    uplink.reset(new cloud::MapBuilderServer(ServerOptions("uplink", "", threads, 1, BuilderOptions(dim, workers, true)), std::move(b)));
    uplink->Start();
  };
  // A map builder may only go when its trajectories are finished.
  const auto finish_all = [](MapBuilderInterface* b) {
    b->pose_graph()->RunFinalOptimization();   // Processes what is queued.
    const auto states = b->pose_graph()->GetTrajectoryStates();
    for (int t = 0; t < b->num_trajectory_builders(); ++t)
      if (!states.count(t) || states.at(t) == PoseGraphInterface::TrajectoryState::ACTIVE) b->FinishTrajectory(t);
    b->pose_graph()->RunFinalOptimization();
  };
  const auto stop_uplink = [&]() {
    uplink->Shutdown();
    finish_all(up_builder);
    LookAtUplink(up_builder);
    uplink.reset();
  };
  if (with_uplink) start_uplink();
  auto builder = CreateMapBuilder(BuilderOptions(dim, workers, true));
  MapBuilderInterface* const local = builder.get();
  server.reset(new cloud::MapBuilderServer(ServerOptions("server", with_uplink ? "uplink" : "", threads, batch, BuilderOptions(dim, workers, true)), std::move(builder)));
  server->Start();
  bool may_finish = !with_uplink;
  int registered = 0, driven = 0;
  std::vector<std::vector<Seen>> seen(robots);
  std::vector<int> handles;
  std::vector<std::unique_ptr<cloud::MapBuilderStub>> kept(robots);
  for (int k = 0; k < robots; ++k) {
    handles.push_back(sim::spawn([&, k]() {
      Plan& p = plans[k];
      sim::Rng rr(p.seed);
      if (p.start) sim::sleep_ns(p.start);
      std::unique_ptr<cloud::MapBuilderStub> owned(new cloud::MapBuilderStub("server", p.name));
      cloud::MapBuilderStub& stub = *owned;
      const int channel = simnet::my_channel();
      const int id = stub.AddTrajectoryBuilder(p.robot.Ids(), p.options, [&seen, k](int, common::Time time, Rigid3d pose, sensor::RangeData, std::unique_ptr<const TrajectoryBuilderInterface::InsertionResult> i) {
        Quiet z;
        seen[k].push_back({common::ToUniversal(time), pose, i != nullptr, i ? i->node_id.node_index : -1});
      });
      { Quiet z; p.id = id; ++registered; }
      while (simnet::handled(channel, "ReceiveLocalSlamResults") == 0) sim::sleep_ns(20 * kMs);
      auto* to = stub.GetTrajectoryBuilder(id);
      for (const auto& e : p.robot.events) {
        p.robot.Deliver(e, to);
        if (p.gap) sim::sleep_ns(rr.below(p.gap * kMs) + 1);
      }
      { Quiet z; ++driven; }
      if (!p.early) {
        // The data arrives and is used.
        static const char* const kMethods[] = {"AddRangefinderData", "AddImuData", "AddOdometryData", "AddFixedFramePoseData", "AddLandmarkData"};
        std::map<int, int> sent;
        for (const auto& e : p.robot.events) ++sent[p.robot.sensors[e.sensor].type];
        for (auto& e : sent)
          for (int i = 0; simnet::handled(channel, kMethods[e.first]) < e.second; ++i) {
            SIM_CHECK(i < 3000, "cloudmap:incomplete", p.name + ": the data does not arrive");
            sim::sleep_ns(100 * kMs);
          }
        for (int i = 0; i < 150; ++i) sim::sleep_ns(100 * kMs);
        for (int i = 0;; ++i) {
          const std::string m = Count(local, id);
          if (m == refs[k].first.Summary()) break;
          SIM_CHECK(i < 3000, "cloudmap:incomplete", p.name + ": there are " + m + " instead of " + refs[k].first.Summary());
          sim::sleep_ns(100 * kMs);
        }
      } else {
        sim::count("probe.early-finish");
      }
      for (;;) {
        { Quiet z; if (may_finish || p.early) break; }
        sim::sleep_ns(100 * kMs);
      }
      // A stub waits for the end of its trajectory.
      if (p.forget) { kept[k] = std::move(owned); return; }
      stub.FinishTrajectory(id);
      if (!p.early) {
        for (int i = 0;; ++i) {
          const std::string m = Count(local, id);
          if (m == refs[k].second.Summary()) break;
          SIM_CHECK(i < 3000, "cloudmap:incomplete", p.name + ", finished: there are " + m + " instead of " + refs[k].second.Summary());
          sim::sleep_ns(100 * kMs);
        }
        for (int i = 0; !stub.pose_graph()->IsTrajectoryFinished(id); ++i) {
          SIM_CHECK(i < 3000, "cloudmap:not-finished", p.name + " finished its trajectory, but it does not end");
          sim::sleep_ns(100 * kMs);
        }
        const auto poses = stub.pose_graph()->GetTrajectoryNodePoses();
        Quiet z;
        if (poses.trajectory(id).begin() == poses.trajectory(id).end()) SIM_CHECK(refs[k].second.nodes.empty(), "cloudmap:differs", "the service lists no nodes");
        size_t n = 0;
        for (const auto& e : poses.trajectory(id)) {
          SIM_CHECK(n < refs[k].second.nodes.size() && e.data.constant_pose_data.has_value() && common::ToUniversal(e.data.constant_pose_data->time) == refs[k].second.nodes[n].time, "cloudmap:differs", "the service lists a node the robot never made");
          ++n;
        }
        SIM_CHECK(n == refs[k].second.nodes.size(), "cloudmap:differs", "the service lists " + std::to_string(n) + " nodes, there are " + std::to_string(refs[k].second.nodes.size()));
        // One result per scan, with the numbers of the nodes.
        int node = 0;
        for (auto& s : seen[k]) if (s.inserted) {
          SIM_CHECK(s.node == node && node < static_cast<int>(refs[k].second.nodes.size()) && s.time == refs[k].second.nodes[node].time, "cloudmap:results", "a result names node " + std::to_string(s.node) + ", the next one is " + std::to_string(node));
          ++node;
        }
      }
    }, "robot"));
  }
  handles.push_back(sim::spawn([&]() {
    for (;;) {
      { Quiet z; if (registered > 0) break; }
      sim::sleep_ns(20 * kMs);
    }
    for (size_t i = 0; i < glances.size(); ++i) {
      if (!sim::op_enabled(100 + i)) continue;
      sim::sleep_ns(glances[i].pause);
      View(glances[i], dim);
    }
  }, "viewer"));
  const auto wait_for = [](std::function<bool()> ready, const char* cls, const std::string& what, int64_t seconds) {
    for (int64_t k = 0;; ++k) {
      { Quiet z; if (ready()) return; SIM_CHECK(k < seconds * 5, cls, what); }
      sim::sleep_ns(200 * kMs);
    }
  };
  if (with_uplink) {
    wait_for([&]() { return registered == robots; }, "cloudmap:stuck", "the trajectories are not created", 600);
    simnet::config().delay = delay;
    simnet::config().break_connection = brk;
    for (size_t i = 0; i < cuts.size(); ++i) {
      if (!sim::op_enabled(900 + i)) continue;
      sim::sleep_ns(cuts[i].wait);
      simnet::SetLink("uplink", false);
      if (cuts[i].restart) { stop_uplink(); sim::count("fault.uplink-restart"); }
      sim::sleep_ns(cuts[i].down);
      if (cuts[i].restart) start_uplink();
      simnet::SetLink("uplink", true);
    }
    wait_for([&]() { return driven == robots; }, "cloudmap:stuck", "the robots cannot deliver their data while the uplink is troubled", 3000);
    if (!abrupt) {
      simnet::config().delay = 0;
      simnet::config().break_connection = 0;
      simnet::config().calm = true;
      sim::sleep_ns(5 * kSec);
      // Time to send what is queued.
      if (calm) for (int i = 0; i < 400; ++i) sim::sleep_ns(300 * kMs);
    } else sim::count("probe.abrupt-end");
    { Quiet z; may_finish = true; }
  }
  for (int h : handles) sim::join(h);
  for (auto& p : plans) {
    if (!p.remove || p.forget || p.early || abrupt) continue;
    // Deleting is for finished trajectories.
    cloud::MapBuilderStub stub("server", p.name);
    stub.pose_graph()->DeleteTrajectory(p.id);
    stub.pose_graph()->RunFinalOptimization();
    for (int i = 0; stub.pose_graph()->GetTrajectoryStates().at(p.id) != PoseGraphInterface::TrajectoryState::DELETED; ++i) {
      SIM_CHECK(i < 3000, "cloudmap:not-deleted", "a deleted trajectory does not go away");
      sim::sleep_ns(100 * kMs);
    }
    SIM_CHECK(Look(local)[p.id].nodes.empty(), "cloudmap:not-deleted", "a deleted trajectory still has nodes");
    sim::count("probe.deleted");
  }
  server->Shutdown();
  // Without a server a stub cannot even be destroyed.
  for (auto& stub : kept) stub.release();
  local->pose_graph()->RunFinalOptimization();
  auto robots_made = Look(local);
  finish_all(local);
  server.reset();
  if (uplink) stop_uplink();
  Quiet z;
  for (int k = 0; k < robots; ++k) {
    const Plan& p = plans[k];
    const bool gone = p.remove && !p.forget && !p.early && !abrupt;
    Made made = gone ? refs[k].second : robots_made[p.id];
    if (!p.early && !gone) ExpectEqual(p.forget ? refs[k].first : refs[k].second, made, "the map of " + p.name + " made through the service");
    std::set<int64_t> times;
    int n = 0;
    Made sent, up;
    for (const auto& e : p.robot.events) {
      switch (p.robot.sensors[e.sensor].type) {
        case robot::kImu: sent.imu.push_back(mapstate::Bytes(sensor::ToProto(p.robot.Imu(e)))); break;
        case robot::kOdom: sent.odom.push_back(mapstate::Bytes(sensor::ToProto(p.robot.Odom(e)))); break;
        case robot::kFixed: sent.fixed.push_back(mapstate::Bytes(sensor::ToProto(p.robot.Fixed(e)))); break;
        case robot::kLandmark: {
          const auto l = p.robot.Landmark(e);
          for (auto& o : l.landmark_observations) sent.landmarks.push_back(o.id + "@" + std::to_string(common::ToUniversal(l.time)));
          break;
        }
        default: break;
      }
    }
    std::sort(sent.landmarks.begin(), sent.landmarks.end());
    for (auto& u : *ups) {
      if (u.local != p.id) continue;
      CheckUp(u, made, "trajectory " + std::to_string(n++) + " of " + p.name + " at the uplink");
      up.imu.insert(up.imu.end(), u.made.imu.begin(), u.made.imu.end());
      up.odom.insert(up.odom.end(), u.made.odom.begin(), u.made.odom.end());
      up.fixed.insert(up.fixed.end(), u.made.fixed.begin(), u.made.fixed.end());
      up.landmarks.insert(up.landmarks.end(), u.made.landmarks.begin(), u.made.landmarks.end());
      for (auto& x : u.made.nodes) SIM_CHECK(times.insert(x.time).second, "cloudmap:uplink-twice", "a node of " + p.name + " is in two trajectories at the uplink");
    }
    std::sort(up.landmarks.begin(), up.landmarks.end());
    SIM_CHECK(Subsequence(up.imu, sent.imu) && Subsequence(up.odom, sent.odom) && Subsequence(up.fixed, sent.fixed) && Subsequence(up.landmarks, sent.landmarks), "cloudmap:uplink-sensor-data",
              "the sensor data of " + p.name + " in the uplink's maps is not what it sent, in order and at most once");
    // Without faults everything goes up, but for an incomplete batch and what the
    // end of the trajectory brings to light.
    if (with_uplink && calm && !p.early && !abrupt) {
      SIM_CHECK(times.size() + (refs[k].second.nodes.size() - refs[k].first.nodes.size()) + batch > refs[k].second.nodes.size(), "cloudmap:uplink-incomplete",
                "of " + std::to_string(refs[k].first.nodes.size()) + " nodes of " + p.name + " only " + std::to_string(times.size()) + " went up, in batches of " + std::to_string(batch) + ", without any fault");
      sim::count("probe.calm-complete");
    }
    if (n > 1) sim::count("probe.several-uplink-trajectories");
    for (size_t i = 0; i < made.nodes.size(); ++i) sim::log_event(static_cast<uint64_t>(made.nodes[i].time * 2 + times.count(made.nodes[i].time)));
  }
}
}  // namespace
const sim::Harness sim::kHarness = {"cloudmap", Setup, Run, true};
