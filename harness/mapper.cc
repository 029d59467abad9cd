// C11: maps made by the whole system, saved on a faulty disk, and restored.
// C15 (migrate=1): state files of the first format, migrated.
// FLAVOR: plain
// INSTRUMENT: no
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "cartographer/io/internal/pbstream_migrate.h"
#include "cartographer/io/proto_stream.h"
#include "cartographer/io/serialization_format_migration.h"
#include "cartographer/mapping/map_builder.h"
#include "harness/mapstate.h"
#include "harness/sensors.h"
#include "harness/world.h"
#include "gflags/gflags.h"
#include "sim/sim.h"

DECLARE_bool(include_unfinished_submaps);

using sim::Quiet;
using namespace cartographer;
using namespace cartographer::mapping;
using mapstate::State;
using transform::Rigid3d;

namespace {
proto::MapBuilderOptions* base[2];
proto::TrajectoryBuilderOptions* base_trajectory;

void Setup() {
  for (int d : {2, 3}) {
    auto dict = world::Lua(std::string(R"text(
      include "map_builder.lua"
      MAP_BUILDER.use_trajectory_builder_)text") + (d == 2 ? "2" : "3") + R"text(d = true
      MAP_BUILDER.num_background_threads = 1
      g = MAP_BUILDER.pose_graph
      g.optimize_every_n_nodes = 4
      g.max_num_final_iterations = 6
      g.global_sampling_ratio = 0.2
      g.log_residual_histograms = false
      g.global_constraint_search_after_n_seconds = 3.
      g.optimization_problem.ceres_solver_options.max_num_iterations = 4
      g.optimization_problem.ceres_solver_options.num_threads = 1
      c = g.constraint_builder
      c.sampling_ratio = 0.4
      c.min_score = 0.4
      c.global_localization_min_score = 0.45
      c.log_matches = false
      c.fast_correlative_scan_matcher.linear_search_window = 0.3
      c.fast_correlative_scan_matcher.angular_search_window = 0.1
      c.fast_correlative_scan_matcher.branch_and_bound_depth = 3
      c.fast_correlative_scan_matcher_3d.branch_and_bound_depth = 5
      c.fast_correlative_scan_matcher_3d.full_resolution_depth = 2
      c.fast_correlative_scan_matcher_3d.min_rotational_score = 0.5
      c.fast_correlative_scan_matcher_3d.min_low_resolution_score = 0.2
      c.fast_correlative_scan_matcher_3d.linear_xy_search_window = 0.3
      c.fast_correlative_scan_matcher_3d.linear_z_search_window = 0.2
      c.fast_correlative_scan_matcher_3d.angular_search_window = 0.1
      c.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 2
      c.ceres_scan_matcher_3d.ceres_solver_options.max_num_iterations = 2
      return MAP_BUILDER)text");
    base[d - 2] = new proto::MapBuilderOptions(CreateMapBuilderOptions(dict.get()));
  }
  auto dict = world::Lua(R"text(
      include "trajectory_builder.lua"
      t = TRAJECTORY_BUILDER.trajectory_builder_2d
      t.min_range = 0.1
      t.max_range = 20.
      t.adaptive_voxel_filter.min_num_points = 40
      t.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 5
      t.motion_filter.max_time_seconds = 0.
      t.submaps.grid_options_2d.resolution = 0.1
      u = TRAJECTORY_BUILDER.trajectory_builder_3d
      u.min_range = 0.1
      u.max_range = 20.
      u.rotational_histogram_size = 12
      u.high_resolution_adaptive_voxel_filter.min_num_points = 60
      u.low_resolution_adaptive_voxel_filter.min_num_points = 40
      u.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 4
      u.submaps.high_resolution_max_range = 10.
      u.submaps.high_resolution = 0.15
      u.submaps.low_resolution = 0.5
      u.motion_filter.max_time_seconds = 0.
      return TRAJECTORY_BUILDER)text");
  base_trajectory = new proto::TrajectoryBuilderOptions(CreateTrajectoryBuilderOptions(dict.get()));
}

struct Trajectory {
  robot::Robot robot;
  proto::TrajectoryBuilderOptions options;
  bool trims = false;
  int id = -1;
};

Trajectory MakeTrajectory(int dim, double t0, double trim, bool landmarks = true) {
  auto& r = sim::workload();
  Trajectory t;
  t.options = *base_trajectory;
  t.robot.dim = dim;
  t.robot.truth.phase = r.uniform(0, 6.28);
  t.robot.truth.speed = r.uniform(0.6, 1.4);
  const double t1 = t0 + r.uniform(0.6, 3.);
  const int window = r.range(1, 4);
  const bool imu = dim == 3 || r.chance(0.5);
  auto* o2 = t.options.mutable_trajectory_builder_2d_options();
  auto* o3 = t.options.mutable_trajectory_builder_3d_options();
  o2->set_use_imu_data(imu);
  o2->mutable_submaps_options()->set_num_range_data(window);
  o3->mutable_submaps_options()->set_num_range_data(window);
  // So that every trajectory has options of its own.
  o2->set_missing_data_ray_length(5. + r.range(0, 1000) * 0.001);
  if (dim == 2 && r.chance(0.2)) {
    auto* s = o2->mutable_submaps_options();
    s->mutable_grid_options_2d()->set_grid_type(proto::GridOptions2D::TSDF);
    s->mutable_range_data_inserter_options()->set_range_data_inserter_type(proto::RangeDataInserterOptions::TSDF_INSERTER_2D);
  }
  if (dim == 3 && r.chance(0.3)) o3->set_use_intensities(true);
  if (r.chance(0.3)) {
    // A sensor that is trusted: cells reach the limits of what they can hold.
    o3->mutable_submaps_options()->mutable_range_data_inserter_options()->set_hit_probability(0.95);
    o3->mutable_submaps_options()->mutable_range_data_inserter_options()->set_miss_probability(0.05);
    auto* p2 = o2->mutable_submaps_options()->mutable_range_data_inserter_options()->mutable_probability_grid_range_data_inserter_options_2d();
    p2->set_hit_probability(0.95);
    p2->set_miss_probability(0.05);
  }
  t.options.set_collate_landmarks(r.chance(0.5));
  t.options.set_collate_fixed_frame(r.chance(0.5));
  t.trims = r.chance(trim);
  if (t.trims) t.options.mutable_pure_localization_trimmer()->set_max_submaps_to_keep(r.range(2, 3));
  // No scans at all, or none before the trajectory ends.
  const double silent = r.unit();
  robot::Sensor range{robot::kRange, "range"};
  range.rate = 5;
  range.offset = 0.05;
  range.duration = 0.1;
  range.points = dim == 2 ? 48 : 72;
  if (silent < 0.12) { range.start = 100; sim::count("probe.trajectory_without_scans"); }
  t.robot.sensors.push_back(range);
  if (imu) { robot::Sensor s{robot::kImu, "imu"}; s.rate = 10; t.robot.sensors.push_back(s); }
  if (r.chance(0.6)) { robot::Sensor s{robot::kOdom, "odom"}; s.rate = 5; t.robot.sensors.push_back(s); }
  if (r.chance(0.3)) { robot::Sensor s{robot::kFixed, "gps"}; s.rate = 2; t.robot.sensors.push_back(s); }
  if (r.chance(0.4) && landmarks) { robot::Sensor s{robot::kLandmark, "beacon"}; s.rate = 3; t.robot.sensors.push_back(s); }
  for (auto& s : t.robot.sensors) {
    s.latency = r.chance(0.5) ? 0.3 : 0.;
    if (r.chance(0.1)) s.drop = 0.3;
    if (r.chance(0.1)) s.start = r.uniform(0.2, 1.);
  }
  t.robot.Generate(r, t0, t1);
  return t;
}

State ReadFile(const std::string& path, const std::string& what) {
  io::ProtoStreamReader reader(path);
  std::string error;
  State s = mapstate::Parse(&reader, &error);
  SIM_CHECK(error.empty(), "state:inconsistent-file", what + " is inconsistent: " + error);
  return s;
}

// Saves, and checks the outcome of saving.
bool Save(MapBuilderInterface* b, bool unfinished, const std::string& path, bool faults) {
  auto& r = sim::workload();
  sim::disk::Plan plan;
  const double kind = r.unit();
  const int64_t capacity = r.below(30000);
  if (faults) {
    if (kind < 0.3) plan.write_error = 0.05;
    else if (kind < 0.5) plan.capacity = capacity;
    else if (kind < 0.6) plan.close_fail = 0.5;
    else if (kind < 0.7) plan.open_fail = 0.7;
    else { plan.short_write = 0.3; plan.eintr = 0.2; }
  }
  sim::disk::set_plan(plan);
  const uint64_t before = sim::disk::errors_injected();
  const bool ok = b->SerializeStateToFile(unfinished, path);
  const bool disturbed = sim::disk::errors_injected() > before;
  sim::disk::set_plan(sim::disk::Plan());
  SIM_CHECK(ok || disturbed, "state:refused", "saving failed although the disk worked");
  if (!ok) sim::count("probe.save_failed");
  return ok;
}

// Feeds the trajectories, interleaved. With 'snapshots', somebody else saves the
// state meanwhile.
int op = 0;
void Feed(MapBuilderInterface* b, std::vector<Trajectory*> ts, int snapshots = 0) {
  auto& r = sim::workload();
  for (auto* t : ts) t->id = b->AddTrajectoryBuilder(t->robot.Ids(), t->options, nullptr);
  int saver = -1;
  const bool all = r.chance(0.5);
  const int pause = r.range(1, 60);
  if (snapshots > 0)
    saver = sim::spawn([b, snapshots, all, pause] {
      for (int i = 0; i < snapshots; ++i) {
        sim::sleep_ns(pause * 200000);
        const std::string path = "/simdisk/snapshot" + std::to_string(i) + ".pbstream";
        SIM_CHECK(b->SerializeStateToFile(all, path), "state:refused", "saving a snapshot failed");
        ReadFile(path, "a snapshot taken while mapping");
        sim::count("probe.concurrent_snapshot");
      }
    }, "saver");
  std::vector<size_t> pos(ts.size(), 0);
  for (;;) {
    std::vector<int> open;
    for (size_t t = 0; t < ts.size(); ++t) if (pos[t] < ts[t]->robot.events.size()) open.push_back(t);
    if (open.empty()) break;
    const int t = r.pick(open);
    const int burst = r.range(4, 20);
    const bool on = sim::op_enabled(op++);
    for (int i = 0; i < burst && pos[t] < ts[t]->robot.events.size(); ++i) {
      const auto& e = ts[t]->robot.events[pos[t]++];
      if (on) ts[t]->robot.Deliver(e, b->GetTrajectoryBuilder(ts[t]->id));
    }
    if (r.chance(0.3)) sim::sleep_ns(1000000);
  }
  if (saver >= 0) sim::join(saver);
}

std::unique_ptr<MapBuilderInterface> NewBuilder(int dim, int workers) {
  proto::MapBuilderOptions options = *base[dim - 2];
  options.set_num_background_threads(workers);
  // Otherwise a trajectory may end before its data was used (see C18).
  options.set_collate_by_trajectory(true);
  return CreateMapBuilder(options);
}

const std::vector<std::string> kSensorData = {"IMU data", "odometry", "fixed frame poses", "observations"};

void ExpectSame(const State& want, const State& got, const char* cls, const std::string& what, double tolerance = 1e-9) {
  const std::string d = mapstate::Difference(want, got, tolerance);
  SIM_CHECK(d.empty(), cls, what + ": " + d);
}

// Waits until the map looks as expected.
State Settle(MapBuilderInterface* b, const State& want, const std::function<State(const State&)>& view, const char* cls, const std::string& what) {
  std::string d;
  State got;
  for (int i = 0; i < 400; ++i) {
    got = mapstate::Observe(b);
    d = mapstate::Difference(want, view(got));
    if (d.empty()) return got;
    sim::sleep_ns(5000000);
  }
  sim::fail(cls, what + ": " + d);
  return got;
}

// Trajectories that constraints tie together, and frozen ones, are connected.
void ExpectConnected(MapBuilderInterface* b, const std::string& what) {
  auto* graph = dynamic_cast<PoseGraph*>(b->pose_graph());
  SIM_CHECK(graph != nullptr, "state:connectivity", "no pose graph");
  const auto constraints = graph->constraints();
  const auto states = graph->GetTrajectoryStates();
  const auto components = graph->GetConnectedTrajectories();
  std::map<int, int> of;
  for (size_t i = 0; i < components.size(); ++i) for (int t : components[i]) of[t] = i;
  auto connected = [&](int x, int y) { return of.count(x) && of.count(y) && of[x] == of[y]; };
  for (auto& c : constraints) {
    const int x = c.submap_id.trajectory_id, y = c.node_id.trajectory_id;
    if (x != y) sim::count("probe.inter_trajectory");
    SIM_CHECK(connected(x, y), "state:connectivity", what + ": trajectories " + std::to_string(x) + " and " + std::to_string(y) + " share constraints but are not connected");
  }
  int frozen = -1;
  for (auto& t : states) {
    if (t.second != PoseGraphInterface::TrajectoryState::FROZEN) continue;
    SIM_CHECK(frozen < 0 || connected(frozen, t.first), "state:connectivity", what + ": frozen trajectories " + std::to_string(frozen) + " and " + std::to_string(t.first) + " are not connected");
    frozen = t.first;
  }
}

std::map<int, int> Identity(const std::set<int>& ids) {
  std::map<int, int> m;
  for (int t : ids) m[t] = t;
  return m;
}

// An old state file is migrated, by the tool or by the function behind it.
void RunMigrate() {
  auto& r = sim::workload();
  op = 0;
  sim::set_step_budget(40000000);
  bool migrating = false, faults = r.chance(0.3);
  sim::on_fatal([&](const std::string& m) {
    if (migrating && sim::disk::errors_injected() > 0) { sim::count("probe.migration_refused"); return; }
    sim::fail(migrating ? "migrate:stopped" : "state:stopped", "the program stopped: " + m);
  });
  auto b = NewBuilder(3, r.range(1, 2));
  const int nt = r.range(1, 3);
  std::vector<Trajectory> ts;
  for (int t = 0; t < nt; ++t) ts.push_back(MakeTrajectory(3, 1. + r.unit(), 0.));
  std::vector<Trajectory*> ptrs;
  for (auto& t : ts) ptrs.push_back(&t);
  Feed(b.get(), ptrs);
  for (auto& t : ts) b->FinishTrajectory(t.id);
  if (r.chance(0.2)) b->pose_graph()->SetLandmarkPose("marker", world::Pose2(1, 2, 0.5), r.chance(0.5));
  b->pose_graph()->RunFinalOptimization();
  const State map = mapstate::Observe(b.get());
  // Numbers have to be consecutive, which they are without deleted trajectories.
  int next = 0;
  for (int t : map.trajectories) if (t != next++) { sim::count("probe.gap"); return; }
  const std::string old_path = "/simdisk/old.pbstream", new_path = "/simdisk/new.pbstream", tmp = "/simdisk/current.pbstream";
  const bool old_has_all = r.chance(0.8);
  SIM_CHECK(b->SerializeStateToFile(old_has_all, tmp), "state:refused", "saving failed");
  b.reset();
  const State current = ReadFile(tmp, "the saved state");
  const bool v1 = r.chance(0.85);
  const bool shuffle = r.chance(0.3);
  {
    io::ProtoStreamReader reader(tmp);
    io::ProtoStreamWriter writer(old_path);
    proto::SerializationHeader header;
    SIM_CHECK(reader.ReadProto(&header), "state:inconsistent-file", "no header");
    if (v1) header.set_format_version(1);
    writer.WriteProto(header);
    std::vector<proto::SerializedData> messages;
    proto::SerializedData m;
    while (reader.ReadProto(&m)) {
      if (v1 && m.has_submap()) m.mutable_submap()->mutable_submap_3d()->clear_rotational_scan_matcher_histogram();
      messages.push_back(m);
      m.Clear();
    }
    // Within one kind of sensor data of a trajectory the order is fixed, the
    // order of submaps and nodes is not.
    if (shuffle)
      for (size_t i = 2; i + 1 < messages.size(); ++i) {
        const size_t k = i + r.below(messages.size() - i);
        const bool a = messages[i].has_submap() && messages[k].has_submap();
        if (a) std::swap(messages[i], messages[k]);
      }
    for (auto& x : messages) writer.WriteProto(x);
    SIM_CHECK(writer.Close(), "state:refused", "writing failed");
  }
  const bool all = r.chance(0.7), tool = r.chance(0.5);
  sim::disk::Plan plan;
  const double kind = r.unit();
  const int64_t capacity = r.below(20000);
  if (faults) {
    if (kind < 0.3) plan.write_error = 0.05;
    else if (kind < 0.5) plan.capacity = capacity;
    else if (kind < 0.6) plan.close_fail = 0.5;
    else if (kind < 0.7) plan.open_fail = 0.4;
    else { plan.short_write = 0.3; plan.eintr = 0.2; plan.short_read = 0.2; }
  }
  sim::disk::set_plan(plan);
  migrating = true;
  bool ok = true;
  if (tool) {
    FLAGS_include_unfinished_submaps = all;
    std::string args[] = {"pbstream", "migrate", old_path, new_path};
    char* argv[] = {&args[0][0], &args[1][0], &args[2][0], &args[3][0], nullptr};
    ok = io::pbstream_migrate(4, argv) == 0;
  } else {
    io::ProtoStreamReader reader(old_path);
    io::ProtoStreamWriter writer(new_path);
    io::MigrateStreamVersion1ToVersion2(&reader, &writer, all);
    ok = writer.Close();
  }
  const bool disturbed = sim::disk::errors_injected() > 0;
  migrating = false;
  sim::disk::set_plan(sim::disk::Plan());
  SIM_CHECK(ok || disturbed, "migrate:refused", "migrating failed although the disk worked");
  if (!ok) { sim::count("probe.migration_refused"); return; }
  sim::count(v1 ? "probe.migrated_v1" : "probe.migrated_v2");
  const State migrated = ReadFile(new_path, "the migrated file");
  const State want = all ? current : mapstate::WithoutOpenSubmaps(current);
  const std::string d = mapstate::Difference(mapstate::Without(want, {"submap "}), mapstate::Without(migrated, {"submap "}));
  SIM_CHECK(d.empty(), "migrate:lost", "the migrated file differs from the old one: " + d);
  // Histograms come out of another order of summation.
  const std::string e = mapstate::Difference(want, migrated, 1e-4);
  SIM_CHECK(e.empty(), "migrate:submaps", "the migrated file differs from the old one: " + e);
  proto::SerializationHeader header;
  io::ProtoStreamReader reader(new_path);
  SIM_CHECK(reader.ReadProto(&header) && header.format_version() == 2, "migrate:version", "the migrated file has another version");
}

// C13: a state file that ends in the middle, or cannot be read to its end, is
// neither loaded nor migrated as if it were complete.
void RunDamaged() {
  auto& r = sim::workload();
  op = 0;
  sim::set_step_budget(40000000);
  bool reading = false;
  sim::on_fatal([&](const std::string& m) {
    if (reading) { sim::count("probe.damage_refused"); return; }
    sim::fail("state:stopped", "the program stopped: " + m);
  });
  const int dim = r.range(2, 3);
  auto b = NewBuilder(dim, r.range(1, 2));
  const int nt = r.range(1, 2);
  std::vector<Trajectory> ts;
  for (int t = 0; t < nt; ++t) ts.push_back(MakeTrajectory(dim, 1. + r.unit(), 0.));
  std::vector<Trajectory*> ptrs;
  for (auto& t : ts) ptrs.push_back(&t);
  Feed(b.get(), ptrs);
  for (auto& t : ts) b->FinishTrajectory(t.id);
  b->pose_graph()->RunFinalOptimization();
  const std::string good = "/simdisk/good.pbstream", bad = "/simdisk/bad.pbstream", migrated = "/simdisk/migrated.pbstream";
  SIM_CHECK(b->SerializeStateToFile(true, good), "state:refused", "saving failed");
  b.reset();
  std::string bytes;
  {
    std::ifstream in(good, std::ios::binary);
    bytes.assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
  }
  // Where messages start: after the magic number, each has a length.
  std::vector<size_t> starts;
  for (size_t at = 8; at + 8 <= bytes.size();) {
    starts.push_back(at);
    uint64_t n = 0;
    for (int i = 0; i < 8; ++i) n |= static_cast<uint64_t>(static_cast<unsigned char>(bytes[at + i])) << (8 * i);
    at += 8 + n;
    SIM_CHECK(at <= bytes.size(), "state:inconsistent-file", "the saved file is not made of messages");
  }
  SIM_CHECK(starts.size() > 2, "state:inconsistent-file", "the saved file is too short");
  const double kind = r.unit();
  const size_t m = kind < 0.6 ? 3 + r.below(starts.size() - 2) : 1 + r.below(starts.size());
  const size_t end = m >= starts.size() ? bytes.size() : starts[m];
  size_t cut = starts[std::min(m, starts.size()) - 1] + 1 + r.below(end - starts[std::min(m, starts.size()) - 1] - 1);
  // Read errors instead.
  const bool unreadable = kind > 0.8;
  const double rate = r.uniform(0.02, 0.6);
  if (unreadable) cut = bytes.size();
  { std::ofstream out(bad, std::ios::binary); out.write(bytes.data(), cut); }
  const bool migrate = dim == 3 && r.chance(0.5), frozen = r.chance(0.5);
  sim::disk::Plan plan;
  if (unreadable) plan.read_error = rate;
  sim::disk::set_plan(plan);
  const uint64_t errors = sim::disk::errors_injected();
  reading = true;
  if (migrate) {
    io::ProtoStreamReader reader(bad);
    io::ProtoStreamWriter writer(migrated);
    io::MigrateStreamVersion1ToVersion2(&reader, &writer, true);
    SIM_CHECK(writer.Close(), "state:refused", "writing failed");
  } else {
    auto other = NewBuilder(dim, 1);
    other->LoadStateFromFile(bad, frozen);
    reading = false;
    const bool damaged = !unreadable || sim::disk::errors_injected() > errors;
    sim::disk::set_plan(sim::disk::Plan());
    SIM_CHECK(!damaged, "state:damage-accepted", unreadable ? "a state file that could not be read completely was loaded" : "a state file of which only " + std::to_string(cut) + " of " + std::to_string(bytes.size()) + " bytes are left was loaded");
    return;
  }
  reading = false;
  const bool damaged = !unreadable || sim::disk::errors_injected() > errors;
  sim::disk::set_plan(sim::disk::Plan());
  SIM_CHECK(!damaged, "state:damage-accepted", unreadable ? "a state file that could not be read completely was migrated" : "a state file of which only " + std::to_string(cut) + " of " + std::to_string(bytes.size()) + " bytes are left was migrated");
}

void Run() {
  if (sim::param("migrate", 0)) return RunMigrate();
  if (sim::param("damaged", 0)) return RunDamaged();
  auto& r = sim::workload();
  op = 0;
  sim::set_step_budget(40000000);
  const int dim = sim::param("dim", 2);
  bool loading = false;
  sim::on_fatal([&loading](const std::string& m) { sim::fail(loading ? "state:load-stopped" : "state:stopped", std::string(loading ? "loading a state that was saved stopped the program: " : "the program stopped: ") + m); });
  const int workers = r.range(1, 3);
  auto first = NewBuilder(dim, workers);

  // Make a map.
  const int nt = r.range(1, 3);
  const bool busy = r.chance(0.25);
  const int snapshots = r.range(0, 3);
  // Loaded landmarks are fixed and others are not, so optimizing a map before
  // saving and after loading is the same only without landmarks.
  const bool compare_optimized = r.chance(0.25);
  std::vector<Trajectory> ts;
  for (int t = 0; t < nt; ++t) ts.push_back(MakeTrajectory(dim, 1. + r.unit(), t > 0 ? busy ? 0.7 : 0.15 : 0., !compare_optimized));
  std::vector<Trajectory*> ptrs;
  for (auto& t : ts) ptrs.push_back(&t);
  const bool sequential = r.chance(0.5);
  if (sequential) {
    for (auto* t : ptrs) { Feed(first.get(), {t}, busy ? snapshots : 0); if (r.chance(0.7)) first->FinishTrajectory(t->id); else t->id = -1 - t->id; }
  } else {
    Feed(first.get(), ptrs, busy ? snapshots : 0);
  }
  for (auto& t : ts) {
    if (t.id < 0) { t.id = -1 - t.id; first->FinishTrajectory(t.id); }
    else if (!sequential) first->FinishTrajectory(t.id);
  }
  const bool busy_all = r.chance(0.7), busy_frozen = r.chance(0.5);
  if (busy) {
    // A snapshot while the background work is going on: of some state in between,
    // but complete in itself.
    const std::string snapshot = "/simdisk/snapshot.pbstream";
    SIM_CHECK(Save(first.get(), busy_all, snapshot, false), "state:refused", "saving a snapshot failed");
    const State s = ReadFile(snapshot, "the snapshot taken while work was going on");
    auto other = NewBuilder(dim, 1);
    loading = true;
    const auto ids = other->LoadStateFromFile(snapshot, busy_frozen);
    loading = false;
    State want = mapstate::Renumber(s, ids);
    if (busy_frozen) want = mapstate::Without(mapstate::Without(want, kSensorData), {"constraints"});
    // A trajectory of which everything has been trimmed meanwhile may be listed.
    for (auto it = want.trajectories.begin(); it != want.trajectories.end();) {
      bool any = false;
      for (auto& p : want.parts) any = any || p.first.compare(0, 5 + std::to_string(*it).size() + 1, "node " + std::to_string(*it) + ".") == 0 || p.first.compare(0, 7 + std::to_string(*it).size() + 1, "submap " + std::to_string(*it) + ".") == 0;
      if (any) { ++it; continue; }
      sim::count("probe.emptied_trajectory");
      want.options.erase(*it);
      it = want.trajectories.erase(it);
    }
    // Trajectory data exists from when the first node was processed.
    auto seen = [&want](State s) {
      for (auto it = s.parts.begin(); it != s.parts.end();) it = !want.parts.count(it->first) && it->first.compare(0, 19, "data of trajectory ") == 0 ? s.parts.erase(it) : std::next(it);
      return s;
    };
    Settle(other.get(), want, seen, "state:restored-differently", "the snapshot was restored differently");
    sim::count("probe.snapshot");
  }
  if (r.chance(0.3)) first->pose_graph()->RunFinalOptimization();
  for (auto& t : ts)
    if (!t.trims && r.chance(0.15)) { first->pose_graph()->DeleteTrajectory(t.id); sim::count("probe.deleted"); }
  if (r.chance(0.2) && !compare_optimized) first->pose_graph()->SetLandmarkPose("marker", world::Pose2(1, 2, 0.5), r.chance(0.5));
  first->pose_graph()->RunFinalOptimization();
  const State original = mapstate::Observe(first.get());
  sim::count("nodes", [&] { int n = 0; for (auto& p : original.parts) n += p.first.compare(0, 5, "node ") == 0; return n; }());
  for (auto& p : original.parts) if (p.first.compare(0, 11, "constraints") == 0 && p.second.front().exact == "inter") { sim::count("probe.inter_constraint"); break; }

  // Save it.
  const bool unfinished = compare_optimized || r.chance(0.7);
  const std::string path = "/simdisk/map.pbstream";
  const bool faults = r.chance(0.4);
  if (!Save(first.get(), unfinished, path, faults))
    SIM_CHECK(Save(first.get(), unfinished, path, false), "state:refused", "saving again after a failure failed");
  {
    State now = mapstate::Observe(first.get());
    ExpectSame(original, now, "state:disturbed", "saving changed the map");
  }
  const State saved = ReadFile(path, "the saved state");
  const State expected = mapstate::Renumber(unfinished ? original : mapstate::WithoutOpenSubmaps(original), Identity(saved.trajectories));
  ExpectSame(expected, saved, "state:incomplete", "the saved state differs from the map");
  for (int t : original.trajectories) SIM_CHECK(saved.trajectories.count(t), "state:incomplete", "trajectory " + std::to_string(t) + " was not saved");

  // What another optimization makes of it, for later.
  State optimized;
  if (compare_optimized) {
    first->pose_graph()->RunFinalOptimization();
    optimized = mapstate::Observe(first.get());
  }
  first.reset();

  // Restore it.
  const bool frozen = !compare_optimized && r.chance(0.5);
  auto second = NewBuilder(dim, 1 + r.below(3));
  State before;
  if (!compare_optimized && r.chance(0.4)) {
    // On top of a map of its own.
    Trajectory own = MakeTrajectory(dim, 1., 0.);
    Feed(second.get(), {&own});
    second->FinishTrajectory(own.id);
    second->pose_graph()->RunFinalOptimization();
    before = mapstate::Observe(second.get());
    sim::count("probe.load_on_top");
  }
  const int builders = second->num_trajectory_builders();
  loading = true;
  const std::map<int, int> renumbered = second->LoadStateFromFile(path, frozen);
  loading = false;
  std::set<int> from, to;
  for (auto& p : renumbered) {
    from.insert(p.first);
    SIM_CHECK(to.insert(p.second).second, "state:renumbering", "two trajectories got the same number");
    SIM_CHECK(p.second >= builders && p.second < second->num_trajectory_builders(), "state:renumbering", "a loaded trajectory got the number " + std::to_string(p.second));
  }
  SIM_CHECK(from == saved.trajectories, "state:renumbering", "not all trajectories of the file were reported as loaded");
  State want = mapstate::Renumber(saved, renumbered);
  std::vector<std::string> skip;
  if (frozen) { skip = kSensorData; skip.push_back("constraints"); }
  want = mapstate::Without(want, skip);
  auto view = [&](const State& s) { return mapstate::Without(mapstate::Renumber(s, Identity(to)), {}); };
  // The landmarks of the map that was there before are there as well.
  auto only_loaded = [&](const State& s) {
    State v = view(s);
    for (auto it = v.parts.begin(); it != v.parts.end();) it = !want.parts.count(it->first) && it->first.find("landmark") != std::string::npos ? v.parts.erase(it) : std::next(it);
    return v;
  };
  State loaded = Settle(second.get(), want, only_loaded, "state:restored-differently", std::string("the state loaded as ") + (frozen ? "frozen" : "unfrozen") + " differs from the saved one");
  {
    // What was there before is still there.
    State a = mapstate::Renumber(before, Identity(before.trajectories)), b = mapstate::Renumber(loaded, Identity(before.trajectories));
    a = mapstate::Without(a, {"pose of landmark", "observations"});
    b = mapstate::Without(b, {"pose of landmark", "observations"});
    ExpectSame(a, b, "state:disturbed", "loading changed the map that was there before");
  }
  // The states are set in the background.
  for (int i = 0;; ++i) {
    bool ok = true;
    for (auto& p : renumbered) ok = ok && second->pose_graph()->IsTrajectoryFrozen(p.second) == frozen;
    if (ok) break;
    SIM_CHECK(i < 400, "state:frozen", "a trajectory loaded as frozen is not frozen");
    sim::sleep_ns(5000000);
  }

  ExpectConnected(second.get(), "after loading");
  // Save what was loaded.
  const std::string path2 = "/simdisk/again.pbstream";
  if (before.trajectories.empty()) {
    SIM_CHECK(Save(second.get(), true, path2, false), "state:refused", "saving the loaded state failed");
    State again = ReadFile(path2, "the state saved again");
    ExpectSame(want, again, "state:drift", "the state saved again differs from the first one");
  }
  if (compare_optimized) {
    second->pose_graph()->RunFinalOptimization();
    State b = mapstate::Observe(second.get());
    sim::count("probe.optimized_again");
    ExpectSame(mapstate::Renumber(optimized, renumbered), b, "state:optimizes-differently", "the loaded map optimizes differently", 1e-6);
  }
  // Go on from there.
  Trajectory more = MakeTrajectory(dim, 20., 0.15);
  Feed(second.get(), {&more});
  second->FinishTrajectory(more.id);
  second->pose_graph()->RunFinalOptimization();
  const State after = mapstate::Observe(second.get());
  ExpectConnected(second.get(), "after more mapping");
  std::vector<std::string> moving = {"observations", "pose of landmark"};
  if (!frozen) { moving.push_back("pose of "); moving.push_back("constraints"); moving.push_back("data of trajectory"); }
  ExpectSame(mapstate::Without(want, moving), mapstate::Without(view(after), moving), frozen ? "state:frozen-moved" : "state:disturbed", std::string("mapping on top of a state loaded as ") + (frozen ? "frozen" : "unfrozen") + " changed it");
  if (frozen)
    for (auto& p : want.parts)
      if (p.first.compare(0, 16, "pose of landmark") == 0)
        SIM_CHECK(after.parts.count(p.first) && mapstate::Show(after.parts.at(p.first)[0].num) == mapstate::Show(p.second[0].num), "state:frozen-moved", "mapping moved a loaded landmark");
  // And once more through the file.
  if (r.chance(0.5)) {
    const bool all = r.chance(0.7);
    SIM_CHECK(Save(second.get(), all, path2, false), "state:refused", "saving the extended state failed");
    const State grown = ReadFile(path2, "the extended state");
    ExpectSame(mapstate::Renumber(all ? after : mapstate::WithoutOpenSubmaps(after), Identity(grown.trajectories)), grown, "state:incomplete", "the extended state differs from the map");
    for (int t : after.trajectories) SIM_CHECK(grown.trajectories.count(t), "state:incomplete", "trajectory " + std::to_string(t) + " was not saved again");
    second.reset();
    auto third = NewBuilder(dim, 1);
    loading = true;
    const auto third_ids = third->LoadStateFromFile(path2, false);
    loading = false;
    Settle(third.get(), mapstate::Renumber(grown, third_ids), [](const State& s) { return s; }, "state:restored-differently", "the extended state was restored differently");
    sim::count("probe.third_generation");
  }
}
}  // namespace
const sim::Harness sim::kHarness = {"mapper", Setup, Run, false};
