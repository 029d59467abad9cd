// C05: the constraint builders.
// FLAVOR: tsan
// INSTRUMENT: yes
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "absl/synchronization/mutex.h"
#include "cartographer/common/fixed_ratio_sampler.h"
#include "cartographer/common/thread_pool.h"
#include "cartographer/mapping/2d/probability_grid.h"
#include "cartographer/mapping/2d/probability_grid_range_data_inserter_2d.h"
#include "cartographer/mapping/2d/submap_2d.h"
#include "cartographer/mapping/3d/range_data_inserter_3d.h"
#include "cartographer/mapping/3d/submap_3d.h"
#include "cartographer/mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.h"
#include "cartographer/mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.h"
#include "cartographer/mapping/internal/3d/scan_matching/ceres_scan_matcher_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.h"
#include "cartographer/mapping/internal/3d/scan_matching/rotational_scan_matcher.h"
#include "cartographer/mapping/internal/constraints/constraint_builder.h"
#include "cartographer/mapping/internal/constraints/constraint_builder_2d.h"
#include "cartographer/mapping/internal/constraints/constraint_builder_3d.h"
#include "cartographer/mapping/trajectory_node.h"
#include "cartographer/transform/transform.h"
#include "harness/world.h"
#include "sim/sim.h"

using sim::Quiet;
using namespace cartographer;
using namespace cartographer::mapping;
using constraints::ConstraintBuilder2D;
using constraints::ConstraintBuilder3D;
using Constraint = PoseGraphInterface::Constraint;
using transform::Rigid2d;
using transform::Rigid3d;

namespace {
constexpr int kSubmaps = 3, kNodes = 4, kInit = 2;
constraints::proto::ConstraintBuilderOptions* options;
std::vector<TrajectoryNode::Data*> nodes2, nodes3;
std::vector<Submap2D*> submaps2;
std::vector<Submap3D*> submaps3;
ValueConversionTables* tables;

// Everything that can be asked for. init == kInit: search the full submap.
struct Search { int submap = 0, node = 0, init = 0; bool far = false; };
struct Found { bool found = false; Rigid3d pose; };
Found expect2[kSubmaps][kNodes][kInit + 1], expect3[kSubmaps][kNodes][kInit + 1];

Rigid2d Init2(int s, int n, int i) { return Rigid2d({0.1 * i - 0.05, 0.07 * n - 0.1}, 0.06 * i - 0.03 * s); }
Rigid3d NodePose3(int s, int n, int i) { return transform::Embed3D(Init2(s, n, i)); }
SubmapId Sid(int s) { return SubmapId{s / 2, s % 2}; }
NodeId Nid(int n) { return NodeId{n / 2, n % 2}; }

struct Api {
  std::function<void(const Search&)> add;
  std::function<void()> end;
  std::function<void(std::function<void(const std::vector<Constraint>&)>)> when_done;
  std::function<int()> finished;
  std::function<void(int)> drop;
};

Api MakeApi(ConstraintBuilder2D* b) {
  Api a;
  a.add = [b](const Search& q) {
    if (q.init == kInit) b->MaybeAddGlobalConstraint(Sid(q.submap), submaps2[q.submap], Nid(q.node), nodes2[q.node]);
    else b->MaybeAddConstraint(Sid(q.submap), submaps2[q.submap], Nid(q.node), nodes2[q.node],
                               q.far ? Rigid2d({100., 0.}, 0.) : Init2(q.submap, q.node, q.init));
  };
  a.end = [b] { b->NotifyEndOfNode(); };
  a.when_done = [b](std::function<void(const std::vector<Constraint>&)> f) { b->WhenDone(f); };
  a.finished = [b] { return b->GetNumFinishedNodes(); };
  a.drop = [b](int s) { b->DeleteScanMatcher(Sid(s)); };
  return a;
}
Api MakeApi(ConstraintBuilder3D* b) {
  Api a;
  a.add = [b](const Search& q) {
    if (q.init == kInit) b->MaybeAddGlobalConstraint(Sid(q.submap), submaps3[q.submap], Nid(q.node), nodes3[q.node],
                                                     Eigen::Quaterniond::Identity(), Eigen::Quaterniond::Identity());
    else b->MaybeAddConstraint(Sid(q.submap), submaps3[q.submap], Nid(q.node), nodes3[q.node],
                               q.far ? Rigid3d::Translation({100., 0., 0.}) : NodePose3(q.submap, q.node, q.init), Rigid3d::Identity());
  };
  a.end = [b] { b->NotifyEndOfNode(); };
  a.when_done = [b](std::function<void(const std::vector<Constraint>&)> f) { b->WhenDone(f); };
  a.finished = [b] { return b->GetNumFinishedNodes(); };
  a.drop = [b](int s) { b->DeleteScanMatcher(Sid(s)); };
  return a;
}

void Setup() {
  auto dict = world::Lua(R"text(
      include "pose_graph.lua"
      c = POSE_GRAPH.constraint_builder
      c.min_score = 0.5
      c.global_localization_min_score = 0.53
      c.log_matches = false
      c.fast_correlative_scan_matcher.linear_search_window = 0.4
      c.fast_correlative_scan_matcher.angular_search_window = 0.15
      c.fast_correlative_scan_matcher.branch_and_bound_depth = 4
      c.fast_correlative_scan_matcher_3d.branch_and_bound_depth = 6
      c.fast_correlative_scan_matcher_3d.full_resolution_depth = 2
      c.fast_correlative_scan_matcher_3d.min_rotational_score = 0.8
      c.fast_correlative_scan_matcher_3d.min_low_resolution_score = 0.3
      c.fast_correlative_scan_matcher_3d.linear_xy_search_window = 0.4
      c.fast_correlative_scan_matcher_3d.linear_z_search_window = 0.2
      c.fast_correlative_scan_matcher_3d.angular_search_window = 0.15
      c.ceres_scan_matcher.ceres_solver_options.max_num_iterations = 3
      c.ceres_scan_matcher_3d.ceres_solver_options.max_num_iterations = 3
      return c)text");
  options = new constraints::proto::ConstraintBuilderOptions(constraints::CreateConstraintBuilderOptions(dict.get()));
  auto ins = world::Lua("return { insert_free_space = false, hit_probability = 0.9, miss_probability = 0.49 }");
  ProbabilityGridRangeDataInserter2D inserter(CreateProbabilityGridRangeDataInserterOptions2D(ins.get()));
  auto ins3 = world::Lua("return { hit_probability = 0.9, miss_probability = 0.49, num_free_space_voxels = 0, intensity_threshold = 40. }");
  RangeDataInserter3D inserter3(CreateRangeDataInserterOptions3D(ins3.get()));
  tables = new ValueConversionTables;
  const world::Room room;
  for (int s = 0; s < kSubmaps; ++s) {
    const double x = 0.4 + 0.9 * s, y = 1.4 - 0.1 * s;
    auto* sub = new Submap2D(Eigen::Vector2f(x, y), absl::make_unique<ProbabilityGrid>(MapLimits(0.1, Eigen::Vector2d(x + 1.2, y + 1.2), CellLimits(24, 24)), tables), tables);
    const auto pose = Rigid3d::Translation({x, y, 0}).cast<float>();
    const auto scan = room.Scan2D(x, y, 0, 90);
    sub->InsertRangeData(sensor::RangeData{pose.translation(), sensor::TransformPointCloud(scan, pose), {}}, &inserter);
    sub->Finish();
    submaps2.push_back(sub);
    const auto scan3 = room.Scan3D(x, y, 0, 480);
    const Eigen::VectorXf hist = scan_matching::RotationalScanMatcher::ComputeHistogram(scan3, 12);
    auto* sub3 = new Submap3D(0.2f, 0.45f, Rigid3d::Translation({x, y, 0}), hist);
    sub3->InsertData(sensor::RangeData{pose.translation(), sensor::TransformPointCloud(scan3, pose), {}}, inserter3, 5.f, Eigen::Quaterniond::Identity(), hist);
    sub3->Finish();
    submaps3.push_back(sub3);
  }
  for (int n = 0; n < kNodes; ++n) {
    const double x = 0.5 + 0.6 * n, y = 1.35, yaw = 0.1 * n;
    auto* d = new TrajectoryNode::Data;
    d->time = common::FromUniversal(n);
    d->gravity_alignment = Eigen::Quaterniond::Identity();
    d->local_pose = Rigid3d::Identity();
    d->filtered_gravity_aligned_point_cloud = room.Scan2D(x, y, yaw, 14, 0.3);
    nodes2.push_back(d);
    auto* e = new TrajectoryNode::Data(*d);
    e->high_resolution_point_cloud = room.Scan3D(x, y, yaw, 15, 0.3);
    e->low_resolution_point_cloud = room.Scan3D(x, y, yaw, 8, 0.7);
    e->rotational_scan_matcher_histogram = scan_matching::RotationalScanMatcher::ComputeHistogram(room.Scan3D(x, y, yaw, 120), 12);
    nodes3.push_back(e);
  }
  // What each search finds, computed directly from the scan matchers.
  scan_matching::CeresScanMatcher2D ceres2(options->ceres_scan_matcher_options());
  scan_matching::CeresScanMatcher3D ceres3(options->ceres_scan_matcher_options_3d());
  for (int s = 0; s < kSubmaps; ++s) {
    scan_matching::FastCorrelativeScanMatcher2D m2(*submaps2[s]->grid(), options->fast_correlative_scan_matcher_options());
    scan_matching::FastCorrelativeScanMatcher3D m3(submaps3[s]->high_resolution_hybrid_grid(), &submaps3[s]->low_resolution_hybrid_grid(),
                                                   &submaps3[s]->rotational_scan_matcher_histogram(), options->fast_correlative_scan_matcher_options_3d());
    const Rigid2d sp = transform::Project2D(submaps2[s]->local_pose());
    for (int n = 0; n < kNodes; ++n)
      for (int i = 0; i <= kInit; ++i) {
        float score = 0;
        Rigid2d p;
        ceres::Solver::Summary sum;
        auto& f = expect2[s][n][i];
        const auto& cloud = nodes2[n]->filtered_gravity_aligned_point_cloud;
        f.found = i == kInit ? m2.MatchFullSubmap(cloud, options->global_localization_min_score(), &score, &p)
                             : m2.Match(sp * Init2(s, n, i), cloud, options->min_score(), &score, &p);
        if (f.found) {
          ceres2.Match(p.translation(), p, cloud, *submaps2[s]->grid(), &p, &sum);
          f.pose = transform::Embed3D(sp.inverse() * p);
        }
        auto& g = expect3[s][n][i];
        auto r = i == kInit ? m3.MatchFullSubmap(Eigen::Quaterniond::Identity(), Eigen::Quaterniond::Identity(), *nodes3[n], options->global_localization_min_score())
                            : m3.Match(NodePose3(s, n, i), Rigid3d::Identity(), *nodes3[n], options->min_score());
        g.found = r != nullptr;
        if (r) ceres3.Match(r->pose_estimate.translation(), r->pose_estimate,
                            {{&nodes3[n]->high_resolution_point_cloud, &submaps3[s]->high_resolution_hybrid_grid(), nullptr},
                             {&nodes3[n]->low_resolution_point_cloud, &submaps3[s]->low_resolution_hybrid_grid(), nullptr}}, &g.pose, &sum);
      }
  }
  if (getenv("LC_DEBUG")) {
    int c2 = 0, c3 = 0, t = 0;
    for (int s = 0; s < kSubmaps; ++s) for (int n = 0; n < kNodes; ++n) for (int i = 0; i <= kInit; ++i) { ++t; c2 += expect2[s][n][i].found; c3 += expect3[s][n][i].found;
      fprintf(stderr, "%d %d %d: %d %d\n", s, n, i, expect2[s][n][i].found, expect3[s][n][i].found); }
    fprintf(stderr, "%d %d of %d\n", c2, c3, t);
  }
}

struct Round {
  std::vector<std::vector<Search>> nodes;
  std::vector<int> drop;      // matchers deleted once the round is over
  bool continue_in_callback;  // the next round is requested by the callback
  bool pause;
};

std::string Str(const Constraint& c) {
  return "submap " + std::to_string(c.submap_id.trajectory_id) + "." + std::to_string(c.submap_id.submap_index) + " node " +
         std::to_string(c.node_id.trajectory_id) + "." + std::to_string(c.node_id.node_index) + " " + c.pose.zbar_ij.DebugString();
}
bool Same(const Constraint& a, const Constraint& b) {
  return a.submap_id == b.submap_id && a.node_id == b.node_id && a.tag == b.tag && a.pose.translation_weight == b.pose.translation_weight &&
         a.pose.rotation_weight == b.pose.rotation_weight && a.pose.zbar_ij.translation() == b.pose.zbar_ij.translation() &&
         a.pose.zbar_ij.rotation().coeffs() == b.pose.zbar_ij.rotation().coeffs();
}
bool Near(const Rigid3d& a, const Rigid3d& b) {
  return (a.translation() - b.translation()).norm() < 1e-6 && (a.rotation().coeffs() - b.rotation().coeffs()).norm() < 1e-6;
}

void Check(const std::vector<Constraint>& got, std::vector<std::pair<Search, Found>> want, const std::vector<Constraint>* reference, int round) {
  const std::string at = "round " + std::to_string(round) + ": ";
  size_t found = 0;
  for (auto& w : want) found += w.second.found;
  for (auto& c : got) {
    SIM_CHECK(c.tag == Constraint::INTER_SUBMAP, "loop:tag", at + "wrong kind of constraint");
    SIM_CHECK(c.pose.translation_weight == options->loop_closure_translation_weight() && c.pose.rotation_weight == options->loop_closure_rotation_weight(),
              "loop:weight", at + "wrong weights");
    bool hit = false;
    for (auto& w : want)
      if (w.second.found && Sid(w.first.submap) == c.submap_id && Nid(w.first.node) == c.node_id && Near(w.second.pose, c.pose.zbar_ij)) {
        w.second.found = false;
        hit = true;
        break;
      }
    SIM_CHECK(hit, "loop:unexpected", at + "a constraint that none of the searches of this round has found (or twice): " + Str(c));
  }
  for (auto& w : want)
    SIM_CHECK(!w.second.found, "loop:lost", at + "constraint of submap " + std::to_string(w.first.submap) + " node " + std::to_string(w.first.node) + " kind " + std::to_string(w.first.init) + " is missing");
  if (reference) {
    bool same = got.size() == reference->size();
    for (size_t i = 0; same && i < got.size(); ++i) same = Same(got[i], (*reference)[i]);
    SIM_CHECK(same, "loop:schedule-dependent", at + "the result differs from the one of a sequential execution");
  }
}

template <class Builder>
void RunWith(const Found (*expect)[kNodes][kInit + 1]) {
  auto& r = sim::workload();
  auto opt = *options;
  opt.set_sampling_ratio(r.chance(0.6) ? 1. : 0.5);
  opt.set_log_matches(r.chance(0.1));
  std::vector<Round> rounds(r.range(1, 3));
  int opi = 0, total_nodes = 0;
  for (auto& rd : rounds) {
    const int nn = r.range(1, 3);
    for (int k = 0; k < nn; ++k) {
      rd.nodes.emplace_back();
      const int ns = r.range(0, 3);
      for (int q = 0; q < ns; ++q) {
        Search s;
        s.submap = r.range(0, kSubmaps - 1);
        s.node = r.range(0, kNodes - 1);
        s.init = r.chance(0.12) ? kInit : r.range(0, kInit - 1);
        s.far = s.init != kInit && r.chance(0.1);
        if (sim::op_enabled(opi++)) rd.nodes.back().push_back(s);
      }
      ++total_nodes;
    }
    for (int s = 0; s < kSubmaps; ++s) if (r.chance(0.3) && sim::op_enabled(opi++)) rd.drop.push_back(s);
    rd.continue_in_callback = r.chance(0.5);
    rd.pause = r.chance(0.3);
  }
  const int workers = r.range(1, 4);
  const int readers = r.range(0, 2);
  // What has to be found, and what a sequential execution makes of it.
  std::vector<std::vector<std::pair<Search, Found>>> want(rounds.size());
  std::vector<std::vector<Constraint>> reference(rounds.size());
  {
    Quiet z;
    std::map<int, common::FixedRatioSampler> samplers;
    world::InlinePool pool;
    Builder b(opt, &pool);
    Api api = MakeApi(&b);
    for (size_t k = 0; k < rounds.size(); ++k) {
      for (auto& n : rounds[k].nodes) {
        for (auto& s : n) {
          api.add(s);
          if (s.far) continue;
          if (s.init != kInit && !samplers.emplace(std::piecewise_construct, std::forward_as_tuple(s.submap), std::forward_as_tuple(opt.sampling_ratio())).first->second.Pulse()) continue;
          want[k].push_back({s, expect[s.submap][s.node][s.init]});
          sim::count("searches");
          if (want[k].back().second.found) sim::count("probe.found");
          else sim::count("probe.not_found");
        }
        api.end();
        pool.Drain();
      }
      int calls = 0;
      api.when_done([&](const std::vector<Constraint>& c) { ++calls; reference[k] = c; });
      pool.Drain();
      SIM_CHECK(calls == 1, "loop:callback", "a sequential execution did not call back");
      Check(reference[k], want[k], nullptr, k);
      for (int s : rounds[k].drop) { api.drop(s); samplers.erase(s); }
    }
  }
  int announced = 0, answered = 0;
  absl::Mutex mu;
  int closed = 0;  // rounds that are over, guarded by 'mu'
  bool finished = false;
  {
    common::ThreadPool pool(workers);
    Builder b(opt, &pool);
    Api api = MakeApi(&b);
    std::vector<int> th;
    for (int i = 0; i < readers; ++i)
      th.push_back(sim::spawn([&] {
        int last = 0;
        for (int k = 0; k < 12; ++k) {
          const int n = api.finished();
          {
            Quiet z;
            SIM_CHECK(n >= last, "loop:count", "the number of finished nodes went from " + std::to_string(last) + " to " + std::to_string(n));
            SIM_CHECK(n <= announced, "loop:count", std::to_string(n) + " nodes are finished but only " + std::to_string(announced) + " were announced");
            last = n;
          }
          sim::sleep_ns(700000);
        }
      }));
    std::function<void(size_t)> start = [&](size_t k) {
      int before;
      { Quiet z; before = answered; }
      for (auto& n : rounds[k].nodes) {
        for (auto& s : n) {
          api.add(s);
          if (rounds[k].pause) sim::sleep_ns(300000);
        }
        { Quiet z; ++announced; }
        api.end();
      }
      if (rounds[k].pause) sim::sleep_ns(5000000);
      { Quiet z; SIM_CHECK(answered == before, "loop:early", "called back without being asked to"); }
      api.when_done([&, k](const std::vector<Constraint>& got) {
        {
          Quiet z;
          SIM_CHECK(answered == static_cast<int>(k), "loop:callback", "round " + std::to_string(k) + " was answered out of turn or twice");
          ++answered;
          sim::log_event(got.size());
          Check(got, want[k], &reference[k], k);
          SIM_CHECK(api.finished() == announced, "loop:count", "done, but only " + std::to_string(api.finished()) + " of " + std::to_string(announced) + " announced nodes are finished");
        }
        for (int s : rounds[k].drop) api.drop(s);
        { absl::MutexLock l(&mu); ++closed; }
        if (k + 1 == rounds.size()) { Quiet z; finished = true; return; }
        if (rounds[k].continue_in_callback) start(k + 1);
      });
    };
    for (size_t k = 0; k < rounds.size(); ++k) {
      if (k == 0 || !rounds[k - 1].continue_in_callback) start(k);
      bool ok = false;
      for (int w = 0; w < 400 && !ok; ++w) {
        sim::sleep_ns(1000000);
        absl::MutexLock l(&mu);
        ok = closed > static_cast<int>(k);
      }
      SIM_CHECK(ok, "loop:no-answer", "round " + std::to_string(k) + " was never answered");
      if (!rounds[k].continue_in_callback || k + 1 == rounds.size()) sim::sleep_ns(2000000);
    }
    for (int t : th) sim::join(t);
    for (int w = 0; w < 400; ++w) { { Quiet z; if (finished) break; } sim::sleep_ns(1000000); }
    sim::sleep_ns(5000000);
    { Quiet z; SIM_CHECK(answered == static_cast<int>(rounds.size()), "loop:callback", "called back more than once"); SIM_CHECK(api.finished() == total_nodes, "loop:count", "wrong final count"); }
  }
}
void Run() {
  if (sim::param("dim", 2) == 2) RunWith<ConstraintBuilder2D>(expect2);
  else RunWith<ConstraintBuilder3D>(expect3);
}
}  // namespace
const sim::Harness sim::kHarness = {"loopclosure", Setup, Run, true};
