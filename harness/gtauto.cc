// C22: the tool that derives ground truth from a saved map, on a faulty disk.
// FLAVOR: plain
// INSTRUMENT: no
#include <glog/logging.h>
#include <gflags/gflags.h>
#include "cartographer/ground_truth/proto/relations.pb.h"
#include "harness/groundtruth.h"
// The simulator has set up logging.
static bool quiet_logtostderr;
#define InitGoogleLogging(x) IsGoogleLoggingInitialized()
#define FLAGS_logtostderr quiet_logtostderr
// Its main() under another symbol.
int main(int argc, char** argv) __asm__("tool_main");
extern "C" int tool_main(int argc, char** argv);
#include "cartographer/ground_truth/autogenerate_ground_truth_main.cc"

namespace {
struct Rel { int64_t t1, t2; gt::T expected; double covered; bool unsure; };

std::string Num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }

void Run() {
  auto& r = sim::workload();
  gt::Map m = gt::Make(r, r.chance(0.3));
  std::vector<gt::Closure> kept;
  for (size_t i = 0; i < m.constraints.size(); ++i) if (!m.constraints[i].inter || sim::op_enabled(static_cast<int>(i))) kept.push_back(m.constraints[i]);
  m.constraints = kept;
  const double min_covered = r.chance(0.2) ? 0 : r.uniform(0, 20), max_m = r.uniform(0.01, 0.5), max_rad = r.uniform(0.005, 0.1);
  // What is to come out: the closures between far apart parts of the way which agree with the map. A submap is
  // represented by the node in its middle, which is the first one of the submap after it.
  std::map<int, double> way;
  double sum = 0;
  const gt::T* last = nullptr;
  for (auto& n : m.nodes) {
    if (last) sum += gt::Dist(gt::Mul(gt::Inv(*last), n.second));
    way[n.first] = sum;
    last = &n.second;
  }
  std::map<int, int> middle;
  for (auto& c : m.constraints) if (!c.inter) middle.emplace(c.submap - 1, c.node);
  std::vector<Rel> want;
  for (auto& c : m.constraints) {
    if (!c.inter || !middle.count(c.submap)) continue;
    const int rep = middle[c.submap];
    const double covered = std::fabs(way[c.node] - way[rep]);
    const gt::T p1 = m.nodes[rep], p2 = m.nodes[c.node];
    const gt::T expected = gt::Mul(gt::Mul(gt::Inv(p1), m.submaps[c.submap]), c.pose);
    const gt::T error = gt::Mul(gt::Mul(gt::Inv(p1), p2), gt::Inv(expected));
    const double a = covered - min_covered, b = max_m - gt::Dist(error), e = max_rad - gt::Angle(error);
    const double least = std::min(a, std::min(b, e));
    if (least < -1e-7) continue;
    want.push_back({m.stamps[rep], m.stamps[c.node], expected, covered, least < 1e-7});
  }
  const std::string in = "/simdisk/map.pbstream", out = "/simdisk/truth.bin";
  gt::Store(m, in);
  bool damaged = false;
  std::string d = sim::disk::content(in);
  sim::log_event(static_cast<uint64_t>(d.size()));
  if (r.chance(0.1)) {
    const size_t at = r.below(d.size());
    if (sim::fault("truncated_file", 1)) { sim::disk::put(in, d.substr(0, at)); damaged = true; }
  }
  if (r.chance(0.3)) sim::disk::put(out, std::string(r.range(1, 4000), 'x'));
  if (m.nodes.begin()->first > 0) sim::count("probe.trimmed_map");
  const bool ok = gt::Tool(tool_main, {"autogenerate", "--pose_graph_filename=" + in, "--output_filename=" + out,
      "--min_covered_distance=" + Num(min_covered), "--outlier_threshold_meters=" + Num(max_m), "--outlier_threshold_radians=" + Num(max_rad)},
      gt::Faults(r, want.size() * 100), damaged);
  if (!ok) return;
  sim::count("probe.success");
  SIM_CHECK(!damaged, "groundtruth:damaged-accepted", "the tool reported success for a map that is cut short");
  const std::string got = sim::disk::content(out);
  cartographer::ground_truth::proto::GroundTruth g;
  SIM_CHECK(sim::disk::exists(out) && g.ParseFromString(got), "groundtruth:not-stored", "the tool reported success, but the file it should have written is not there or malformed");
  size_t i = 0;
  for (auto& rel : g.relation()) {
    while (i < want.size() && want[i].unsure && !(rel.timestamp1() == want[i].t1 && rel.timestamp2() == want[i].t2)) ++i;
    SIM_CHECK(i < want.size(), "groundtruth:extra", "a relation was written that the map does not support");
    const Rel& w = want[i++];
    SIM_CHECK(rel.timestamp1() == w.t1 && rel.timestamp2() == w.t2, "groundtruth:wrong", "a relation is missing, or is between other nodes than the loop closure it comes from");
    SIM_CHECK(gt::Same(gt::Get(rel.expected()), w.expected), "groundtruth:wrong", "a relation does not say what the loop closure says");
    SIM_CHECK(gt::Near(rel.covered_distance(), w.covered, 1e-6, 1e-6), "groundtruth:wrong", "the covered distance of a relation is wrong");
  }
  while (i < want.size() && want[i].unsure) ++i;
  SIM_CHECK(i == want.size(), "groundtruth:missing", "the tool reported success, but only " + std::to_string(g.relation_size()) + " of " + std::to_string(want.size()) + " relations are on disk");
  if (want.size() > 3) sim::count("probe.many_relations");
}
void Setup() {}
}  // namespace
namespace sim { const Harness kHarness = {"gtauto", Setup, Run, false}; }
