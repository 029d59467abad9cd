// C22: the tool that compares a map with ground truth, on a faulty disk.
// FLAVOR: plain
// INSTRUMENT: no
#include <glog/logging.h>
#include <gflags/gflags.h>
#include <fcntl.h>
#include <unistd.h>
#include <sstream>
#include "cartographer/ground_truth/proto/relations.pb.h"
#include "harness/groundtruth.h"
// The simulator has set up logging.
static bool quiet_logtostderr;
#define InitGoogleLogging(x) IsGoogleLoggingInitialized()
#define FLAGS_logtostderr quiet_logtostderr
// Its main() under another symbol.
int main(int argc, char** argv) __asm__("tool_main");
extern "C" int tool_main(int argc, char** argv);
#include "cartographer/ground_truth/compute_relations_metrics_main.cc"

namespace {
struct Rel { int64_t t1, t2; gt::T expected; double covered; };
struct Listener : public google::LogSink {
  std::string result;
  void send(google::LogSeverity, const char*, const char*, int, const google::LogMessageTime&, const char* message, size_t n) override {
    const std::string m(message, n);
    if (m.find("translational error") != std::string::npos) result += m;
  }
};
Listener* listener;

gt::T At(const gt::Map& m, int64_t t) {
  auto next = m.stamps.begin();
  while (next != m.stamps.end() && next->second < t) ++next;
  if (next == m.stamps.end()) return m.nodes.rbegin()->second;
  if (next == m.stamps.begin() || next->second == t) return m.nodes.at(next->first);
  auto before = std::prev(next);
  return gt::Between(m.nodes.at(before->first), m.nodes.at(next->first),
                     static_cast<double>(t - before->second) / static_cast<double>(next->second - before->second));
}
gt::T FromAngles(double roll, double pitch, double yaw) {
  gt::T x, y, z;
  x.w = std::cos(roll / 2); x.x = std::sin(roll / 2);
  y.w = std::cos(pitch / 2); y.y = std::sin(pitch / 2);
  z.w = std::cos(yaw / 2); z.z = std::sin(yaw / 2);
  return gt::Mul(z, gt::Mul(y, x));
}

void Run() {
  auto& r = sim::workload();
  const gt::Map m = gt::Make(r, r.chance(0.3));
  const bool text = r.chance(0.4), csv = r.chance(0.7);
  // Stamps are multiples of 1/8 s, so that text keeps them exactly.
  const int64_t first = m.stamps.begin()->second, span = m.stamps.rbegin()->second - first;
  std::vector<Rel> rels;
  std::string lines;
  cartographer::ground_truth::proto::GroundTruth g;
  const int n = r.chance(0.1) ? r.range(0, 1) : r.range(2, 60);
  for (int i = 0; i < n; ++i) {
    auto time = [&]() -> int64_t {
      const int64_t eighths = span / 1250000;
      return first + 1250000 * (static_cast<int64_t>(r.below(eighths + 9)) - 4);
    };
    Rel x;
    x.t1 = time(); x.t2 = time();
    const double roll = r.uniform(-1, 1), pitch = r.uniform(-1, 1), yaw = r.uniform(-3, 3), how = r.unit();
    const gt::T truth = gt::Mul(gt::Inv(At(m, x.t1)), At(m, x.t2));
    if (text) { x.expected = FromAngles(roll, pitch, yaw); x.expected.tx = r.uniform(-5, 5); x.expected.ty = r.uniform(-5, 5); x.expected.tz = r.uniform(-1, 1); }
    else x.expected = how < 0.3 ? truth : gt::Mul(truth, gt::Turn(r, r.uniform(0, 2), r.uniform(0, 3)));
    x.covered = text ? 0 : r.uniform(0, 100);
    if (!sim::op_enabled(i)) continue;
    rels.push_back(x);
    char b[400];
    // 719162 days from the year 1 to 1970, in ticks of 100 ns.
    const double u1 = (x.t1 - 719162ll * 86400 * 10000000) / 1e7, u2 = (x.t2 - 719162ll * 86400 * 10000000) / 1e7;
    snprintf(b, sizeof b, "%.3f %.3f %.15g %.15g %.15g %.15g %.15g %.15g\n", u1, u2, x.expected.tx, x.expected.ty, x.expected.tz, roll, pitch, yaw);
    lines += b;
    auto* p = g.add_relation();
    p->set_timestamp1(x.t1);
    p->set_timestamp2(x.t2);
    gt::Put(x.expected, p->mutable_expected());
    p->set_covered_distance(x.covered);
  }
  const std::string in = "/simdisk/map.pbstream", truth = "/simdisk/truth", out = in + ".relation_metrics.csv";
  gt::Store(m, in);
  std::string data = lines;
  if (!text) g.SerializeToString(&data);
  sim::disk::put(truth, data);
  sim::log_event(data);
  const int which = r.range(0, 19);
  bool damaged = rels.size() < 2;   // no deviation from one value
  if (which == 0 && !text && !rels.empty()) {
    // The last relation is cut in the middle.
    std::string one;
    g.relation(g.relation_size() - 1).SerializeToString(&one);
    if (sim::fault("truncated_file", 1)) { sim::disk::put(truth, data.substr(0, data.size() - 1 - r.below(one.size() - 1))); damaged = true; }
  } else if (which == 1) {
    if (sim::fault("file_missing", 1)) { sim::disk::remove(r.chance(0.5) ? in : truth); damaged = true; }
  } else if (which == 2 && text) {
    if (sim::fault("garbage", 1)) { sim::disk::put(truth, lines + "north by northwest\n" + lines); damaged = true; }
  }
  if (r.chance(0.3)) sim::disk::put(out, std::string(r.range(1, 9000), 'x'));
  std::vector<std::string> args = {"metrics", "--pose_graph_filename=" + in, "--relations_filename=" + truth};
  if (text) args.push_back("--read_text_file_with_unix_timestamps=true");
  if (csv) args.push_back("--write_relation_metrics=true");
  listener = new Listener;
  google::AddLogSink(listener);
  FLAGS_minloglevel = 0;
  const bool ok = gt::Tool(tool_main, args, gt::Faults(r, 120 + 120 * rels.size()), damaged);
  FLAGS_minloglevel = 3;
  google::RemoveLogSink(listener);
  if (!ok) return;
  sim::count("probe.success");
  SIM_CHECK(!damaged, "groundtruth:damaged-accepted", "the tool reported a result although its input is incomplete or missing");
  std::vector<double> e[4];
  for (auto& x : rels) {
    const gt::T error = gt::Mul(gt::Mul(gt::Inv(At(m, x.t1)), At(m, x.t2)), gt::Inv(x.expected));
    const double d = gt::Dist(error), a = gt::Angle(error) * 180 / M_PI;
    e[0].push_back(d); e[1].push_back(d * d); e[2].push_back(a); e[3].push_back(a * a);
  }
  // What was reported: four lines with mean and deviation.
  std::istringstream s(listener->result);
  std::string line;
  int found = 0;
  while (std::getline(s, line)) {
    const size_t at = line.find("+/-");
    if (at == std::string::npos) continue;
    SIM_CHECK(found < 4, "groundtruth:result", "more results than expected");
    const size_t from = line.find("error ");
    const double mean = std::stod(line.substr(from + 6)), dev = std::stod(line.substr(at + 3));
    double sum = 0, sq = 0;
    for (double v : e[found]) sum += v;
    sum /= e[found].size();
    for (double v : e[found]) sq += (v - sum) * (v - sum);
    sq = std::sqrt(sq / (e[found].size() - 1));
    SIM_CHECK(gt::Near(mean, sum, 1e-5, 1.1e-5) && gt::Near(dev, sq, 1e-5, 1.1e-5), "groundtruth:result",
              "the tool reports '" + line + "' where the errors have mean " + std::to_string(sum) + " and deviation " + std::to_string(sq));
    ++found;
  }
  SIM_CHECK(found == 4, "groundtruth:result", "the tool reported success without a result");
  if (!csv) return;
  SIM_CHECK(sim::disk::exists(out), "groundtruth:not-stored", "the tool reported success, but there is no file with the metrics");
  std::istringstream f(sim::disk::content(out));
  SIM_CHECK(static_cast<bool>(std::getline(f, line)) && line.compare(0, 20, "translational_error,") == 0, "groundtruth:not-stored", "the file with the metrics has no header");
  size_t i = 0;
  while (std::getline(f, line)) {
    SIM_CHECK(i < rels.size(), "groundtruth:not-stored", "the file with the metrics has too many lines");
    std::vector<double> v;
    std::istringstream c(line);
    std::string item;
    while (std::getline(c, item, ',')) v.push_back(atof(item.c_str()));
    SIM_CHECK(v.size() == 12, "groundtruth:not-stored", "a line of the metrics is cut: " + line);
    const gt::T& x = rels[i].expected;
    const double want[12] = {e[0][i], e[1][i], e[2][i], e[3][i], x.tx, x.ty, x.tz, x.w, x.x, x.y, x.z, rels[i].covered};
    for (int k = 0; k < 12; ++k) SIM_CHECK(gt::Near(v[k], want[k], 2e-5, 1e-5), "groundtruth:wrong-metrics",
        "relation " + std::to_string(i) + ", column " + std::to_string(k) + ": " + std::to_string(v[k]) + " where " + std::to_string(want[k]) + " is right");
    ++i;
  }
  SIM_CHECK(i == rels.size() && sim::disk::content(out).back() == '\n', "groundtruth:not-stored",
            "the tool reported success, but only " + std::to_string(i) + " of " + std::to_string(rels.size()) + " relations are in the file with the metrics");
}
void Setup() {
  // What the tool logs is listened to, not shown.
  const int null = open("/dev/null", O_WRONLY);
  dup2(null, 2);
  close(null);
}
}  // namespace
namespace sim { const Harness kHarness = {"gtmetrics", Setup, Run, false}; }
