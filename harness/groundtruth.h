// Shared by the harnesses of the ground truth tools: maps, an independent
// geometry, and running a tool's main().
#ifndef VERIF_HARNESS_GROUNDTRUTH_H_
#define VERIF_HARNESS_GROUNDTRUTH_H_
#include <cmath>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "cartographer/io/proto_stream.h"
#include "cartographer/mapping/proto/pose_graph.pb.h"
#include "cartographer/mapping/proto/serialization.pb.h"
#include "sim/sim.h"

namespace gt {
// Rotation (unit quaternion) and translation, on purpose not the repository's.
struct T { double w = 1, x = 0, y = 0, z = 0, tx = 0, ty = 0, tz = 0; };
inline void Rotate(const T& a, double vx, double vy, double vz, double* o) {
  // v + 2 w (q x v) + 2 q x (q x v)
  const double cx = a.y * vz - a.z * vy, cy = a.z * vx - a.x * vz, cz = a.x * vy - a.y * vx;
  o[0] = vx + 2 * (a.w * cx + a.y * cz - a.z * cy);
  o[1] = vy + 2 * (a.w * cy + a.z * cx - a.x * cz);
  o[2] = vz + 2 * (a.w * cz + a.x * cy - a.y * cx);
}
inline T Mul(const T& a, const T& b) {
  T r;
  r.w = a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z;
  r.x = a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y;
  r.y = a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x;
  r.z = a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w;
  double o[3];
  Rotate(a, b.tx, b.ty, b.tz, o);
  r.tx = a.tx + o[0]; r.ty = a.ty + o[1]; r.tz = a.tz + o[2];
  return r;
}
inline T Inv(const T& a) {
  T r;
  r.w = a.w; r.x = -a.x; r.y = -a.y; r.z = -a.z;
  double o[3];
  Rotate(r, -a.tx, -a.ty, -a.tz, o);
  r.tx = o[0]; r.ty = o[1]; r.tz = o[2];
  return r;
}
inline double Dist(const T& a) { return std::sqrt(a.tx * a.tx + a.ty * a.ty + a.tz * a.tz); }
inline double Angle(const T& a) { return 2 * std::atan2(std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z), std::fabs(a.w)); }
inline T Between(const T& a, T b, double f) {
  double d = a.w * b.w + a.x * b.x + a.y * b.y + a.z * b.z;
  if (d < 0) { b.w = -b.w; b.x = -b.x; b.y = -b.y; b.z = -b.z; d = -d; }
  double s0 = 1 - f, s1 = f;
  if (d < 1 - 1e-12) {
    const double th = std::acos(d);
    s0 = std::sin((1 - f) * th) / std::sin(th);
    s1 = std::sin(f * th) / std::sin(th);
  }
  T r;
  r.w = s0 * a.w + s1 * b.w; r.x = s0 * a.x + s1 * b.x; r.y = s0 * a.y + s1 * b.y; r.z = s0 * a.z + s1 * b.z;
  const double n = std::sqrt(r.w * r.w + r.x * r.x + r.y * r.y + r.z * r.z);
  r.w /= n; r.x /= n; r.y /= n; r.z /= n;
  r.tx = a.tx + f * (b.tx - a.tx); r.ty = a.ty + f * (b.ty - a.ty); r.tz = a.tz + f * (b.tz - a.tz);
  return r;
}
inline T Turn(sim::Rng& r, double angle, double len) {
  double v[3], n;
  do { for (double& c : v) c = r.uniform(-1, 1); n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); } while (n < 0.1);
  const double s = std::sin(angle / 2) / n;
  T t;
  t.w = std::cos(angle / 2); t.x = v[0] * s; t.y = v[1] * s; t.z = v[2] * s;
  do { for (double& c : v) c = r.uniform(-1, 1); n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); } while (n < 0.1);
  t.tx = v[0] / n * len; t.ty = v[1] / n * len; t.tz = v[2] / n * len;
  return t;
}
template <class P> void Put(const T& t, P* p) {
  p->mutable_translation()->set_x(t.tx); p->mutable_translation()->set_y(t.ty); p->mutable_translation()->set_z(t.tz);
  p->mutable_rotation()->set_w(t.w); p->mutable_rotation()->set_x(t.x); p->mutable_rotation()->set_y(t.y); p->mutable_rotation()->set_z(t.z);
}
template <class P> T Get(const P& p) {
  T t;
  t.tx = p.translation().x(); t.ty = p.translation().y(); t.tz = p.translation().z();
  t.w = p.rotation().w(); t.x = p.rotation().x(); t.y = p.rotation().y(); t.z = p.rotation().z();
  return t;
}

struct Closure { int submap, node; T pose; bool inter; };
struct Map {
  std::map<int, T> nodes, submaps;
  std::map<int, int64_t> stamps;
  std::vector<Closure> constraints;
};

inline Map Make(sim::Rng& r, bool trimmed) {
  Map m;
  const int per = r.range(1, 5), num = r.range(1, 9);   // 'per': nodes before the next submap starts
  const int n = per * num + r.range(0, per - 1) + 1;
  // What the trimmer took away: some of the first submaps, and the nodes only they held.
  const int gone = trimmed && num > 1 ? r.range(1, num - 1) : 0;
  T pose = Turn(r, r.uniform(0, 3), r.uniform(0, 10));
  int64_t stamp = 635000000000000000ll + r.range(0, 1000) * 1000000ll;
  std::vector<Closure> intra, inter;
  std::map<int, T> submaps, nodes;
  for (int i = 0; i < n; ++i) {
    if (i) { pose = Mul(pose, Turn(r, r.uniform(0, 1), r.chance(0.1) ? 0 : r.uniform(0, 3))); stamp += 1250000ll * r.range(1, 40); }
    nodes[i] = pose;
    if (i >= gone * per) { m.nodes[i] = pose; m.stamps[i] = stamp; }
    const int s = i / per;
    if (!submaps.count(s)) submaps[s] = Mul(pose, Turn(r, r.uniform(0, 0.3), r.uniform(0, 0.5)));
    for (int k = s - 1; k <= s; ++k) {
      if (k < gone || k < 0) continue;
      intra.push_back({k, i, Mul(Inv(submaps[k]), pose), false});
    }
  }
  for (auto& s : submaps) if (s.first >= gone) m.submaps[s.first] = s.second;
  const int closures = r.range(0, 40);
  for (int c = 0; c < closures && !m.submaps.empty(); ++c) {
    auto s = m.submaps.begin(); std::advance(s, r.below(m.submaps.size()));
    auto i = m.nodes.begin(); std::advance(i, r.below(m.nodes.size()));
    const double how = r.unit();
    const T off = how < 0.3 ? T() : how < 0.7 ? Turn(r, r.uniform(0, 0.03), r.uniform(0, 0.2)) : Turn(r, r.uniform(0, 1), r.uniform(0, 2));
    inter.push_back({s->first, i->first, Mul(Mul(Inv(s->second), i->second), off), true});
  }
  // As in a map that is built: insertion constraints in order, the others whenever they were found.
  size_t a = 0, b = 0;
  while (a < intra.size() || b < inter.size()) {
    if (b == inter.size() || (a < intra.size() && r.chance(0.6))) m.constraints.push_back(intra[a++]);
    else m.constraints.push_back(inter[b++]);
  }
  return m;
}

inline void Store(const Map& m, const std::string& path) {
  cartographer::mapping::proto::SerializationHeader h;
  h.set_format_version(2);
  cartographer::mapping::proto::SerializedData d, o;
  auto* g = d.mutable_pose_graph();
  auto* t = g->add_trajectory();
  t->set_trajectory_id(0);
  for (auto& n : m.nodes) {
    auto* p = t->add_node();
    p->set_node_index(n.first);
    p->set_timestamp(m.stamps.at(n.first));
    Put(n.second, p->mutable_pose());
  }
  for (auto& s : m.submaps) {
    auto* p = t->add_submap();
    p->set_submap_index(s.first);
    Put(s.second, p->mutable_pose());
  }
  for (auto& c : m.constraints) {
    auto* p = g->add_constraint();
    p->mutable_submap_id()->set_trajectory_id(0);
    p->mutable_submap_id()->set_submap_index(c.submap);
    p->mutable_node_id()->set_trajectory_id(0);
    p->mutable_node_id()->set_node_index(c.node);
    Put(c.pose, p->mutable_relative_pose());
    p->set_tag(c.inter ? cartographer::mapping::proto::PoseGraph::Constraint::INTER_SUBMAP
                       : cartographer::mapping::proto::PoseGraph::Constraint::INTRA_SUBMAP);
  }
  o.mutable_all_trajectory_builder_options()->add_options_with_sensor_ids();
  cartographer::io::ProtoStreamWriter w(path);
  w.WriteProto(h);
  w.WriteProto(d);
  w.WriteProto(o);
  SIM_CHECK(w.Close(), "groundtruth:setup", "the map could not be stored although the disk works");
}

inline sim::disk::Plan Faults(sim::Rng& r, size_t size) {
  sim::disk::Plan p;
  switch (r.range(0, 9)) {
    case 0: case 1: case 2: break;
    case 3: p.write_error = 1; break;
    case 4: p.write_error = 0.5; break;
    case 5: p.short_write = 0.5; p.eintr = 0.3; p.short_read = 0.3; break;
    case 6: p.open_fail = 0.4; break;
    case 7: p.capacity = r.below(size + 1); break;
    case 8: p.read_error = r.chance(0.5) ? 0.3 : 0.1; p.short_read = 0.3; break;
    case 9: p.capacity = r.below(30); p.short_write = 0.5; break;
  }
  return p;
}

// Runs a tool. True if it reported success; a loud stop ends the run.
inline bool Tool(int (*tool)(int, char**), std::vector<std::string> args, const sim::disk::Plan& plan, bool damaged) {
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  sim::on_fatal([damaged](const std::string& m) {
    if (!damaged && sim::disk::errors_injected() == 0) sim::fail("groundtruth:stopped", "the tool stopped although the disk and its input were fine: " + m);
    sim::count("probe.loud_stop");
  });
  sim::disk::set_plan(plan);
  const int rc = tool(static_cast<int>(args.size()), argv.data());
  const bool errors = sim::disk::errors_injected() > 0;
  sim::disk::set_plan(sim::disk::Plan());
  sim::on_fatal([](const std::string& m) { sim::fail("groundtruth:stopped", "the program stopped: " + m); });
  SIM_CHECK(rc == 0 || errors || damaged, "groundtruth:refused", "the tool failed although the disk and its input were fine");
  if (rc != 0) sim::count("probe.reported_failure");
  return rc == 0;
}
inline bool Near(double a, double b, double rel = 1e-7, double abs = 1e-7) { return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }
inline bool Same(const T& a, const T& b) {
  const T d = Mul(Inv(a), b);
  return Dist(d) < 1e-6 && Angle(d) < 1e-6;
}
}  // namespace gt
#endif  // VERIF_HARNESS_GROUNDTRUTH_H_
