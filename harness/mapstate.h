// What a map consists of, in a form in which two maps can be compared: as seen
// through the public interface, and as found in a state file.
#ifndef HARNESS_MAPSTATE_H_
#define HARNESS_MAPSTATE_H_
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "cartographer/io/proto_stream_interface.h"
#include "cartographer/mapping/map_builder_interface.h"
#include "cartographer/mapping/pose_graph.h"
#include "cartographer/mapping/proto/serialization.pb.h"
#include "cartographer/sensor/compressed_point_cloud.h"
#include "cartographer/transform/transform.h"
#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"

namespace mapstate {
namespace carto = cartographer;
using carto::transform::Rigid3d;

// Parts of a map by name. Every part is a list of equally shaped rows, in no
// particular order, each with an exact and an approximate half.
struct Row {
  std::string exact;
  std::vector<double> num;
  bool operator<(const Row& o) const { return exact != o.exact ? exact < o.exact : num < o.num; }
};
struct State {
  std::map<std::string, std::vector<Row>> parts;
  // Trajectories with nodes or submaps, and the options they were made with.
  std::map<int, std::string> options;
  std::set<int> trajectories;
  void Add(const std::string& part, const std::string& exact, std::vector<double> num = {}) { parts[part].push_back({exact, std::move(num)}); }
  void Sort() { for (auto& p : parts) std::sort(p.second.begin(), p.second.end()); }
};

inline std::string Bytes(const google::protobuf::MessageLite& m) {
  std::string s;
  google::protobuf::io::StringOutputStream out(&s);
  google::protobuf::io::CodedOutputStream c(&out);
  c.SetSerializationDeterministic(true);
  m.SerializeToCodedStream(&c);
  c.Trim();
  return s;
}
inline void Push(std::vector<double>* v, const Rigid3d& p) {
  for (int i = 0; i < 3; ++i) v->push_back(p.translation()[i]);
  const auto& q = p.rotation();
  const double sign = q.w() < 0 || (q.w() == 0 && (q.x() < 0 || (q.x() == 0 && (q.y() < 0 || (q.y() == 0 && q.z() < 0))))) ? -1 : 1;
  for (double c : {q.w(), q.x(), q.y(), q.z()}) v->push_back(sign * c);
}
inline std::vector<double> Num(const Rigid3d& p) { std::vector<double> v; Push(&v, p); return v; }
inline std::string Id(const char* what, int t, int i) { return std::string(what) + " " + std::to_string(t) + "." + std::to_string(i); }
inline std::string Id(const char* what, int t) { return std::string(what) + " " + std::to_string(t); }

// Points are stored with a resolution of one millimetre.
inline void AddCloud(State* s, const std::string& name, const carto::sensor::PointCloud& c) {
  std::vector<double> num;
  for (int k = 0; k < 3; ++k) {
    std::vector<double> v;
    for (auto& p : c) v.push_back(p.position[k]);
    std::sort(v.begin(), v.end());
    num.insert(num.end(), v.begin(), v.end());
  }
  s->Add(name, std::to_string(c.size()), num);
}
inline void AddNode(State* s, int t, int i, const Rigid3d& global, const carto::mapping::TrajectoryNode::Data& d) {
  const std::string n = Id("node", t, i);
  std::vector<double> num = Num(global);
  s->Add("pose of " + n, "", num);
  num = Num(d.local_pose);
  Push(&num, Rigid3d::Rotation(d.gravity_alignment));
  for (int k = 0; k < d.rotational_scan_matcher_histogram.size(); ++k) num.push_back(d.rotational_scan_matcher_histogram[k]);
  s->Add(n, std::to_string(carto::common::ToUniversal(d.time)), num);
  AddCloud(s, "gravity aligned points of " + n, d.filtered_gravity_aligned_point_cloud);
  AddCloud(s, "high resolution points of " + n, d.high_resolution_point_cloud);
  AddCloud(s, "low resolution points of " + n, d.low_resolution_point_cloud);
  s->trajectories.insert(t);
}
inline void AddSubmap(State* s, int t, int i, const Rigid3d& global, carto::mapping::proto::Submap p) {
  p.clear_submap_id();
  s->Add("pose of " + Id("submap", t, i), p.has_submap_2d() ? p.submap_2d().finished() ? "finished" : "open" : p.submap_3d().finished() ? "finished" : "open", Num(global));
  std::vector<double> num;
  if (p.has_submap_2d()) Push(&num, carto::transform::ToRigid3(p.submap_2d().local_pose()));
  else Push(&num, carto::transform::ToRigid3(p.submap_3d().local_pose()));
  if (p.has_submap_2d()) p.mutable_submap_2d()->clear_local_pose();
  else {
    for (float h : p.submap_3d().rotational_scan_matcher_histogram()) num.push_back(h);
    p.mutable_submap_3d()->clear_rotational_scan_matcher_histogram();
    p.mutable_submap_3d()->clear_local_pose();
  }
  s->Add(Id("submap", t, i), Bytes(p), num);
  s->trajectories.insert(t);
}
inline void AddConstraint(State* s, int st, int si, int nt, int ni, bool intra, const Rigid3d& pose, double tw, double rw) {
  std::vector<double> num = Num(pose);
  num.push_back(tw);
  num.push_back(rw);
  s->Add("constraints of " + Id("submap", st, si) + " and " + Id("node", nt, ni), intra ? "intra" : "inter", num);
}
inline void AddLandmarkObservation(State* s, int t, const std::string& id, int64_t time, const Rigid3d& pose, double tw, double rw) {
  std::vector<double> num = Num(pose);
  num.push_back(tw);
  num.push_back(rw);
  s->Add("observations of landmark " + id, std::to_string(t) + " " + std::to_string(time), num);
}

// As seen through the public interface.
inline State Observe(carto::mapping::MapBuilderInterface* b) {
  using namespace carto::mapping;
  State s;
  auto* g = dynamic_cast<PoseGraph*>(b->pose_graph());
  for (const auto& n : g->GetTrajectoryNodes()) AddNode(&s, n.id.trajectory_id, n.id.node_index, n.data.global_pose, *n.data.constant_data);
  for (const auto& n : g->GetAllSubmapData()) AddSubmap(&s, n.id.trajectory_id, n.id.submap_index, n.data.pose, n.data.submap->ToProto(true));
  for (const auto& c : g->constraints())
    AddConstraint(&s, c.submap_id.trajectory_id, c.submap_id.submap_index, c.node_id.trajectory_id, c.node_id.node_index, c.tag == PoseGraphInterface::Constraint::INTRA_SUBMAP, c.pose.zbar_ij, c.pose.translation_weight, c.pose.rotation_weight);
  for (const auto& l : g->GetLandmarkPoses()) s.Add("pose of landmark " + l.first, "", Num(l.second));
  for (const auto& l : g->GetLandmarkNodes())
    for (const auto& o : l.second.landmark_observations)
      AddLandmarkObservation(&s, o.trajectory_id, l.first, carto::common::ToUniversal(o.time), o.landmark_to_tracking_transform, o.translation_weight, o.rotation_weight);
  for (const auto& d : g->GetTrajectoryData()) {
    std::vector<double> num = {d.second.gravity_constant};
    Push(&num, Rigid3d::Rotation(Eigen::Quaterniond(d.second.imu_calibration[0], d.second.imu_calibration[1], d.second.imu_calibration[2], d.second.imu_calibration[3])));
    if (d.second.fixed_frame_origin_in_map.has_value()) Push(&num, *d.second.fixed_frame_origin_in_map);
    s.Add(Id("data of trajectory", d.first), d.second.fixed_frame_origin_in_map.has_value() ? "fixed frame" : "", num);
  }
  const auto imu = g->GetImuData();
  for (int t : imu.trajectory_ids()) for (const auto& d : imu.trajectory(t)) s.Add(Id("IMU data of trajectory", t), Bytes(carto::sensor::ToProto(d)));
  const auto odometry = g->GetOdometryData();
  for (int t : odometry.trajectory_ids()) for (const auto& d : odometry.trajectory(t)) s.Add(Id("odometry of trajectory", t), Bytes(carto::sensor::ToProto(d)));
  const auto fixed = g->GetFixedFramePoseData();
  for (int t : fixed.trajectory_ids()) for (const auto& d : fixed.trajectory(t)) s.Add(Id("fixed frame poses of trajectory", t), Bytes(carto::sensor::ToProto(d)));
  const auto& options = b->GetAllTrajectoryBuilderOptions();
  for (int t : s.trajectories) s.options[t] = Bytes(options.at(t));
  s.Sort();
  return s;
}

// As found in a state file. Empty 'error' means that the file is consistent.
inline State Parse(carto::io::ProtoStreamReaderInterface* r, std::string* error) {
  using namespace carto::mapping;
  State s;
  proto::SerializationHeader header;
  proto::SerializedData m;
  if (!r->ReadProto(&header)) { *error = "there is no header"; return s; }
  if (!r->ReadProto(&m) || !m.has_pose_graph()) { *error = "there is no pose graph"; return s; }
  const proto::PoseGraph graph = m.pose_graph();
  m.Clear();
  if (!r->ReadProto(&m) || !m.has_all_trajectory_builder_options()) { *error = "there are no options"; return s; }
  const proto::AllTrajectoryBuilderOptions options = m.all_trajectory_builder_options();
  std::map<std::pair<int, int>, Rigid3d> nodes, submaps;
  std::set<int> listed;
  for (int i = 0; i < graph.trajectory_size(); ++i) {
    const auto& t = graph.trajectory(i);
    listed.insert(t.trajectory_id());
    s.trajectories.insert(t.trajectory_id());
    if (i >= options.options_with_sensor_ids_size()) *error = "there are no options for trajectory " + std::to_string(t.trajectory_id());
    else s.options[t.trajectory_id()] = Bytes(options.options_with_sensor_ids(i));
    for (const auto& n : t.node()) nodes[{t.trajectory_id(), n.node_index()}] = carto::transform::ToRigid3(n.pose());
    for (const auto& n : t.submap()) submaps[{t.trajectory_id(), n.submap_index()}] = carto::transform::ToRigid3(n.pose());
  }
  for (const auto& c : graph.constraint()) {
    AddConstraint(&s, c.submap_id().trajectory_id(), c.submap_id().submap_index(), c.node_id().trajectory_id(), c.node_id().node_index(), c.tag() == proto::PoseGraph::Constraint::INTRA_SUBMAP,
                  carto::transform::ToRigid3(c.relative_pose()), c.translation_weight(), c.rotation_weight());
    if (!submaps.count({c.submap_id().trajectory_id(), c.submap_id().submap_index()})) *error = "a constraint refers to a submap that is not listed";
    if (!nodes.count({c.node_id().trajectory_id(), c.node_id().node_index()})) *error = "a constraint refers to a node that is not listed";
  }
  for (const auto& l : graph.landmark_poses()) s.Add("pose of landmark " + l.landmark_id(), "", Num(carto::transform::ToRigid3(l.global_pose())));
  std::set<std::pair<int, int>> seen_nodes, seen_submaps;
  m.Clear();
  while (r->ReadProto(&m)) {
    int trajectory = -1;
    switch (m.data_case()) {
      case proto::SerializedData::kSubmap: {
        const auto& id = m.submap().submap_id();
        trajectory = id.trajectory_id();
        if (!submaps.count({id.trajectory_id(), id.submap_index()})) { *error = "submap data without a pose"; break; }
        seen_submaps.insert({id.trajectory_id(), id.submap_index()});
        AddSubmap(&s, id.trajectory_id(), id.submap_index(), submaps.at({id.trajectory_id(), id.submap_index()}), m.submap());
        break;
      }
      case proto::SerializedData::kNode: {
        const auto& id = m.node().node_id();
        trajectory = id.trajectory_id();
        if (!nodes.count({id.trajectory_id(), id.node_index()})) { *error = "node data without a pose"; break; }
        seen_nodes.insert({id.trajectory_id(), id.node_index()});
        AddNode(&s, id.trajectory_id(), id.node_index(), nodes.at({id.trajectory_id(), id.node_index()}), carto::mapping::FromProto(m.node().node_data()));
        break;
      }
      case proto::SerializedData::kTrajectoryData: {
        const auto& d = m.trajectory_data();
        trajectory = d.trajectory_id();
        std::vector<double> num = {d.gravity_constant()};
        Push(&num, Rigid3d::Rotation(carto::transform::ToEigen(d.imu_calibration())));
        if (d.has_fixed_frame_origin_in_map()) Push(&num, carto::transform::ToRigid3(d.fixed_frame_origin_in_map()));
        s.Add(Id("data of trajectory", d.trajectory_id()), d.has_fixed_frame_origin_in_map() ? "fixed frame" : "", num);
        break;
      }
      case proto::SerializedData::kImuData: trajectory = m.imu_data().trajectory_id(); s.Add(Id("IMU data of trajectory", trajectory), Bytes(m.imu_data().imu_data())); break;
      case proto::SerializedData::kOdometryData: trajectory = m.odometry_data().trajectory_id(); s.Add(Id("odometry of trajectory", trajectory), Bytes(m.odometry_data().odometry_data())); break;
      case proto::SerializedData::kFixedFramePoseData: trajectory = m.fixed_frame_pose_data().trajectory_id(); s.Add(Id("fixed frame poses of trajectory", trajectory), Bytes(m.fixed_frame_pose_data().fixed_frame_pose_data())); break;
      case proto::SerializedData::kLandmarkData: {
        trajectory = m.landmark_data().trajectory_id();
        const auto& d = m.landmark_data().landmark_data();
        for (const auto& o : d.landmark_observations())
          AddLandmarkObservation(&s, trajectory, o.id(), d.timestamp(), carto::transform::ToRigid3(o.landmark_to_tracking_transform()), o.translation_weight(), o.rotation_weight());
        break;
      }
      default: *error = "there is an unknown message";
    }
    if (!listed.count(trajectory) && error->empty()) *error = "there is data of trajectory " + std::to_string(trajectory) + ", which is not listed: " + m.ShortDebugString().substr(0, 120);
    m.Clear();
  }
  if (!r->eof()) *error = "the file is damaged";
  for (auto& n : nodes) if (!seen_nodes.count(n.first)) *error = "there is no data for " + Id("node", n.first.first, n.first.second);
  for (auto& n : submaps) if (!seen_submaps.count(n.first)) *error = "there is no data for " + Id("submap", n.first.first, n.first.second);
  s.Sort();
  return s;
}

// Renumbers trajectories; parts of trajectories that are not in 'to' are left out.
inline State Renumber(const State& s, const std::map<int, int>& to) {
  State out;
  auto one = [&](const std::string& n, bool* keep) {
    // Replaces the numbers that follow "node ", "submap " and "trajectory ".
    std::string r;
    size_t i = 0;
    while (i < n.size()) {
      bool hit = false;
      for (const char* w : {"node ", "submap ", "trajectory "}) {
        const size_t len = std::string(w).size();
        if (n.compare(i, len, w) == 0 && (i == 0 || n[i - 1] == ' ')) {
          r += w;
          i += len;
          int v = 0;
          while (i < n.size() && isdigit(n[i])) v = 10 * v + (n[i++] - '0');
          if (!to.count(v)) *keep = false;
          else r += std::to_string(to.at(v));
          hit = true;
          break;
        }
      }
      if (!hit) r += n[i++];
    }
    return r;
  };
  for (auto& p : s.parts) {
    bool keep = true;
    const std::string name = one(p.first, &keep);
    if (!keep) continue;
    if (p.first.compare(0, 16, "observations of ") == 0) {
      for (auto row : p.second) {
        const int t = std::stoi(row.exact);
        if (!to.count(t)) continue;
        row.exact = std::to_string(to.at(t)) + row.exact.substr(row.exact.find(' '));
        out.parts[name].push_back(row);
      }
    } else {
      out.parts[name] = p.second;
    }
  }
  for (auto& o : s.options) if (to.count(o.first)) out.options[to.at(o.first)] = o.second;
  for (int t : s.trajectories) if (to.count(t)) out.trajectories.insert(to.at(t));
  out.Sort();
  return out;
}

inline std::string Show(const std::vector<double>& v) {
  std::string s;
  char b[32];
  for (double d : v) { snprintf(b, sizeof b, " %.9g", d); s += b; }
  return s;
}
// The first difference, or "".
inline std::string Difference(const State& a, const State& b, double tolerance = 1e-9, double cloud_tolerance = 2e-3) {
  for (auto& p : a.parts) {
    auto it = b.parts.find(p.first);
    if (it == b.parts.end()) return p.first + ": missing";
    if (p.second.size() != it->second.size()) return p.first + ": " + std::to_string(it->second.size()) + " instead of " + std::to_string(p.second.size());
    const bool cloud = p.first.find("points of") != std::string::npos;
    for (size_t i = 0; i < p.second.size(); ++i) {
      const Row &x = p.second[i], &y = it->second[i];
      if (x.exact != y.exact) return p.first + ": " + (x.exact.size() < 80 && y.exact.size() < 80 ? "'" + y.exact + "' instead of '" + x.exact + "'" : "different contents");
      if (x.num.size() != y.num.size()) return p.first + ": another shape";
      for (size_t k = 0; k < x.num.size(); ++k) {
        const double tol = (cloud ? cloud_tolerance : tolerance) * std::max(1., std::abs(x.num[k]));
        if (!(std::abs(x.num[k] - y.num[k]) <= tol)) return p.first + ":" + Show(y.num) + " instead of" + Show(x.num);
      }
    }
  }
  for (auto& p : b.parts) if (!a.parts.count(p.first)) return p.first + ": not expected";
  if (a.trajectories != b.trajectories) {
    std::string d = "the trajectories differ:";
    for (int t : a.trajectories) d += " " + std::to_string(t);
    d += " became";
    for (int t : b.trajectories) d += " " + std::to_string(t);
    return d;
  }
  for (auto& o : a.options) if (!b.options.count(o.first) || b.options.at(o.first) != o.second) return "options of trajectory " + std::to_string(o.first) + " differ";
  if (a.options.size() != b.options.size()) return "the options differ";
  return "";
}

// Keeps the parts whose name does not start with one of 'prefixes'.
inline State Without(State s, const std::vector<std::string>& prefixes) {
  for (auto it = s.parts.begin(); it != s.parts.end();) {
    bool drop = false;
    for (auto& p : prefixes) drop |= it->first.compare(0, p.size(), p) == 0;
    it = drop ? s.parts.erase(it) : std::next(it);
  }
  return s;
}
// What is saved without unfinished submaps.
inline State WithoutOpenSubmaps(State s) {
  std::set<std::string> open;
  for (auto& p : s.parts)
    if (p.first.compare(0, 15, "pose of submap ") == 0 && p.second[0].exact == "open") open.insert(p.first.substr(8));
  for (auto it = s.parts.begin(); it != s.parts.end();) {
    bool drop = false;
    for (auto& o : open) drop |= it->first == o || it->first == "pose of " + o || it->first.compare(0, 15 + o.size() + 1, "constraints of " + o + " ") == 0;
    it = drop ? s.parts.erase(it) : std::next(it);
  }
  return s;
}
}  // namespace mapstate
#endif
