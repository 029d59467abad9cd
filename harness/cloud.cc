// C19, C20: the map service. A MapBuilderServer with a recording map builder
// behind it, clients in front of it, and, with uplink=1, a recording server
// above it; over the simulated network.
// FLAVOR: tsan
// INSTRUMENT: yes
#include <algorithm>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "async_grpc/client.h"
#include "async_grpc/rpc_handler.h"
#include "cartographer/cloud/client/map_builder_stub.h"
#include "cartographer/cloud/internal/handlers/add_fixed_frame_pose_data_handler.h"
#include "cartographer/cloud/internal/handlers/add_imu_data_handler.h"
#include "cartographer/cloud/internal/handlers/add_landmark_data_handler.h"
#include "cartographer/cloud/internal/handlers/add_odometry_data_handler.h"
#include "cartographer/cloud/internal/handlers/add_sensor_data_batch_handler.h"
#include "cartographer/cloud/internal/handlers/add_trajectory_handler.h"
#include "cartographer/cloud/internal/handlers/delete_trajectory_handler.h"
#include "cartographer/cloud/internal/handlers/finish_trajectory_handler.h"
#include "cartographer/cloud/internal/handlers/get_trajectory_states_handler.h"
#include "cartographer/cloud/internal/handlers/load_state_handler.h"
#include "cartographer/cloud/internal/handlers/receive_global_slam_optimizations_handler.h"
#include "cartographer/cloud/internal/handlers/receive_local_slam_results_handler.h"
#include "cartographer/cloud/internal/handlers/write_state_handler.h"
#include "cartographer/cloud/internal/map_builder_server.h"
#include "cartographer/cloud/internal/sensor/serialization.h"
#include "cartographer/mapping/internal/local_slam_result_data.h"
#include "cartographer/io/proto_stream_interface.h"
#include "cartographer/io/proto_stream_deserializer.h"
#include "cartographer/io/internal/in_memory_proto_stream.h"
#include "harness/simnet.h"
#include "sim/sim.h"

using sim::Quiet;
namespace carto = cartographer;
namespace cloud = cartographer::cloud;
namespace handlers = cartographer::cloud::handlers;
namespace mapping = cartographer::mapping;
using carto::transform::Rigid3d;
using TBI = mapping::TrajectoryBuilderInterface;
using SensorId = TBI::SensorId;
using PGI = mapping::PoseGraphInterface;

namespace {
constexpr int64_t kMs = 1000000, kSec = 1000 * kMs;

struct Got { std::string sensor; std::string bytes; };
// What the map builder behind the server has seen and said. Oracle data,
// only used inside Quiet.
struct Result { int64_t stamp; int number; bool inserted; int node; std::vector<int> submaps; std::vector<int> sizes; };
struct Trajectory {
  std::string owner;             // As far as the client is concerned.
  std::vector<Got> got;
  std::vector<Result> results;
  bool finished = false, deleted = false;
  std::map<std::string, std::vector<std::string>> sent;  // Accepted by the client's side.
};
struct World {
  std::map<int, Trajectory> trajectories;
  int optimizations = 0;
  int uplink = 0;
  int submap_size = 3;
};
World* W = nullptr;

carto::common::Time Stamp(int64_t n) { return carto::common::FromUniversal(1000000 + n * 10000); }
Rigid3d PoseOf(int n) { return Rigid3d(Eigen::Vector3d(n, -n, 0.5 * n), Eigen::Quaterniond(Eigen::AngleAxisd(0.01 * (n % 100), Eigen::Vector3d::UnitZ()))); }

// ---- the map builder behind the server -------------------------------------------
class Submap : public mapping::Submap {
 public:
  explicit Submap(int ordinal) : mapping::Submap(Rigid3d::Identity()), ordinal(ordinal) {}
  mapping::proto::Submap ToProto(bool include_grid_data) const override {
    mapping::proto::Submap proto;
    auto* s = proto.mutable_submap_2d();
    *s->mutable_local_pose() = carto::transform::ToProto(Rigid3d::Translation(Eigen::Vector3d(ordinal, 0, 0)));
    s->set_num_range_data(num_range_data());
    s->set_finished(insertion_finished());
    if (include_grid_data) s->mutable_grid()->set_min_correspondence_cost(0.1f);
    return proto;
  }
  void UpdateFromProto(const mapping::proto::Submap&) override {}
  void ToResponseProto(const Rigid3d&, mapping::proto::SubmapQuery::Response*) const override {}
  const int ordinal;
};

class TrajectoryBuilder : public TBI {
 public:
  TrajectoryBuilder(int id, LocalSlamResultCallback callback) : id_(id), callback_(callback) {}
  void AddSensorData(const std::string& sensor, const carto::sensor::TimedPointCloudData& d) override {
    Record(sensor, carto::sensor::ToProto(d));
    Result(carto::common::ToUniversal(d.time));
  }
  void AddSensorData(const std::string& sensor, const carto::sensor::ImuData& d) override { Record(sensor, carto::sensor::ToProto(d)); }
  void AddSensorData(const std::string& sensor, const carto::sensor::OdometryData& d) override { Record(sensor, carto::sensor::ToProto(d)); }
  void AddSensorData(const std::string& sensor, const carto::sensor::FixedFramePoseData& d) override { Record(sensor, carto::sensor::ToProto(d)); }
  void AddSensorData(const std::string& sensor, const carto::sensor::LandmarkData& d) override { Record(sensor, carto::sensor::ToProto(d)); }
  void AddLocalSlamResultData(std::unique_ptr<mapping::LocalSlamResultData>) override { sim::fail("service:wrong-kind", "a local SLAM result arrived that nobody sent"); }

 private:
  template <typename T> void Record(const std::string& sensor, const T& proto) {
    ++count_;   // Unprotected as in the real one: the server has to serialise.
    Quiet z;
    W->trajectories[id_].got.push_back({sensor, proto.SerializeAsString()});
  }
  void Result(int64_t stamp) {
    const int n = results_++;
    std::unique_ptr<InsertionResult> insertion;
    ::Result r;
    r.stamp = stamp; r.number = n; r.inserted = n % 4 != 3; r.node = -1;
    if (r.inserted) {
      const int size = W->submap_size;
      if (submaps_.empty() || submaps_.back()->num_range_data() == size) {
        if (submaps_.size() >= 2) submaps_.erase(submaps_.begin());
        submaps_.push_back(std::make_shared<Submap>(next_submap_++));
      }
      for (auto& s : submaps_) s->set_num_range_data(s->num_range_data() + 1);
      if (submaps_.front()->num_range_data() == 2 * size) submaps_.front()->set_insertion_finished(true);
      insertion.reset(new InsertionResult{mapping::NodeId{id_, next_node_}, nullptr, {}});
      insertion->constant_data = std::make_shared<mapping::TrajectoryNode::Data>(mapping::TrajectoryNode::Data{
          carto::common::FromUniversal(stamp), Eigen::Quaterniond::Identity(), {}, {}, {}, {}, PoseOf(n)});
      for (auto& s : submaps_) insertion->insertion_submaps.push_back(s);
      r.node = next_node_++;
      for (auto& s : submaps_) { r.submaps.push_back(s->ordinal); r.sizes.push_back(s->num_range_data()); }
    }
    { Quiet z; W->trajectories[id_].results.push_back(r); }
    if (callback_) {
      carto::sensor::RangeData range;
      range.origin = Eigen::Vector3f(n, id_, 0);
      callback_(id_, carto::common::FromUniversal(stamp), PoseOf(n), range, std::move(insertion));
    }
  }
  const int id_;
  const LocalSlamResultCallback callback_;
  int count_ = 0, results_ = 0, next_node_ = 0, next_submap_ = 0;
  std::vector<std::shared_ptr<Submap>> submaps_;
};

class PoseGraph : public PGI {
 public:
  explicit PoseGraph(uint64_t seed) {
    sim::Rng r(seed);
    const int submaps = r.range(0, 4), nodes = r.range(0, 6), landmarks = r.range(0, 3), constraints = r.range(0, 5);
    const auto pose = [&r]() { return Rigid3d(Eigen::Vector3d(r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-5, 5)), Eigen::Quaterniond(Eigen::AngleAxisd(r.uniform(-3, 3), Eigen::Vector3d::UnitZ()))); };
    for (int i = 0; i < submaps; ++i) submap_poses_.Insert(mapping::SubmapId{100 + r.range(0, 1), i}, SubmapPose{r.range(0, 9), pose()});
    for (int i = 0; i < nodes; ++i) {
      mapping::TrajectoryNodePose p;
      p.global_pose = pose();
      if (r.chance(0.5)) p.constant_pose_data = mapping::TrajectoryNodePose::ConstantPoseData{Stamp(r.range(0, 999)), pose()};
      node_poses_.Insert(mapping::NodeId{100 + r.range(0, 1), i}, p);
    }
    for (int i = 0; i < landmarks; ++i) landmarks_["l" + std::to_string(i)] = pose();
    for (int i = 0; i < constraints; ++i) {
      constraints_.push_back(Constraint{mapping::SubmapId{100, i}, mapping::NodeId{101, r.range(0, 9)},
                                        Constraint::Pose{pose(), r.uniform(1, 9), r.uniform(1, 9)},
                                        r.chance(0.5) ? Constraint::INTRA_SUBMAP : Constraint::INTER_SUBMAP});
    }
    for (int i = 0; i < 4; ++i) states_[100 + i] = static_cast<TrajectoryState>(i);
    for (int i = 0; i < 3; ++i) local_to_global_[100 + i] = pose();
  }
  void RunFinalOptimization() override { Optimize(); }
  void Optimize() {
    std::thread worker([this]() { Notify(); });
    worker.join();
  }
  void Notify() {
    GlobalSlamOptimizationCallback callback;
    int n;
    { std::lock_guard<std::mutex> lock(mu_); callback = callback_; n = ++optimizations_; }
    if (callback) callback({{100, mapping::SubmapId{100, n}}}, {{100, mapping::NodeId{100, 2 * n}}});
  }
  mapping::MapById<mapping::SubmapId, SubmapPose> GetAllSubmapPoses() const override { std::lock_guard<std::mutex> lock(mu_); return submap_poses_; }
  Rigid3d GetLocalToGlobalTransform(int id) const override { std::lock_guard<std::mutex> lock(mu_); return local_to_global_.count(id) ? local_to_global_.at(id) : Rigid3d::Identity(); }
  mapping::MapById<mapping::NodeId, mapping::TrajectoryNodePose> GetTrajectoryNodePoses() const override { std::lock_guard<std::mutex> lock(mu_); return node_poses_; }
  std::map<int, TrajectoryState> GetTrajectoryStates() const override { std::lock_guard<std::mutex> lock(mu_); return states_; }
  std::map<std::string, Rigid3d> GetLandmarkPoses() const override { std::lock_guard<std::mutex> lock(mu_); return landmarks_; }
  void SetLandmarkPose(const std::string& id, const Rigid3d& pose, const bool frozen) override {
    std::lock_guard<std::mutex> lock(mu_);
    set_landmarks_[id] = {pose, frozen};
  }
  void DeleteTrajectory(int id) override {
    std::lock_guard<std::mutex> lock(mu_);
    states_[id] = TrajectoryState::DELETED;
    Quiet z;
    W->trajectories[id].deleted = true;
  }
  bool IsTrajectoryFinished(int id) const override { std::lock_guard<std::mutex> lock(mu_); return states_.count(id) && states_.at(id) == TrajectoryState::FINISHED; }
  bool IsTrajectoryFrozen(int id) const override { std::lock_guard<std::mutex> lock(mu_); return states_.count(id) && states_.at(id) == TrajectoryState::FROZEN; }
  std::vector<Constraint> constraints() const override { std::lock_guard<std::mutex> lock(mu_); return constraints_; }
  void SetGlobalSlamOptimizationCallback(GlobalSlamOptimizationCallback callback) override { std::lock_guard<std::mutex> lock(mu_); callback_ = callback; }
  void SetState(int id, TrajectoryState state) { std::lock_guard<std::mutex> lock(mu_); states_[id] = state; }
  std::map<std::string, std::pair<Rigid3d, bool>> set_landmarks() { std::lock_guard<std::mutex> lock(mu_); return set_landmarks_; }
  // Not offered remotely.
  mapping::MapById<mapping::SubmapId, SubmapData> GetAllSubmapData() const override { return {}; }
  SubmapData GetSubmapData(const mapping::SubmapId&) const override { return {}; }
  mapping::MapById<mapping::NodeId, mapping::TrajectoryNode> GetTrajectoryNodes() const override { return {}; }
  std::map<int, TrajectoryData> GetTrajectoryData() const override { return {}; }
  mapping::proto::PoseGraph ToProto(bool) const override { return {}; }

 private:
  mutable std::mutex mu_;
  GlobalSlamOptimizationCallback callback_;
  int optimizations_ = 0;
  mapping::MapById<mapping::SubmapId, SubmapPose> submap_poses_;
  mapping::MapById<mapping::NodeId, mapping::TrajectoryNodePose> node_poses_;
  std::map<std::string, Rigid3d> landmarks_;
  std::map<std::string, std::pair<Rigid3d, bool>> set_landmarks_;
  std::vector<Constraint> constraints_;
  std::map<int, TrajectoryState> states_;
  std::map<int, Rigid3d> local_to_global_;
};

std::vector<std::string>* g_stream = nullptr;   // A saved map: serialized messages, header first.

class MapBuilder : public mapping::MapBuilderInterface {
 public:
  explicit MapBuilder(uint64_t seed) : pose_graph_(seed) {}
  int AddTrajectoryBuilder(const std::set<SensorId>& sensors, const mapping::proto::TrajectoryBuilderOptions&, LocalSlamResultCallback callback) override {
    const int id = builders_.size();
    builders_.emplace_back(new TrajectoryBuilder(id, callback));
    expected_.push_back(sensors);
    pose_graph_.SetState(id, PGI::TrajectoryState::ACTIVE);
    Quiet z;
    W->trajectories[id];
    return id;
  }
  TBI* GetTrajectoryBuilder(int id) const override { return builders_.at(id).get(); }
  void FinishTrajectory(int id) override {
    ++finished_;
    pose_graph_.SetState(id, PGI::TrajectoryState::FINISHED);
    Quiet z;
    SIM_CHECK(!W->trajectories[id].finished, "service:finished-twice", "trajectory " + std::to_string(id) + " was finished twice");
    W->trajectories[id].finished = true;
  }
  std::string SubmapToProto(const mapping::SubmapId& id, mapping::proto::SubmapQuery::Response* response) override {
    if (id.submap_index > 5) return "no submap " + std::to_string(id.submap_index);
    response->set_submap_version(id.submap_index * 7 + id.trajectory_id);
    auto* t = response->add_textures();
    t->set_cells(std::string("\0\1cells", 7) + std::to_string(id.submap_index));
    t->set_width(3); t->set_height(4); t->set_resolution(0.05);
    return "";
  }
  void SerializeState(bool, carto::io::ProtoStreamWriterInterface* writer) override {
    mapping::proto::SerializationHeader header;
    for (size_t i = 0; i < g_stream->size(); ++i) {
      if (i == 0) { header.ParseFromString((*g_stream)[0]); writer->WriteProto(header); continue; }
      mapping::proto::SerializedData data;
      data.ParseFromString((*g_stream)[i]);
      writer->WriteProto(data);
    }
  }
  bool SerializeStateToFile(bool, const std::string& filename) override { return filename.find("bad") == std::string::npos; }
  std::map<int, int> LoadState(carto::io::ProtoStreamReaderInterface* reader, bool frozen) override {
    carto::io::ProtoStreamDeserializer in(reader);
    mapping::proto::SerializedData data;
    std::vector<std::string> got;
    got.push_back(in.header().SerializeAsString());
    { mapping::proto::SerializedData d; *d.mutable_pose_graph() = in.pose_graph(); got.push_back(d.SerializeAsString()); }
    { mapping::proto::SerializedData d; *d.mutable_all_trajectory_builder_options() = in.all_trajectory_builder_options(); got.push_back(d.SerializeAsString()); }
    while (in.ReadNextSerializedData(&data)) got.push_back(data.SerializeAsString());
    std::map<int, int> remapping;
    for (const auto& t : in.pose_graph().trajectory()) {
      remapping[t.trajectory_id()] = builders_.size();
      pose_graph_.SetState(builders_.size(), frozen ? PGI::TrajectoryState::FROZEN : PGI::TrajectoryState::FINISHED);
      { Quiet z; W->trajectories[builders_.size()].finished = true; }
      builders_.emplace_back(new TrajectoryBuilder(builders_.size(), nullptr));
      expected_.emplace_back();
    }
    Quiet z;
    if (sim::param("loadcut", 0) && got.size() < g_stream->size())
      sim::fail("service:cut-state-loaded", "a client that disappeared after sending " + std::to_string(got.size()) + " of " + std::to_string(g_stream->size()) + " parts of a state had it loaded as if it were complete");
    SIM_CHECK(got == *g_stream, "service:loaded-differs", "the map that reached the server's map builder is not the one the client loads");
    return remapping;
  }
  std::map<int, int> LoadStateFromFile(const std::string& filename, bool) override { return {{static_cast<int>(filename.size()), 0}}; }
  int AddTrajectoryForDeserialization(const mapping::proto::TrajectoryBuilderOptionsWithSensorIds&) override { return -1; }
  int num_trajectory_builders() const override { return builders_.size(); }
  PGI* pose_graph() override { return &pose_graph_; }
  const std::vector<mapping::proto::TrajectoryBuilderOptionsWithSensorIds>& GetAllTrajectoryBuilderOptions() const override { return options_; }
  PoseGraph* fake() { return &pose_graph_; }

 private:
  PoseGraph pose_graph_;
  std::vector<std::unique_ptr<TrajectoryBuilder>> builders_;
  std::vector<std::set<SensorId>> expected_;
  int finished_ = 0;
  std::vector<mapping::proto::TrajectoryBuilderOptionsWithSensorIds> options_;
};

// ---- the server above --------------------------------------------------------------
struct UplinkTrajectory { int local = -1; std::string client; std::set<std::string> sensors; std::vector<cloud::proto::SensorData> data; bool finished = false; bool known = true; };
struct Uplink {
  std::map<int, UplinkTrajectory> trajectories;
  int next_id = 40;
  int64_t last_batch = 0;
};
Uplink* U = nullptr;

class UplinkContext : public async_grpc::ExecutionContext {};
class UplinkAddTrajectory : public async_grpc::RpcHandler<handlers::AddTrajectorySignature> {
 public:
  void OnRequest(const cloud::proto::AddTrajectoryRequest& request) override {
    auto response = absl::make_unique<cloud::proto::AddTrajectoryResponse>();
    {
      Quiet z;
      const int id = U->next_id++;
      UplinkTrajectory& t = U->trajectories[id];
      t.client = request.client_id();
      for (const auto& s : request.expected_sensor_ids()) {
        t.sensors.insert(s.id());
        if (s.type() == cloud::proto::LOCAL_SLAM_RESULT) t.local = std::stoi(s.id().substr(s.id().rfind('_') + 1));
        SIM_CHECK(s.type() != cloud::proto::RANGE, "uplink:range-registered", "the uplink is asked to expect range data");
      }
      SIM_CHECK(t.local >= 0, "uplink:no-results-registered", "the uplink is not asked to expect local SLAM results");
      SIM_CHECK(!request.trajectory_builder_options().has_trajectory_builder_2d_options() && !request.trajectory_builder_options().has_trajectory_builder_3d_options() &&
                    !request.trajectory_builder_options().has_initial_trajectory_pose() && !request.trajectory_builder_options().has_pure_localization_trimmer(),
                "uplink:options", "the uplink is asked to do local SLAM, to start at a given pose or to trim the trajectory");
      response->set_trajectory_id(id);
      sim::note("uplink: trajectory " + std::to_string(id) + " for local " + std::to_string(t.local));
    }
    Send(std::move(response));
  }
};
class UplinkFinishTrajectory : public async_grpc::RpcHandler<handlers::FinishTrajectorySignature> {
 public:
  void OnRequest(const cloud::proto::FinishTrajectoryRequest& request) override {
    bool known = false;
    {
      Quiet z;
      auto it = U->trajectories.find(request.trajectory_id());
      if (it != U->trajectories.end() && it->second.known) {
        known = true;
        SIM_CHECK(it->second.client == request.client_id(), "uplink:wrong-client", "a trajectory is finished with another client's name");
        it->second.finished = true;
      }
    }
    if (known) Send(absl::make_unique<google::protobuf::Empty>()); else Finish(::grpc::Status(::grpc::NOT_FOUND, "Unknown trajectory"));
  }
};
class UplinkBatch : public async_grpc::RpcHandler<handlers::AddSensorDataBatchSignature> {
 public:
  void OnRequest(const cloud::proto::AddSensorDataBatchRequest& request) override {
    bool known = true;
    {
      Quiet z;
      U->last_batch = sim::now_ns();
      for (const auto& d : request.sensor_data()) {
        auto it = U->trajectories.find(d.sensor_metadata().trajectory_id());
        if (it == U->trajectories.end() || !it->second.known || it->second.client != d.sensor_metadata().client_id()) { known = false; break; }
        it->second.data.push_back(d);
        sim::note("uplink: " + std::to_string(it->first) + " gets " + d.sensor_metadata().sensor_id());
      }
      sim::count("uplink.batches");
    }
    if (known) Send(absl::make_unique<google::protobuf::Empty>()); else Finish(::grpc::Status(::grpc::NOT_FOUND, "Unknown trajectory"));
  }
};
struct UplinkServer {
  UplinkContext context;
  std::unique_ptr<simnet::ServerCore> core;
  void Start() {
    std::map<std::string, simnet::HandlerFactory> factories;
    factories[UplinkAddTrajectory::MethodName()] = []() { return std::unique_ptr<simnet::HandlerBase>(new UplinkAddTrajectory); };
    factories[UplinkFinishTrajectory::MethodName()] = []() { return std::unique_ptr<simnet::HandlerBase>(new UplinkFinishTrajectory); };
    factories[UplinkBatch::MethodName()] = []() { return std::unique_ptr<simnet::HandlerBase>(new UplinkBatch); };
    core.reset(new simnet::ServerCore("uplink", 2, factories));
    core->set_context(&context);
    core->Start();
  }
  // Kept: a client may be about to send.
  std::vector<std::unique_ptr<simnet::ServerCore>> gone;
  void Stop() { core->Shutdown(); gone.push_back(std::move(core)); }
};

// ---- clients -----------------------------------------------------------------------
// A robot's sensor data.
struct Message { int type; std::string sensor; int64_t stamp; };
const char* kSensors[] = {"range", "imu", "odom", "fixed", "landmark"};
std::set<SensorId> AllSensors() {
  return {{SensorId::SensorType::RANGE, "range"}, {SensorId::SensorType::IMU, "imu"}, {SensorId::SensorType::ODOMETRY, "odom"},
          {SensorId::SensorType::FIXED_FRAME_POSE, "fixed"}, {SensorId::SensorType::LANDMARK, "landmark"}};
}
carto::sensor::TimedPointCloudData RangeAt(int64_t n, int who) { return {Stamp(n), Eigen::Vector3f(n, who, 1), {{Eigen::Vector3f(n, 1, who), 0.f}}}; }
carto::sensor::ImuData ImuAt(int64_t n, int who) { return {Stamp(n), Eigen::Vector3d(n, who, 9.8), Eigen::Vector3d(who, 0, n)}; }
carto::sensor::OdometryData OdomAt(int64_t n, int who) { return {Stamp(n), Rigid3d::Translation(Eigen::Vector3d(n, who, 0))}; }
carto::sensor::FixedFramePoseData FixedAt(int64_t n, int who) {
  carto::sensor::FixedFramePoseData d{Stamp(n), {}};
  if (n % 3) d.pose = Rigid3d::Translation(Eigen::Vector3d(who, n, 0));
  return d;
}
carto::sensor::LandmarkData LandmarkAt(int64_t n, int who) {
  carto::sensor::LandmarkData d{Stamp(n), {}};
  for (int i = 0; i < n % 3; ++i) d.landmark_observations.push_back({"lm" + std::to_string(i + who), PoseOf(n), 1. + n, 2. + who});
  return d;
}
std::string BytesAt(int type, int64_t n, int who) {
  switch (type) {
    case 0: return carto::sensor::ToProto(RangeAt(n, who)).SerializeAsString();
    case 1: return carto::sensor::ToProto(ImuAt(n, who)).SerializeAsString();
    case 2: return carto::sensor::ToProto(OdomAt(n, who)).SerializeAsString();
    case 3: return carto::sensor::ToProto(FixedAt(n, who)).SerializeAsString();
    default: return carto::sensor::ToProto(LandmarkAt(n, who)).SerializeAsString();
  }
}
void SendTo(TBI* builder, int type, int64_t n, int who) {
  switch (type) {
    case 0: builder->AddSensorData(kSensors[0], RangeAt(n, who)); break;
    case 1: builder->AddSensorData(kSensors[1], ImuAt(n, who)); break;
    case 2: builder->AddSensorData(kSensors[2], OdomAt(n, who)); break;
    case 3: builder->AddSensorData(kSensors[3], FixedAt(n, who)); break;
    case 4: builder->AddSensorData(kSensors[4], LandmarkAt(n, who)); break;
  }
}

// The results a subscriber saw.
struct Seen { int trajectory; int64_t stamp; Rigid3d pose; Eigen::Vector3f origin; bool inserted; int node; };
void CheckSeen(const std::vector<Seen>& seen, bool complete, bool to_the_end, const std::string& who) {
  Quiet z;
  if (seen.empty()) {
    return;
  }
  const int id = seen[0].trajectory;
  const auto& results = W->trajectories[id].results;
  size_t at = 0;
  while (at < results.size() && results[at].stamp != seen[0].stamp) ++at;
  SIM_CHECK(at < results.size(), "service:invented-result", who + " got a local SLAM result nobody computed");
  if (complete) SIM_CHECK(at == 0, "service:lost-result", who + " did not get the first " + std::to_string(at) + " local SLAM results");
  for (size_t i = 0; i < seen.size(); ++i) {
    SIM_CHECK(at + i < results.size(), "service:invented-result", who + " got more local SLAM results than were computed");
    const Result& r = results[at + i];
    SIM_CHECK(seen[i].trajectory == id && seen[i].stamp == r.stamp, "service:result-order",
              who + " got the result of stamp " + std::to_string(seen[i].stamp) + " where " + std::to_string(r.stamp) + " was next");
    SIM_CHECK(seen[i].inserted == r.inserted && seen[i].node == r.node && seen[i].origin == Eigen::Vector3f(r.number, id, 0) &&
                  seen[i].pose.translation() == PoseOf(r.number).translation(),
              "service:result-content", who + " got a local SLAM result with other contents");
  }
  if (to_the_end) SIM_CHECK(at + seen.size() == results.size(), "service:lost-result",
                            who + " got " + std::to_string(seen.size()) + " results, the last " + std::to_string(results.size() - at - seen.size()) + " are missing");
}

size_t GotCount(int id) { Quiet z; return W->trajectories[id].got.size(); }

void CheckData(int id, int who, bool all) {
  Quiet z;
  Trajectory& t = W->trajectories[id];
  std::map<std::string, std::vector<std::string>> got;
  for (auto& g : t.got) got[g.sensor].push_back(g.bytes);
  for (auto& entry : got) SIM_CHECK(t.sent.count(entry.first), "service:invented-data", "data of sensor " + entry.first + " that was never sent");
  for (auto& entry : t.sent) {
    const auto& g = got[entry.first];
    SIM_CHECK(g.size() <= entry.second.size(), "service:duplicate-data",
              "sensor " + entry.first + " of client " + std::to_string(who) + " sent " + std::to_string(entry.second.size()) + " messages, " + std::to_string(g.size()) + " arrived");
    for (size_t i = 0; i < g.size(); ++i) SIM_CHECK(g[i] == entry.second[i], "service:data-order", "message " + std::to_string(i) + " of sensor " + entry.first + " is not the one sent as number " + std::to_string(i));
    if (all) SIM_CHECK(g.size() == entry.second.size(), "service:lost-data", "sensor " + entry.first + ": " + std::to_string(entry.second.size()) + " messages sent, " + std::to_string(g.size()) + " arrived");
  }
}

class Collect : public carto::io::ProtoStreamWriterInterface {
 public:
  std::vector<std::string> got;
  void WriteProto(const google::protobuf::Message& m) override { got.push_back(m.SerializeAsString()); }
  bool Close() override { return true; }
};

void Query(mapping::MapBuilderInterface* stub, MapBuilder* fake, sim::Rng* rng, int my_id) {
  PGI* const remote = stub->pose_graph();
  PoseGraph* const local = fake->fake();
  switch (rng->below(11)) {
    case 0: {
      const auto a = remote->GetAllSubmapPoses(), b = local->GetAllSubmapPoses();
      Quiet z;
      SIM_CHECK(a.size() == b.size(), "service:answer", "submap poses: other number of submaps");
      for (const auto& e : b) {
        SIM_CHECK(a.Contains(e.id), "service:answer", "submap poses: one is missing");
        SIM_CHECK(a.at(e.id).version == e.data.version && (a.at(e.id).pose.translation() - e.data.pose.translation()).norm() == 0, "service:answer", "submap poses: other pose or version");
      }
      break;
    }
    case 1: {
      const auto a = remote->GetTrajectoryNodePoses(), b = local->GetTrajectoryNodePoses();
      Quiet z;
      SIM_CHECK(a.size() == b.size(), "service:answer", "node poses: other number of nodes");
      for (const auto& e : b) {
        SIM_CHECK(a.Contains(e.id), "service:answer", "node poses: one is missing");
        const auto& x = a.at(e.id);
        SIM_CHECK(x.global_pose.translation() == e.data.global_pose.translation() && x.constant_pose_data.has_value() == e.data.constant_pose_data.has_value(), "service:answer", "node poses: other pose");
        if (x.constant_pose_data.has_value())
          SIM_CHECK(x.constant_pose_data->time == e.data.constant_pose_data->time && x.constant_pose_data->local_pose.translation() == e.data.constant_pose_data->local_pose.translation(), "service:answer", "node poses: other time or local pose");
      }
      break;
    }
    case 2: {
      const auto a = remote->GetLandmarkPoses(), b = local->GetLandmarkPoses();
      Quiet z;
      SIM_CHECK(a.size() == b.size(), "service:answer", "landmark poses: other number");
      for (const auto& e : b) SIM_CHECK(a.count(e.first) && a.at(e.first).translation() == e.second.translation(), "service:answer", "landmark poses differ");
      break;
    }
    case 3: {
      const auto a = remote->constraints(), b = local->constraints();
      Quiet z;
      SIM_CHECK(a.size() == b.size(), "service:answer", "constraints: other number");
      for (size_t i = 0; i < b.size(); ++i)
        SIM_CHECK(a[i].submap_id == b[i].submap_id && a[i].node_id == b[i].node_id && a[i].tag == b[i].tag && a[i].pose.translation_weight == b[i].pose.translation_weight &&
                      a[i].pose.rotation_weight == b[i].pose.rotation_weight && a[i].pose.zbar_ij.translation() == b[i].pose.zbar_ij.translation(), "service:answer", "constraints differ");
      break;
    }
    case 4: {
      const auto a = remote->GetTrajectoryStates();
      Quiet z;
      for (int i = 0; i < 4; ++i) SIM_CHECK(a.count(100 + i) && a.at(100 + i) == static_cast<PGI::TrajectoryState>(i), "service:answer", "trajectory states differ");
      SIM_CHECK(a.count(my_id) && a.at(my_id) == PGI::TrajectoryState::ACTIVE, "service:answer", "the client's own trajectory is not active");
      break;
    }
    case 5: {
      const int id = 100 + rng->below(4);
      const Rigid3d a = remote->GetLocalToGlobalTransform(id);
      SIM_CHECK(a.translation() == local->GetLocalToGlobalTransform(id).translation(), "service:answer", "local to global transform differs");
      break;
    }
    case 6: {
      const int id = 100 + rng->below(4);
      const bool finished = remote->IsTrajectoryFinished(id), frozen = remote->IsTrajectoryFrozen(id);
      SIM_CHECK(finished == (id == 101) && frozen == (id == 102), "service:answer", "finished or frozen differ");
      break;
    }
    case 7: {
      const mapping::SubmapId id{static_cast<int>(rng->below(3)), static_cast<int>(rng->below(9))};
      mapping::proto::SubmapQuery::Response a, b;
      const std::string ea = stub->SubmapToProto(id, &a), eb = fake->SubmapToProto(id, &b);
      Quiet z;
      SIM_CHECK(ea == eb && (!eb.empty() || a.SerializeAsString() == b.SerializeAsString()), "service:answer", "submap query differs");
      break;
    }
    case 8: {
      const bool frozen = rng->chance(0.5);
      const std::string name = "set" + std::to_string(my_id);
      const Rigid3d pose = PoseOf(rng->range(1, 50));
      remote->SetLandmarkPose(name, pose, frozen);
      const auto set = local->set_landmarks();
      Quiet z;
      SIM_CHECK(set.count(name) && set.at(name).first.translation() == pose.translation(), "service:landmark", "the landmark's pose is not the one set");
      SIM_CHECK(set.at(name).second == frozen, "service:landmark-frozen", frozen ? "the landmark should be frozen" : "the landmark should not be frozen");
      break;
    }
    case 9: {
      Collect c;
      stub->SerializeState(false, &c);
      Quiet z;
      SIM_CHECK(c.got == *g_stream, "service:saved-differs", "the saved map is not the server's");
      break;
    }
    case 10: {
      const bool bad = rng->chance(0.3);
      const bool ok = stub->SerializeStateToFile(false, bad ? "/x/bad" : "/x/good");
      SIM_CHECK(ok == !bad, "service:answer", "SerializeStateToFile differs");
      break;
    }
  }
}

cloud::proto::MapBuilderServerOptions Options(const char* address, const char* uplink, int threads, int batch) {
  cloud::proto::MapBuilderServerOptions options;
  options.set_server_address(address);
  options.set_uplink_server_address(uplink);
  options.set_num_event_threads(threads);
  options.set_num_grpc_threads(1);
  options.set_upload_batch_size(batch);
  options.mutable_map_builder_options()->set_use_trajectory_builder_2d(true);
  return options;
}

TBI::LocalSlamResultCallback Into(std::vector<Seen>* seen) {
  return [seen](int id, carto::common::Time time, Rigid3d pose, carto::sensor::RangeData range, std::unique_ptr<const TBI::InsertionResult> insertion) {
    Quiet z;
    seen->push_back({id, carto::common::ToUniversal(time), pose, range.origin, insertion != nullptr, insertion ? insertion->node_id.node_index : -1});
    if (insertion) SIM_CHECK(insertion->node_id.trajectory_id == id, "service:result-content", "the node belongs to another trajectory");
  };
}

struct RobotPlan { int who; int messages; double range_share; int64_t gap_ms; bool subscribe; bool settle; int op; uint64_t seed; double query; };

// A robot that behaves: one client through the stubs.
void Robot(const RobotPlan& plan, MapBuilder* fake) {
  sim::Rng rng(plan.seed);
  const std::string name = "robot" + std::to_string(plan.who);
  cloud::MapBuilderStub stub("server", name);
  const int channel = simnet::my_channel();
  std::vector<Seen> seen;
  mapping::proto::TrajectoryBuilderOptions options;
  options.mutable_trajectory_builder_2d_options();
  options.mutable_initial_trajectory_pose()->set_to_trajectory_id(100);
  const int id = stub.AddTrajectoryBuilder(AllSensors(), options, plan.subscribe ? Into(&seen) : nullptr);
  {
    Quiet z;
    Trajectory& t = W->trajectories[id];
    SIM_CHECK(t.owner == "", "service:trajectory-shared", "two clients were given the same trajectory");
    t.owner = name;
  }
  // The subscription is made behind the client's back.
  if (plan.settle && plan.subscribe) while (simnet::handled(channel, "ReceiveLocalSlamResults") == 0) sim::sleep_ns(50 * kMs);
  TBI* const builder = stub.GetTrajectoryBuilder(id);
  size_t sent = 0;
  for (int i = 0; i < plan.messages; ++i) {
    const int type = rng.chance(plan.range_share) ? 0 : rng.range(1, 4);
    const int64_t gap = rng.below(2 * plan.gap_ms * kMs + 1);
    const bool query = rng.chance(plan.query);
    const uint64_t query_seed = rng.next();
    if (!sim::op_enabled(plan.op + i)) continue;
    { Quiet z; W->trajectories[id].sent[kSensors[type]].push_back(BytesAt(type, i, plan.who)); }
    SendTo(builder, type, i, plan.who);
    ++sent;
    if (gap) sim::sleep_ns(gap);
    if (query) { sim::Rng q(query_seed); Query(&stub, fake, &q, id); }
  }
  // Finish once everything was processed.
  for (int i = 0; GotCount(id) < sent; ++i) {
    SIM_CHECK(i < 600, "service:lost-data", std::to_string(sent) + " messages were sent, " + std::to_string(GotCount(id)) + " reached the trajectory builder within a minute");
    sim::sleep_ns(100 * kMs);
  }
  stub.FinishTrajectory(id);
  {
    Quiet z;
    SIM_CHECK(W->trajectories[id].finished, "service:not-finished", "the client finished its trajectory, the server did not");
    SIM_CHECK(!W->trajectories[id].deleted, "service:foreign-delete", "another client deleted the trajectory");
  }
  CheckData(id, plan.who, true);
  CheckSeen(seen, plan.settle, true, name);
  if (plan.subscribe && plan.settle) { Quiet z; SIM_CHECK(seen.size() == W->trajectories[id].results.size(), "service:lost-result", name + " got " + std::to_string(seen.size()) + " of " + std::to_string(W->trajectories[id].results.size()) + " results"); }
  SIM_CHECK(stub.GetTrajectoryBuilder(id) == nullptr, "service:answer", "a finished trajectory still has a builder");
  sim::count("robots.done");
}

bool stopping = false;
// The server says so; or it is not there any more.
bool Refused(const ::grpc::Status& s) {
  Quiet z;
  return s.error_code() == ::grpc::NOT_FOUND || (stopping && s.error_code() == ::grpc::UNAVAILABLE);
}

// A client that is gone at some point.
void Vanisher(int who, uint64_t seed, int op, int* alive) {
  sim::Rng rng(seed);
  const std::string name = "vanisher" + std::to_string(who);
  for (int round = 0; round < 6; ++round) {
    const int kind = rng.below(7), n = rng.range(1, 6), target = rng.below(4), cut = rng.below(7);
    const int64_t timeout = (1 + rng.below(rng.chance(0.3) ? 20 : 3000)) * kMs, pause = rng.below(500) * kMs;
    if (!sim::op_enabled(op + round)) continue;
    auto channel = ::grpc::CreateChannel("server", ::grpc::InsecureChannelCredentials());
    const auto deadline = carto::common::FromSeconds(timeout * 1e-9);
    switch (kind) {
      case 0: case 1: {
        async_grpc::Client<handlers::ReceiveLocalSlamResultsSignature> client(channel, deadline);
        cloud::proto::ReceiveLocalSlamResultsRequest request;
        request.set_trajectory_id(target);
        client.Write(request);
        std::vector<Seen> seen;
        cloud::proto::ReceiveLocalSlamResultsResponse r;
        for (int i = 0; i < cut && client.StreamRead(&r); ++i) {
          seen.push_back({r.trajectory_id(), r.timestamp(), carto::transform::ToRigid3(r.local_pose()), carto::transform::ToEigen(r.range_data().origin()), r.has_insertion_result(),
                          r.has_insertion_result() ? r.insertion_result().node_id().node_index() : -1});
        }
        { Quiet z; for (auto& s : seen) SIM_CHECK(s.trajectory == target, "service:result-order", "a subscriber of one trajectory gets another's results"); }
        CheckSeen(seen, false, false, name);
        break;
      }
      case 2: {
        async_grpc::Client<handlers::ReceiveGlobalSlamOptimizationsSignature> client(channel, deadline);
        client.Write(google::protobuf::Empty());
        cloud::proto::ReceiveGlobalSlamOptimizationsResponse r;
        int last = -1;
        for (int i = 0; i < cut && client.StreamRead(&r); ++i) {
          const int k = r.last_optimized_submap_ids().at(100).submap_index();
          SIM_CHECK(r.last_optimized_node_ids().at(100).node_index() == 2 * k, "service:optimization-content", "an optimization was announced with other contents");
          last = std::max(last, k);
        }
        break;
      }
      case 3: {
        cloud::proto::AddTrajectoryRequest request;
        request.set_client_id(name);
        *request.add_expected_sensor_ids() = cloud::ToProto(SensorId{SensorId::SensorType::IMU, "imu"});
        async_grpc::Client<handlers::AddTrajectorySignature> add(channel, deadline);
        if (!add.Write(request)) break;
        const int id = add.response().trajectory_id();
        { Quiet z; SIM_CHECK(W->trajectories[id].owner == "", "service:trajectory-shared", "two clients were given the same trajectory"); W->trajectories[id].owner = name; }
        if (n % 2 == 0) {
          // In batches.
          for (int i = 0; i < n; i += 2) {
            cloud::proto::AddSensorDataBatchRequest batch;
            for (int k = i; k < i + 2; ++k) {
              auto* d = batch.add_sensor_data();
              cloud::CreateSensorMetadata(kSensors[1 + k % 4], id, name, d->mutable_sensor_metadata());
              switch (1 + k % 4) {
                case 1: *d->mutable_imu_data() = carto::sensor::ToProto(ImuAt(k, 1000 + who)); break;
                case 2: *d->mutable_odometry_data() = carto::sensor::ToProto(OdomAt(k, 1000 + who)); break;
                case 3: *d->mutable_fixed_frame_pose_data() = carto::sensor::ToProto(FixedAt(k, 1000 + who)); break;
                default: *d->mutable_landmark_data() = carto::sensor::ToProto(LandmarkAt(k, 1000 + who)); break;
              }
              Quiet z;
              W->trajectories[id].sent[kSensors[1 + k % 4]].push_back(BytesAt(1 + k % 4, k, 1000 + who));
            }
            async_grpc::Client<handlers::AddSensorDataBatchSignature> client(channel);
            ::grpc::Status status;
            client.Write(batch, &status);
            Quiet z;
            SIM_CHECK(status.ok() || stopping, "service:refused", "a client's own batch was refused");
            if (!status.ok()) break;
          }
        } else {
          async_grpc::Client<handlers::AddImuDataSignature> client(channel);
          for (int i = 0; i < n; ++i) {
            { Quiet z; W->trajectories[id].sent["imu"].push_back(BytesAt(1, i, 1000 + who)); }
            cloud::proto::AddImuDataRequest data;
            cloud::CreateAddImuDataRequest("imu", id, name, carto::sensor::ToProto(ImuAt(i, 1000 + who)), &data);
            if (!client.Write(data)) break;
            if (i % 2) sim::sleep_ns(pause / 10);
          }
          sim::sleep_ns(pause);
          if (cut < 2) { client.StreamWritesDone(); const ::grpc::Status status = client.StreamFinish(); Quiet z; SIM_CHECK(status.ok() || stopping, "service:refused", "a client's own data was refused"); }
        }
        break;
      }
      case 4: {   // Somebody else's trajectory.
        bool exists;
        { Quiet z; exists = W->trajectories.count(target) && W->trajectories[target].owner != "" && W->trajectories[target].owner != name; }
        const int id = exists ? target : 7777;
        { async_grpc::Client<handlers::FinishTrajectorySignature> client(channel);
          cloud::proto::FinishTrajectoryRequest request; request.set_client_id(name); request.set_trajectory_id(id);
          ::grpc::Status status; client.Write(request, &status);
          SIM_CHECK(Refused(status), "service:foreign-finish", "finishing another client's trajectory was not refused"); }
        { async_grpc::Client<handlers::DeleteTrajectorySignature> client(channel);
          cloud::proto::DeleteTrajectoryRequest request; request.set_client_id(name); request.set_trajectory_id(id);
          ::grpc::Status status; client.Write(request, &status);
          SIM_CHECK(Refused(status), "service:foreign-delete", "deleting another client's trajectory was not refused"); }
        { async_grpc::Client<handlers::AddOdometryDataSignature> client(channel);
          cloud::proto::AddOdometryDataRequest data;
          cloud::CreateAddOdometryDataRequest("odom", id, name, carto::sensor::ToProto(OdomAt(5, 2000 + who)), &data);
          client.Write(data); client.StreamWritesDone();
          SIM_CHECK(Refused(client.StreamFinish()), "service:foreign-data", "data for another client's trajectory was not refused"); }
        { async_grpc::Client<handlers::AddSensorDataBatchSignature> client(channel);
          cloud::proto::AddSensorDataBatchRequest batch;
          auto* d = batch.add_sensor_data();
          cloud::CreateSensorMetadata("imu", id, name, d->mutable_sensor_metadata());
          *d->mutable_imu_data() = carto::sensor::ToProto(ImuAt(6, 2000 + who));
          ::grpc::Status status; client.Write(batch, &status);
          SIM_CHECK(Refused(status), "service:foreign-data", "data for another client's trajectory was not refused"); }
        break;
      }
      case 5: {
        async_grpc::Client<handlers::WriteStateSignature> client(channel, deadline);
        client.Write(google::protobuf::Empty());
        cloud::proto::WriteStateResponse r;
        for (int i = 0; i < cut && client.StreamRead(&r); ++i) {}
        break;
      }
      case 6: {
        async_grpc::Client<handlers::GetTrajectoryStatesSignature> client(channel, deadline);
        client.Write(google::protobuf::Empty());
        break;
      }
    }
    sim::count("fault.client-gone");
    sim::sleep_ns(pause);
  }
  Quiet z;
  --*alive;
}

void CheckUplink(const std::map<int, int>& who_of) {
  Quiet z;
  // Everything that went up, by local trajectory and sensor, over all uplink
  // trajectories: at most once and in order.
  for (auto& local : W->trajectories) {
    std::map<std::string, std::vector<std::string>> up;
    std::vector<int64_t> result_stamps;
    for (auto& entry : U->trajectories) {
      if (entry.second.local != local.first) continue;
      SIM_CHECK(entry.second.client == local.second.owner, "uplink:wrong-client", "the trajectory is registered for another client");
      std::map<int, int> index_of, ordinal_of;
      for (auto& d : entry.second.data) {
        const std::string& sensor = d.sensor_metadata().sensor_id();
        SIM_CHECK(entry.second.sensors.count(sensor), "uplink:unexpected-sensor", "data of sensor " + sensor + " that was not announced");
        switch (d.sensor_data_case()) {
          case cloud::proto::SensorData::kImuData: up[sensor].push_back(d.imu_data().SerializeAsString()); break;
          case cloud::proto::SensorData::kOdometryData: up[sensor].push_back(d.odometry_data().SerializeAsString()); break;
          case cloud::proto::SensorData::kFixedFramePoseData: up[sensor].push_back(d.fixed_frame_pose_data().SerializeAsString()); break;
          case cloud::proto::SensorData::kLandmarkData: up[sensor].push_back(d.landmark_data().SerializeAsString()); break;
          case cloud::proto::SensorData::kLocalSlamResultData: {
            const auto& r = d.local_slam_result_data();
            result_stamps.push_back(r.timestamp());
            const Result* result = nullptr;
            for (auto& x : local.second.results) if (x.stamp == r.timestamp()) result = &x;
            SIM_CHECK(result != nullptr && result->inserted, "uplink:invented", "a local SLAM result went up that was not inserted");
            SIM_CHECK(r.submaps_size() == static_cast<int>(result->submaps.size()), "uplink:submaps", "a result went up with another number of submaps");
            for (int i = 0; i < r.submaps_size(); ++i) {
              const auto& s = r.submaps(i);
              const int ordinal = result->submaps[i];
              SIM_CHECK(s.submap_id().trajectory_id() == entry.first, "uplink:submap-trajectory", "a submap went up with the id of another trajectory");
              SIM_CHECK(s.submap_2d().num_range_data() == result->sizes[i] && s.submap_2d().local_pose().translation().x() == ordinal, "uplink:submaps", "a submap went up with other contents");
              const int index = s.submap_id().submap_index();
              if (index_of.count(ordinal)) SIM_CHECK(index_of[ordinal] == index, "uplink:submap-index",
                  "local trajectory " + std::to_string(local.first) + ": its submap " + std::to_string(ordinal) + " went up as " + std::to_string(index_of[ordinal]) + " and as " + std::to_string(index));
              if (ordinal_of.count(index)) SIM_CHECK(ordinal_of[index] == ordinal, "uplink:submap-index",
                  "local trajectory " + std::to_string(local.first) + ": its submaps " + std::to_string(ordinal_of[index]) + " and " + std::to_string(ordinal) + " both went up as " + std::to_string(index));
              index_of[ordinal] = index;
              ordinal_of[index] = ordinal;
            }
            break;
          }
          default: sim::fail("uplink:kind", "unexpected data went up");
        }
      }
      // A new uplink trajectory starts with a new submap. (With several
      // trajectories only the one does that ended the recovery.)
      if (who_of.size() == 1) for (auto& d : entry.second.data) if (d.has_local_slam_result_data()) {
        const auto& r = d.local_slam_result_data();
        SIM_CHECK(r.submaps(r.submaps_size() - 1).submap_2d().num_range_data() == 1, "uplink:starts-inside-submap", "uplink trajectory " + std::to_string(entry.first) + " starts inside a submap");
        break;
      }
      // Within one uplink trajectory the results have no gap: the uplink could
      // not continue its submaps after one.
      std::vector<int> inserted;
      for (auto& d : entry.second.data) if (d.has_local_slam_result_data()) {
        for (auto& x : local.second.results) if (x.stamp == d.local_slam_result_data().timestamp()) inserted.push_back(x.node);
      }
      for (size_t i = 1; i < inserted.size(); ++i) SIM_CHECK(inserted[i] == inserted[i - 1] + 1, "uplink:gap",
          "uplink trajectory " + std::to_string(entry.first) + " got node " + std::to_string(inserted[i]) + " after node " + std::to_string(inserted[i - 1]));
    }
    for (size_t i = 1; i < result_stamps.size(); ++i)
      SIM_CHECK(result_stamps[i] > result_stamps[i - 1], "uplink:order", "local SLAM results went up twice or out of order");
    for (auto& entry : up) {
      const auto& sent = local.second.sent[entry.first];
      size_t at = 0;
      for (auto& bytes : entry.second) {
        while (at < sent.size() && sent[at] != bytes) ++at;
        SIM_CHECK(at < sent.size(), "uplink:order", "data of sensor " + entry.first + " went up twice, out of order or changed");
        ++at;
      }
    }
  }
}

void MakeStream(sim::Rng* rng) {
  g_stream = new std::vector<std::string>;
  mapping::proto::SerializationHeader header;
  header.set_format_version(2);
  g_stream->push_back(header.SerializeAsString());
  mapping::proto::SerializedData d;
  const int trajectories = rng->range(1, 2);
  for (int i = 0; i < trajectories; ++i) d.mutable_pose_graph()->add_trajectory()->set_trajectory_id(i);
  g_stream->push_back(d.SerializeAsString());
  d.Clear();
  for (int i = 0; i < trajectories; ++i) d.mutable_all_trajectory_builder_options()->add_options_with_sensor_ids();
  g_stream->push_back(d.SerializeAsString());
  const int n = rng->range(0, 8);
  for (int i = 0; i < n; ++i) {
    d.Clear();
    switch (rng->below(4)) {
      case 0: d.mutable_submap()->mutable_submap_id()->set_submap_index(i); break;
      case 1: d.mutable_node()->mutable_node_id()->set_node_index(i); break;
      case 2: d.mutable_imu_data()->mutable_imu_data()->set_timestamp(i + 1); break;
      case 3: d.mutable_landmark_data()->mutable_landmark_data()->set_timestamp(i + 1); break;
    }
    g_stream->push_back(d.SerializeAsString());
  }
}

void RunService() {
  sim::Rng& rng = sim::workload();
  const int robots = rng.range(1, 3), vanishers = rng.range(0, 3), threads = rng.range(1, 4), optimizations = rng.range(0, 6);
  simnet::config().delay = rng.chance(0.5) ? rng.uniform(0, 0.5) : 0;
  simnet::config().max_delay_ns = (1 + rng.below(300)) * kMs;
  W->submap_size = rng.range(1, 3);
  auto builder = absl::make_unique<MapBuilder>(rng.next());
  MapBuilder* const fake = builder.get();
  const bool early_stop = rng.chance(0.15), load = rng.chance(0.3);
  std::vector<RobotPlan> plans;
  for (int i = 0; i < robots; ++i)
    plans.push_back({i, rng.range(0, 14), rng.uniform(0.2, 0.8), static_cast<int64_t>(rng.below(3) ? rng.below(300) : 0), rng.chance(0.7), rng.chance(0.5), 100 * i, rng.next(), rng.chance(0.6) ? 0.3 : 0});
  std::vector<uint64_t> seeds;
  for (int i = 0; i < vanishers; ++i) seeds.push_back(rng.next());
  const int64_t stop_after = rng.below(4000) * kMs;
  const uint64_t opt_seed = rng.next();
  int alive = vanishers;
  std::unique_ptr<cloud::MapBuilderServer> server(new cloud::MapBuilderServer(Options("server", "", threads, 1), std::move(builder)));
  server->Start();
  std::vector<int> clients, others;
  for (int i = 0; i < vanishers; ++i) others.push_back(sim::spawn([&, i]() { Vanisher(i, seeds[i], 1000 + 20 * i, &alive); }, "vanisher"));
  if (!early_stop) for (auto& plan : plans) clients.push_back(sim::spawn([&plan, fake]() { Robot(plan, fake); }, "robot"));
  others.push_back(sim::spawn([&]() {
    sim::Rng r(opt_seed);
    for (int i = 0; i < optimizations; ++i) { const int64_t gap = r.below(800) * kMs; if (!sim::op_enabled(2000 + i)) continue; sim::sleep_ns(gap); fake->fake()->Optimize(); }
  }, "optimizer"));
  const int cut = rng.below(g_stream->size());
  if (load && sim::param("loadcut", 0)) {
    sim::count("fault.client-gone");
    auto channel = ::grpc::CreateChannel("server", ::grpc::InsecureChannelCredentials());
    async_grpc::Client<handlers::LoadStateSignature> client(channel);
    cloud::proto::LoadStateRequest request;
    request.set_client_id("loader");
    client.Write(request);
    for (int i = 0; i < cut; ++i) {
      if (i == 0) request.mutable_serialization_header()->ParseFromString((*g_stream)[0]);
      else request.mutable_serialized_data()->ParseFromString((*g_stream)[i]);
      client.Write(request);
    }
  } else if (load && !early_stop) {
    cloud::MapBuilderStub stub("server", "loader");
    carto::io::InMemoryProtoStreamReader reader([&]() {
      std::queue<std::unique_ptr<google::protobuf::Message>> q;
      for (size_t i = 0; i < g_stream->size(); ++i) {
        if (i == 0) { auto h = absl::make_unique<mapping::proto::SerializationHeader>(); h->ParseFromString((*g_stream)[0]); q.push(std::move(h)); }
        else { auto s = absl::make_unique<mapping::proto::SerializedData>(); s->ParseFromString((*g_stream)[i]); q.push(std::move(s)); }
      }
      return q;
    }());
    const auto remapping = stub.LoadState(&reader, true);
    for (auto& entry : remapping) {
      SIM_CHECK(stub.pose_graph()->IsTrajectoryFrozen(entry.second), "service:load-frozen", "a trajectory loaded as frozen is not");
    }
    Quiet z;
    for (auto& entry : remapping) W->trajectories[entry.second].owner = "loader";
    SIM_CHECK(!remapping.empty(), "service:answer", "LoadState reports no trajectories");
  }
  if (early_stop) sim::sleep_ns(stop_after); else for (int h : clients) sim::join(h);
  if (early_stop) sim::count("probe.early-stop");
  { Quiet z; stopping = true; }
  const int64_t t0 = sim::now_ns();
  server->Shutdown();
  SIM_CHECK(sim::now_ns() - t0 < 30 * kSec, "service:slow-shutdown", "the server took " + std::to_string((sim::now_ns() - t0) / kSec) + " s to shut down");
  for (int h : others) sim::join(h);
  server.reset();
  Quiet z;
  for (auto& t : W->trajectories) if (t.second.owner.find("vanisher") == 0) CheckData(t.first, 0, false);
}

void RunUplink() {
  sim::Rng& rng = sim::workload();
  const int robots = rng.range(1, 3), threads = rng.range(1, 3), batch = rng.pick(std::vector<int>{1, 1, 2, 3, 7});
  W->uplink = 1;
  W->submap_size = rng.range(1, 3);
  const bool calm = rng.chance(0.15);
  const double delay = calm ? 0 : rng.chance(0.5) ? rng.uniform(0, 0.3) : 0, brk = calm ? 0 : rng.chance(0.5) ? rng.uniform(0, 0.1) : 0;
  simnet::config().fragile = "uplink";
  simnet::config().max_delay_ns = rng.chance(0.3) ? 20 * kSec : rng.below(2000) * kMs;
  simnet::config().max_down_ns = (rng.chance(0.2) ? 150 : rng.chance(0.5) ? 20 : 1) * kSec;
  struct Cut { int64_t wait, down; bool restart; };
  std::vector<Cut> cuts;
  const int n = calm ? 0 : rng.range(0, 4);
  for (int i = 0; i < n; ++i) cuts.push_back({static_cast<int64_t>(rng.below(20000)) * kMs, static_cast<int64_t>(rng.below(rng.chance(0.25) ? 150000 : 5000)) * kMs, rng.chance(0.5)});
  const bool down_at_start = !calm && rng.chance(0.15), abrupt = !calm && rng.chance(0.2), dead_end = rng.chance(0.5);
  struct R { int messages; double share; int64_t gap; uint64_t seed; int64_t start; };
  std::vector<R> rs;
  for (int i = 0; i < robots; ++i) rs.push_back({rng.range(5, 40), rng.uniform(0.3, 0.9), static_cast<int64_t>(rng.below(rng.chance(0.3) ? 4000 : 600)), rng.next(), static_cast<int64_t>(rng.below(i == 0 ? 1 : 6000)) * kMs});
  auto builder = absl::make_unique<MapBuilder>(rng.next());
  UplinkServer uplink;
  if (!down_at_start) uplink.Start();
  std::unique_ptr<cloud::MapBuilderServer> server(new cloud::MapBuilderServer(Options("server", "uplink", threads, batch), std::move(builder)));
  server->Start();
  bool quiet_time = false;      // No more faults.
  int registered = 0, driving = robots, through = 0;
  std::vector<int> handles;
  std::map<int, int> who_of;
  struct Late { int trajectory; std::string bytes; int64_t at; };
  std::vector<std::vector<int64_t>> sent_at(robots);
  std::vector<int> ids(robots, -1);
  std::map<int, std::vector<Seen>> seen;
  for (int i = 0; i < robots; ++i) seen[i];
  bool may_finish = false;
  for (int i = 0; i < robots; ++i) {
    handles.push_back(sim::spawn([&, i]() {
      sim::Rng r(rs[i].seed);
      const std::string name = "robot" + std::to_string(i);
      if (rs[i].start) sim::sleep_ns(rs[i].start);
      cloud::MapBuilderStub stub("server", name);
      const int channel = simnet::my_channel();
      mapping::proto::TrajectoryBuilderOptions options;
      options.mutable_trajectory_builder_2d_options();
      options.mutable_initial_trajectory_pose()->set_to_trajectory_id(100);
      options.mutable_pure_localization_trimmer()->set_max_submaps_to_keep(3);
      const int id = stub.AddTrajectoryBuilder(AllSensors(), options, Into(&seen[i]));
      { Quiet z; W->trajectories[id].owner = name; who_of[id] = i; ids[i] = id; ++registered; }
      while (simnet::handled(channel, "ReceiveLocalSlamResults") == 0) sim::sleep_ns(50 * kMs);
      TBI* const builder = stub.GetTrajectoryBuilder(id);
      size_t sent = 0;
      int64_t n = 0;
      const auto send = [&](int type) {
        { Quiet z; W->trajectories[id].sent[kSensors[type]].push_back(BytesAt(type, n, i)); }
        SendTo(builder, type, n, i);
        ++n; ++sent;
      };
      for (int k = 0; k < rs[i].messages; ++k) {
        const int type = r.chance(rs[i].share) ? 0 : r.range(1, 4);
        const int64_t gap = r.below(2 * rs[i].gap * kMs + 1);
        if (!sim::op_enabled(100 * i + k)) continue;
        send(type);
        if (gap) sim::sleep_ns(gap);
      }
      // Once the faults are over, drive on for a while.
      { Quiet z; --driving; }
      for (;;) {
        { Quiet z; if (quiet_time) break; }
        sim::sleep_ns(200 * kMs);
      }
      if (!abrupt) for (int k = 0; k < 16 * W->submap_size + 8 * batch; ++k) { send(k % 4 == 3 ? 1 + k % 3 : 0); sim::sleep_ns(100 * kMs); }
      for (int k = 0; GotCount(id) < sent; ++k) {
        SIM_CHECK(k < 20000, "uplink:local-stalled", "local SLAM does not get the data");
        sim::sleep_ns(100 * kMs);
      }
      { Quiet z; ++through; }
      for (;;) {
        { Quiet z; if (may_finish) break; }
        sim::sleep_ns(200 * kMs);
      }
      stub.FinishTrajectory(id);
      CheckData(id, i, true);
      CheckSeen(seen[i], true, true, name);
    }, "robot"));
  }
  const auto wait_for = [](std::function<bool()> done, const char* cls, const std::string& what, int64_t seconds) {
    for (int64_t k = 0;; ++k) {
      { Quiet z; if (done()) return; SIM_CHECK(k < seconds * 5, cls, what); }
      sim::sleep_ns(200 * kMs);
    }
  };
  wait_for([&]() { return registered == robots; }, "uplink:stuck", "the trajectories are not created", 300);
  simnet::config().delay = delay;
  simnet::config().break_connection = brk;
  if (down_at_start) { sim::sleep_ns(3 * kSec); uplink.Start(); sim::count("fault.uplink-late"); }
  for (size_t i = 0; i < cuts.size(); ++i) {
    if (!sim::op_enabled(900 + i)) continue;
    sim::sleep_ns(cuts[i].wait);
    simnet::SetLink("uplink", false);
    if (cuts[i].restart) {
      uplink.Stop();
      { Quiet z; for (auto& t : U->trajectories) t.second.known = false; }
      sim::count("fault.uplink-restart");
    }
    sim::sleep_ns(cuts[i].down);
    if (cuts[i].restart) uplink.Start();
    simnet::SetLink("uplink", true);
  }
  wait_for([&]() { return driving == 0; }, "uplink:local-stalled", "the robots cannot deliver their data while the uplink is troubled", 1200);
  if (abrupt) {
    // The end comes in the middle of the trouble.
    sim::count("probe.abrupt-end");
    if (dead_end) simnet::SetLink("uplink", false);
    { Quiet z; quiet_time = may_finish = true; }
    for (int h : handles) sim::join(h);
    server->Shutdown();
    server.reset();
    uplink.Stop();
    CheckUplink(who_of);
    return;
  }
  simnet::config().delay = 0;
  simnet::config().break_connection = 0;
  simnet::config().calm = true;
  // Connections come back, pending recoveries time out or end.
  sim::sleep_ns(300 * kSec);
  std::vector<size_t> before(robots);
  { Quiet z; for (int i = 0; i < robots; ++i) before[i] = W->trajectories[ids[i]].results.size(); quiet_time = true; }
  wait_for([&]() {
    for (int i = 0; i < robots; ++i) if (W->trajectories[ids[i]].results.size() < before[i] + 7 * W->submap_size) return false;
    return true;
  }, "uplink:local-stalled", "local SLAM does not progress", 300);
  wait_for([&]() { return through == robots; }, "uplink:local-stalled", "local SLAM does not get the data", 2000);
  // Whatever was produced some time after the faults goes up, but for an
  // incomplete batch. An outage shows when the next batch is full; two submaps
  // later every recovery has found its new submap; a call begun before may still
  // fail, which takes another submap.
  int missing = 0;
  for (int tries = 0; tries < 20000; ++tries) {
    missing = 0;
    {
      Quiet z;
      for (int i = 0; i < robots; ++i) {
        const Trajectory& t = W->trajectories[ids[i]];
        std::set<int64_t> up;
        for (auto& entry : U->trajectories) if (entry.second.local == ids[i]) for (auto& d : entry.second.data) if (d.has_local_slam_result_data()) up.insert(d.local_slam_result_data().timestamp());
        for (size_t k = before[i] + 8 * W->submap_size + 2 * batch + 2; k + 2 * batch < t.results.size(); ++k) {
          if (t.results[k].inserted && !up.count(t.results[k].stamp)) ++missing;
        }
      }
      if (missing == 0) break;
    }
    sim::sleep_ns(200 * kMs);
  }
  if (missing != 0) {
    Quiet z;
    std::string text;
    for (int i = 0; i < robots; ++i) {
      const Trajectory& t = W->trajectories[ids[i]];
      std::set<int64_t> up;
      for (auto& entry : U->trajectories) if (entry.second.local == ids[i]) for (auto& d : entry.second.data) if (d.has_local_slam_result_data()) up.insert(d.local_slam_result_data().timestamp());
      text += "\n  trajectory " + std::to_string(ids[i]) + ", no faults after result " + std::to_string(before[i]) + ":";
      for (size_t k = 0; k < t.results.size(); ++k) text += t.results[k].inserted ? up.count(t.results[k].stamp) ? " up" : " no" : " -";
    }
    sim::fail("uplink:does-not-resume", std::to_string(missing) + " local SLAM results computed long after the last fault did not go up; submaps of " + std::to_string(W->submap_size) + ", batches of " + std::to_string(batch) + text);
  }
  { Quiet z; may_finish = true; }
  for (int h : handles) sim::join(h);
  const int64_t t0 = sim::now_ns();
  server->Shutdown();
  SIM_CHECK(sim::now_ns() - t0 < 100 * kSec, "uplink:slow-shutdown", "the server took " + std::to_string((sim::now_ns() - t0) / kSec) + " s to shut down");
  server.reset();
  uplink.Stop();
  CheckUplink(who_of);
  // All was well when the trajectories were finished.
  Quiet z;
  for (auto& local : who_of) {
    const UplinkTrajectory* last = nullptr;
    for (auto& entry : U->trajectories) if (entry.second.local == local.first && !entry.second.data.empty()) last = &entry.second;
    SIM_CHECK(last == nullptr || last->finished, "uplink:not-finished", "local trajectory " + std::to_string(local.first) + " was finished, its uplink trajectory was not");
  }
}

void Run() {
  sim::Rng& rng = sim::workload();
  W = new World;
  U = new Uplink;
  simnet::Clear();
  { Quiet z; MakeStream(&rng); }
  sim::set_step_budget(3000000);
  sim::on_fatal([](const std::string& m) {
    if (sim::param("loadcut", 0) && m.find("proto_stream_deserializer") != std::string::npos)
      sim::fail("service:cut-state-loaded", "a client that disappeared while sending a state stopped the service: " + m);
    sim::fail(W->uplink ? "uplink:stopped" : "service:stopped", m);
  });
  if (sim::param("uplink", 0)) RunUplink(); else RunService();
}
}  // namespace
const sim::Harness sim::kHarness = {"cloud", nullptr, Run, true};
