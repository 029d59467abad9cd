// A simulated robot in the room of world.h: where it is, and what its sensors
// report, with everything that goes wrong with real sensors.
#ifndef HARNESS_SENSORS_H_
#define HARNESS_SENSORS_H_
#include <algorithm>
#include <memory>
#include <string>
#include <vector>

#include "cartographer/common/time.h"
#include "cartographer/mapping/trajectory_builder_interface.h"
#include "cartographer/sensor/fixed_frame_pose_data.h"
#include "cartographer/sensor/imu_data.h"
#include "cartographer/sensor/landmark_data.h"
#include "cartographer/sensor/odometry_data.h"
#include "cartographer/sensor/timed_point_cloud_data.h"
#include "harness/world.h"
#include "sim/sim.h"

namespace robot {
namespace carto = cartographer;
using carto::transform::Rigid3d;

inline carto::common::Time At(double s) { return carto::common::FromUniversal(1000000000LL + static_cast<carto::int64>(std::llround(s * 1e7))); }
inline double Seconds(carto::common::Time t) { return (carto::common::ToUniversal(t) - 1000000000LL) * 1e-7; }

// Where trajectory 'k' is at time 't'.
struct Truth {
  double phase = 0, speed = 1.;
  double X(double t) const { return 1.75 + 1.05 * std::sin(speed * 0.45 * t + phase); }
  double Y(double t) const { return 1.5 + 0.2 * std::cos(speed * 0.6 * t + phase); }
  double Yaw(double t) const { return 0.35 * std::sin(speed * 0.5 * t + 2 * phase); }
  Rigid3d Pose(double t) const { return world::Pose2(X(t), Y(t), Yaw(t)); }
  Eigen::Vector3d Gyro(double t) const { const double h = 1e-4; return {0, 0, (Yaw(t + h) - Yaw(t - h)) / (2 * h)}; }
  Eigen::Vector3d Accel(double t) const {
    const double h = 1e-3;
    const Eigen::Vector3d a((X(t + h) - 2 * X(t) + X(t - h)) / (h * h), (Y(t + h) - 2 * Y(t) + Y(t - h)) / (h * h), 9.8);
    return Eigen::AngleAxisd(-Yaw(t), Eigen::Vector3d::UnitZ()) * a;
  }
};

enum Type { kRange, kImu, kOdom, kFixed, kLandmark };
struct Sensor {
  Type type;
  std::string id;
  double rate = 5, start = 0, stop = 1e9, offset = 0;
  double duration = 0;   // of one scan
  int points = 60;
  double latency = 0;
  // faults
  double drop = 0, repeat = 0, same_stamp = 0, empty = 0, blind = 0, jitter = 0;
  double gap_from = 1e9, gap_to = 1e9;   // dropout
};
struct Event {
  double stamp = 0, arrival = 0;
  int sensor = 0;
  double truth_time = 0;
  bool empty = false, blind = false, fault = false;
  int index = 0;
};

struct Robot {
  int dim = 2;
  Truth truth;
  std::vector<Sensor> sensors;
  // The stamps of all sensors jump forward by 'leap' at 'leap_at'.
  double leap_at = 1e9, leap = 0;
  std::vector<Event> events;  // in order of arrival

  void Generate(sim::Rng& r, double t0, double t1) {
    events.clear();
    for (size_t s = 0; s < sensors.size(); ++s) {
      const Sensor& d = sensors[s];
      double last = -1, arrival = 0;
      int index = 0;
      for (double t = std::max(t0, t0 + d.start) + d.offset; t < std::min(t1, t0 + d.stop); t += 1. / d.rate) {
        Event e;
        e.sensor = s;
        e.truth_time = t;
        e.stamp = t + d.jitter * r.uniform(-0.5, 0.5);
        e.index = index++;
        const bool drop = r.chance(d.drop), repeat = r.chance(d.repeat), same = r.chance(d.same_stamp), empty = r.chance(d.empty), blind = r.chance(d.blind);
        const double late = d.latency * r.unit();
        if (drop) { sim::count("fault.sensor_drop"); continue; }
        if (t >= d.gap_from && t < d.gap_to) { sim::count("fault.sensor_dropout"); continue; }
        if (t >= leap_at) e.stamp += leap;
        if (same && last >= 0) { e.stamp = last; sim::count("fault.equal_stamp"); }
        if (e.stamp < last) e.stamp = last;
        last = e.stamp;
        e.empty = empty;
        e.blind = blind;
        if (empty) sim::count("fault.empty_scan");
        if (blind) sim::count("fault.blind_scan");
        // A channel keeps its order.
        arrival = std::max(arrival, t + late);
        e.arrival = arrival;
        events.push_back(e);
        if (repeat) { events.push_back(e); sim::count("fault.sensor_repeat"); }
      }
    }
    std::stable_sort(events.begin(), events.end(), [](const Event& a, const Event& b) { return a.arrival < b.arrival; });
  }

  carto::sensor::TimedPointCloudData Range(const Event& e) const {
    const Sensor& d = sensors[e.sensor];
    carto::sensor::TimedPointCloudData out;
    out.time = At(e.stamp);
    out.origin = Eigen::Vector3f::Zero();
    if (e.empty) return out;
    static const double kZ[] = {-0.5, 0., 0.45};
    const world::Room room;
    for (int i = 0; i < d.points; ++i) {
      const double dt = d.duration * (i + 1 - d.points) / d.points;
      const double t = e.truth_time + dt;
      const double a = 2 * M_PI * (i + 0.37 * (e.index % 3)) / d.points - M_PI;
      double range = room.Range({truth.X(t), truth.Y(t)}, a + truth.Yaw(t));
      if (range > 1e6) continue;
      if (e.blind) range = 500;
      out.ranges.push_back({Eigen::Vector3f(range * std::cos(a), range * std::sin(a), dim == 3 ? kZ[i % 3] : 0.), static_cast<float>(dt)});
      out.intensities.push_back(50.f + i % 7);
    }
    return out;
  }
  carto::sensor::ImuData Imu(const Event& e) const { return {At(e.stamp), truth.Accel(e.truth_time), truth.Gyro(e.truth_time)}; }
  carto::sensor::OdometryData Odom(const Event& e) const {
    return {At(e.stamp), world::Pose2(0.3, -0.2, 0.5) * truth.Pose(0).inverse() * truth.Pose(e.truth_time) * world::Pose2(0.0003 * e.index, 0, 0.0002 * e.index)};
  }
  carto::sensor::FixedFramePoseData Fixed(const Event& e) const {
    if (e.index % 4 == 3) return {At(e.stamp), absl::nullopt};
    return {At(e.stamp), absl::optional<Rigid3d>(world::Pose2(3., 1., 0.7) * truth.Pose(e.truth_time))};
  }
  carto::sensor::LandmarkData Landmark(const Event& e) const {
    carto::sensor::LandmarkData l;
    l.time = At(e.stamp);
    for (int k = 0; k <= e.index % 2; ++k)
      l.landmark_observations.push_back({"landmark" + std::to_string((e.index + k) % 3), truth.Pose(e.truth_time).inverse() * world::Pose2(1. + (e.index + k) % 3, 2., 0.), 10., 5.});
    return l;
  }
  void Deliver(const Event& e, carto::mapping::TrajectoryBuilderInterface* to) const {
    const Sensor& d = sensors[e.sensor];
    switch (d.type) {
      case kRange: to->AddSensorData(d.id, Range(e)); break;
      case kImu: to->AddSensorData(d.id, Imu(e)); break;
      case kOdom: to->AddSensorData(d.id, Odom(e)); break;
      case kFixed: to->AddSensorData(d.id, Fixed(e)); break;
      case kLandmark: to->AddSensorData(d.id, Landmark(e)); break;
    }
  }
  std::set<carto::mapping::TrajectoryBuilderInterface::SensorId> Ids() const {
    using Id = carto::mapping::TrajectoryBuilderInterface::SensorId;
    static const Id::SensorType kTypes[] = {Id::SensorType::RANGE, Id::SensorType::IMU, Id::SensorType::ODOMETRY, Id::SensorType::FIXED_FRAME_POSE, Id::SensorType::LANDMARK};
    std::set<Id> ids;
    for (auto& s : sensors) ids.insert(Id{kTypes[s.type], s.id});
    return ids;
  }
};
}  // namespace robot
#endif
