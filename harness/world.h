// Small synthetic worlds for the mapping harnesses.
#ifndef HARNESS_WORLD_H_
#define HARNESS_WORLD_H_
#include <cmath>
#include <deque>
#include <memory>
#include <string>
#include <vector>

#include "Eigen/Core"
#include "Eigen/Geometry"
#include "cartographer/common/config.h"
#include "cartographer/common/configuration_file_resolver.h"
#include "cartographer/common/lua_parameter_dictionary.h"
#include "cartographer/common/task.h"
#include "cartographer/common/thread_pool.h"
#include "cartographer/sensor/point_cloud.h"
#include "cartographer/sensor/range_data.h"
#include "cartographer/transform/rigid_transform.h"

namespace world {
using cartographer::transform::Rigid3d;

inline std::unique_ptr<cartographer::common::LuaParameterDictionary> Lua(const std::string& code) {
  auto r = absl::make_unique<cartographer::common::ConfigurationFileResolver>(
      std::vector<std::string>{std::string(cartographer::common::kSourceDirectory) + "/configuration_files"});
  return absl::make_unique<cartographer::common::LuaParameterDictionary>(code, std::move(r));
}

// Runs tasks one after the other, in the calling thread, when told to.
class InlinePool : public cartographer::common::ThreadPoolInterface {
 public:
  std::weak_ptr<cartographer::common::Task> Schedule(std::unique_ptr<cartographer::common::Task> task) override {
    std::shared_ptr<cartographer::common::Task> t(std::move(task));
    all_.push_back(t);
    SetThreadPool(t.get());
    return t;
  }
  void NotifyDependenciesCompleted(cartographer::common::Task* task) override { ready_.push_back(task); }
  void Drain() {
    while (!ready_.empty()) {
      auto* t = ready_.front();
      ready_.pop_front();
      Execute(t);
    }
    all_.clear();
  }
 private:
  std::deque<cartographer::common::Task*> ready_;
  std::vector<std::shared_ptr<cartographer::common::Task>> all_;
};

// A room with a pillar: [0, w] x [0, h], heights 0..zh. Returns what a scanner
// at 'pose' (map frame) sees, in the scanner's frame.
struct Room {
  double w = 3.2, h = 2.2;
  double px = 0.9, py = 0.7, pr = 0.25;  // square pillar
  double Range(const Eigen::Vector2d& o, double a) const {
    const Eigen::Vector2d d(std::cos(a), std::sin(a));
    double best = 1e9;
    auto wall = [&](double p0, double p1, double lo, double hi, int axis) {
      // wall at coordinate p0 along 'axis' between lo and hi on the other one
      if (std::abs(d[axis]) < 1e-9) return;
      const double t = (p0 - o[axis]) / d[axis];
      if (t <= 1e-6 || t >= best) return;
      const double q = o[1 - axis] + t * d[1 - axis];
      if (q >= lo && q <= hi) best = t;
    };
    wall(0, 0, 0, h, 0);
    wall(w, 0, 0, h, 0);
    wall(0, 0, 0, w, 1);
    wall(h, 0, 0, w, 1);
    wall(px - pr, 0, py - pr, py + pr, 0);
    wall(px + pr, 0, py - pr, py + pr, 0);
    wall(py - pr, 0, px - pr, px + pr, 1);
    wall(py + pr, 0, px - pr, px + pr, 1);
    return best;
  }
  cartographer::sensor::PointCloud Scan2D(double x, double y, double yaw, int n, double phase = 0) const {
    cartographer::sensor::PointCloud pc;
    for (int i = 0; i < n; ++i) {
      const double a = 2 * M_PI * (i + phase) / n - M_PI;
      const double r = Range({x, y}, a + yaw);
      if (r > 1e6) continue;
      pc.push_back({Eigen::Vector3f(r * std::cos(a), r * std::sin(a), 0.f)});
    }
    return pc;
  }
  cartographer::sensor::PointCloud Scan3D(double x, double y, double yaw, int n, double phase = 0) const {
    cartographer::sensor::PointCloud pc;
    static const double kZ[] = {-0.5, 0., 0.45};
    for (int i = 0; i < n; ++i) {
      const double a = 2 * M_PI * (i + phase) / n - M_PI;
      const double r = Range({x, y}, a + yaw);
      if (r > 1e6) continue;
      pc.push_back({Eigen::Vector3f(r * std::cos(a), r * std::sin(a), kZ[i % 3])});
    }
    return pc;
  }
};

inline Rigid3d Pose2(double x, double y, double yaw) {
  return Rigid3d(Eigen::Vector3d(x, y, 0), Eigen::Quaterniond(Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ())));
}
}  // namespace world
#endif
