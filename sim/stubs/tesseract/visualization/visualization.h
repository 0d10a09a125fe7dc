// Stand-in: everything that is shown is handed to a hook, which may fail.
#pragma once
#include <tesseract/collision/types.h>
#include <tesseract/common/joint_state.h>
#include <tesseract/scene_graph/link.h>
#include <tesseract/state_solver/state_solver.h>
#include <functional>
#include <memory>
namespace tesseract::visualization
{
struct Marker
{
  virtual ~Marker() = default;
  scene_graph::Material::Ptr material;
};
struct ArrowMarker : Marker
{
  ArrowMarker(const Eigen::Vector3d& a, const Eigen::Vector3d& b) : from(a), to(b) {}
  Eigen::Vector3d from, to;
};
struct AxisMarker : Marker
{
  explicit AxisMarker(const Eigen::Isometry3d& p) : pose(p) {}
  Eigen::Isometry3d pose;
  void setScale(const Eigen::Vector3d&) {}
};
struct ContactResultsMarker : Marker
{
  ContactResultsMarker(std::vector<std::string>, const collision::ContactResultVector&, std::function<double(const std::string&, const std::string&)>) {}
};
class Visualization
{
public:
  using Ptr = std::shared_ptr<Visualization>;
  using ConstPtr = std::shared_ptr<const Visualization>;
  std::function<void(const common::JointTrajectory*)> on_show;  // null: a marker
  std::function<void(const Marker&)> on_marker;
  std::function<void()> on_clear, on_wait;
  void plotMarker(const Marker& m, std::string = "")
  {
    if (on_marker)
      on_marker(m);
    if (on_show)
      on_show(nullptr);
  }
  void plotTrajectory(const common::JointTrajectory& t, const scene_graph::StateSolver&, std::string = "")
  {
    if (on_show)
      on_show(&t);
  }
  void clear(std::string = "")
  {
    if (on_clear)
      on_clear();
  }
  void waitForInput(std::string = "")
  {
    if (on_wait)
      on_wait();
  }
};
}  // namespace tesseract::visualization
