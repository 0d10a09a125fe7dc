// Stand-in for tesseract_environment.
#pragma once
#include <tesseract/collision/managers.h>
#include <tesseract/kinematics/joint_group.h>
#include <tesseract/state_solver/state_solver.h>
#include <memory>
namespace tesseract::environment
{
class Environment
{
public:
  using Ptr = std::shared_ptr<Environment>;
  using ConstPtr = std::shared_ptr<const Environment>;
  explicit Environment(std::shared_ptr<const Scene> s) : s_(std::move(s)) {}
  std::vector<std::string> getActiveLinkNames() const
  {
    std::vector<std::string> v;
    for (const auto& l : s_->links)
      if (l.joint >= 0)
        v.push_back(l.name);
    return v;
  }
  std::vector<std::string> getActiveJointNames() const
  {
    std::vector<std::string> v;
    for (const auto& j : s_->joints)
      v.push_back(j.name);
    return v;
  }
  scene_graph::SceneState getState() const
  {
    scene_graph::SceneState st;
    const Eigen::VectorXd f = state();
    for (size_t j = 0; j < s_->joints.size(); ++j)
      st.joints[s_->joints[j].name] = f[(Eigen::Index)j];
    return st;
  }
  std::shared_ptr<const kinematics::JointGroup> getJointGroup(const std::string& name) const { return name == "manip" ? std::make_shared<const kinematics::JointGroup>(s_) : nullptr; }
  std::unique_ptr<scene_graph::StateSolver> getStateSolver() const { return std::make_unique<scene_graph::StateSolver>(); }
  void getLinkTransforms(common::TransformMap& t, const std::vector<std::string>& names, const Eigen::Ref<const Eigen::VectorXd>& q) const
  {
    Eigen::VectorXd f = state();
    for (size_t k = 0; k < names.size(); ++k)
      for (size_t j = 0; j < s_->joints.size(); ++j)
        if (s_->joints[j].name == names[k])
          f[(Eigen::Index)j] = q[(Eigen::Index)k];
    for (const auto& l : s_->links)
      t[l.name] = s_->pose(l, f);
  }
  std::unique_ptr<collision::DiscreteContactManager> getDiscreteContactManager() const { return std::make_unique<collision::DiscreteContactManager>(s_, poses()); }
  std::unique_ptr<collision::ContinuousContactManager> getContinuousContactManager() const { return std::make_unique<collision::ContinuousContactManager>(s_, poses()); }

private:
  Eigen::VectorXd state() const
  {
    Eigen::VectorXd f((Eigen::Index)s_->joints.size());
    for (size_t j = 0; j < s_->joints.size(); ++j)
      f[(Eigen::Index)j] = s_->live ? (*s_->live)[j] : s_->joints[j].state;
    return f;
  }
  common::TransformMap poses() const
  {
    common::TransformMap t;
    for (const auto& l : s_->links)
      t[l.name] = s_->pose(l, state());
    return t;
  }
  std::shared_ptr<const Scene> s_;
};
}  // namespace tesseract::environment
