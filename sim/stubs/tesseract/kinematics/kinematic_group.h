// Stand-in for tesseract_kinematics: what the inverse kinematics find is up to the scene.
#pragma once
#include <tesseract/kinematics/joint_group.h>
namespace tesseract::kinematics
{
struct KinGroupIKInput
{
  KinGroupIKInput(const Eigen::Isometry3d& p, std::string frame, std::string tip) : pose(p), working_frame(std::move(frame)), tip_link_name(std::move(tip)) {}
  Eigen::Isometry3d pose;
  std::string working_frame, tip_link_name;
};
using KinGroupIKInputs = common::AlignedVector<KinGroupIKInput>;
using IKSolutions = std::vector<Eigen::VectorXd>;
class KinematicGroup : public JointGroup
{
public:
  using Ptr = std::shared_ptr<KinematicGroup>;
  using ConstPtr = std::shared_ptr<const KinematicGroup>;
  explicit KinematicGroup(std::shared_ptr<const Scene> s) : JointGroup(s), scene_(std::move(s)) {}
  IKSolutions calcInvKin(const KinGroupIKInput& in, const Eigen::Ref<const Eigen::VectorXd>& seed) const
  {
    if (!scene_->on_ik)
      return {};
    return scene_->on_ik(in.pose, in.working_frame, in.tip_link_name, seed);
  }
  IKSolutions calcInvKin(const KinGroupIKInputs& in, const Eigen::Ref<const Eigen::VectorXd>& seed) const
  {
    if (in.size() != 1)
      throw std::runtime_error("one tip at a time");
    return calcInvKin(in[0], seed);
  }

private:
  std::shared_ptr<const Scene> scene_;
};
}  // namespace tesseract::kinematics
