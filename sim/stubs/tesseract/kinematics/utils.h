#pragma once
#include <tesseract/kinematics/joint_group.h>
namespace tesseract::kinematics
{
inline void numericalJacobian(Eigen::Ref<Eigen::MatrixXd> jac, const Eigen::Isometry3d&, const JointGroup& g, const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& link, const Eigen::Ref<const Eigen::Vector3d>& p)
{
  jac = g.calcJacobian(q, link, Eigen::Vector3d(p));
}
}  // namespace tesseract::kinematics
