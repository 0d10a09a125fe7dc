// Stand-in for tesseract_common.
#pragma once
#include <Eigen/Core>
#include <string>
#include <vector>
namespace tesseract::common
{
struct JointState
{
  JointState(std::vector<std::string> n, const Eigen::Ref<const Eigen::VectorXd>& p) : joint_names(std::move(n)), position(p) {}
  std::vector<std::string> joint_names;
  Eigen::VectorXd position;
};
struct JointTrajectory
{
  std::vector<JointState> states;
  void reserve(std::size_t n) { states.reserve(n); }
};
}  // namespace tesseract::common
