// Stand-in for tesseract_kinematics.
#pragma once
#include <tesseract/scene.h>
#include <tesseract/common/utils.h>
#include <memory>
#include <stdexcept>
namespace tesseract::kinematics
{
struct KinematicLimits
{
  Eigen::MatrixX2d joint_limits;
};
class JointGroup
{
public:
  using Ptr = std::shared_ptr<JointGroup>;
  using ConstPtr = std::shared_ptr<const JointGroup>;
  explicit JointGroup(std::shared_ptr<const Scene> s) : s_(std::move(s))
  {
    const auto g = s_->group();
    limits_.joint_limits.resize((Eigen::Index)g.size(), 2);
    for (size_t k = 0; k < g.size(); ++k)
      limits_.joint_limits.row((Eigen::Index)k) << s_->joints[(size_t)g[k]].lower, s_->joints[(size_t)g[k]].upper;
  }
  const KinematicLimits& getLimits() const { return limits_; }
  std::string getBaseLinkName() const { return "the base"; }
  bool hasLinkName(const std::string& n) const { return s_->find(n) != nullptr; }
  std::vector<std::string> getActiveLinkNames() const
  {
    std::vector<std::string> v;
    for (const auto& l : s_->links)
      if (s_->active(l))
        v.push_back(l.name);
    return v;
  }
  std::vector<std::string> getJointNames() const
  {
    std::vector<std::string> v;
    for (int j : s_->group())
      v.push_back(s_->joints[(size_t)j].name);
    return v;
  }
  bool isActiveLinkName(const std::string& n) const
  {
    const auto* l = s_->find(n);
    return l && s_->active(*l);
  }
  Eigen::Index numJoints() const { return (Eigen::Index)s_->group().size(); }
  void calcFwdKin(common::TransformMap& t, const Eigen::Ref<const Eigen::VectorXd>& q) const
  {
    if (q.size() != numJoints())
      throw std::runtime_error("the kinematics are asked with " + std::to_string(q.size()) + " values for " + std::to_string(numJoints()) + " joints");
    const Eigen::VectorXd f = s_->full(q);
    for (const auto& l : s_->links)
    {
      if (s_->on_kin)
        s_->on_kin();
      t[l.name] = s_->pose(l, f);
    }
  }
  common::TransformMap calcFwdKin(const Eigen::Ref<const Eigen::VectorXd>& q) const
  {
    common::TransformMap t;
    calcFwdKin(t, q);
    return t;
  }
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& base, const std::string& link) const
  {
    if (base != getBaseLinkName())
      throw std::runtime_error("no such base: " + base);
    return calcJacobian(q, link);
  }
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& base, const std::string& link, const Eigen::Vector3d& point) const
  {
    if (base != getBaseLinkName())
      throw std::runtime_error("no such base: " + base);
    return calcJacobian(q, link, point);
  }
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& link) const
  {
    if (s_->on_kin)
      s_->on_kin();
    const auto* l = s_->find(link);
    if (!l)
      throw std::runtime_error("no such link: " + link);
    return s_->jacobian(*l, s_->full(q));
  }
  Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& link, const Eigen::Vector3d& point) const
  {
    Eigen::MatrixXd jac = calcJacobian(q, link);
    const auto* l = s_->find(link);
    common::jacobianChangeRefPoint(jac, Eigen::Vector3d(s_->pose(*l, s_->full(q)).linear() * point));
    return jac;
  }

private:
  std::shared_ptr<const Scene> s_;
  KinematicLimits limits_;
};
}  // namespace tesseract::kinematics
