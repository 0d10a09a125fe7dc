// The world behind the stand-ins for Tesseract: links that carry spheres, joints, an environment state. Distances of spheres are
// exact, and so are their derivatives.
#pragma once
#include <tesseract/common/eigen_types.h>
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace tesseract
{
struct Sphere
{
  Eigen::Vector3d at;
  double r;
  int shape, sub;
};
struct SceneLink
{
  std::string name;
  int joint = -1;  // that moves it; -1: part of the world
  Eigen::Vector3d origin = Eigen::Vector3d::Zero();
  std::vector<Sphere> spheres;
};
struct SceneJoint
{
  std::string name;
  int parent = -1;  // link, -1: the world
  bool revolute = false;
  Eigen::Vector3d axis, origin;
  double state = 0;  // of the environment
  bool manip = true; // belongs to the group
  double lower = -4, upper = 4;
};
struct Scene
{
  std::vector<SceneJoint> joints;  // a parent comes before its children
  std::vector<SceneLink> links;    // the link moved by joint j has joint == j
  std::shared_ptr<std::vector<double>> live;  // the environment's state, if it changes after the scene was made
  bool per_pair = true;            // the contact checker applies the margin of the pair, not the largest one
  std::function<void()> on_test;   // called by every contact test (faults)
  std::function<void()> on_tested; // the same, once contacts were found
  std::function<std::vector<Eigen::VectorXd>(const Eigen::Isometry3d&, const std::string&, const std::string&, const Eigen::VectorXd&)> on_ik;  // of pose, working frame, tip, seed
  std::function<void()> on_kin;    // called by every calculation of kinematics, more than once (faults)
  std::vector<int> group() const
  {
    std::vector<int> g;
    for (size_t j = 0; j < joints.size(); ++j)
      if (joints[j].manip)
        g.push_back((int)j);
    return g;
  }
  Eigen::VectorXd full(const Eigen::VectorXd& q) const  // the group's values put into the environment's state
  {
    Eigen::VectorXd f((Eigen::Index)joints.size());
    Eigen::Index k = 0;
    for (size_t j = 0; j < joints.size(); ++j)
      f[(Eigen::Index)j] = joints[j].manip ? q[k++] : joints[j].state;
    return f;
  }
  int parent_joint(int j) const { return joints[(size_t)j].parent < 0 ? -1 : links[(size_t)joints[(size_t)j].parent].joint; }
  bool moved_by(const SceneLink& l, int j) const
  {
    for (int k = l.joint; k >= 0; k = parent_joint(k))
      if (k == j)
        return true;
    return false;
  }
  bool active(const SceneLink& l) const  // moves with the group
  {
    for (int k = l.joint; k >= 0; k = parent_joint(k))
      if (joints[(size_t)k].manip)
        return true;
    return false;
  }
  Eigen::Isometry3d frame(int j, const Eigen::VectorXd& f) const  // behind joint j
  {
    if (j < 0)
      return Eigen::Isometry3d::Identity();
    const SceneJoint& jt = joints[(size_t)j];
    Eigen::Isometry3d t = frame(parent_joint(j), f);
    t.translate(jt.origin);
    if (jt.revolute)
      t.rotate(Eigen::AngleAxisd(f[j], jt.axis));
    else
      t.translate(Eigen::Vector3d(jt.axis * f[j]));
    return t;
  }
  Eigen::Isometry3d pose(const SceneLink& l, const Eigen::VectorXd& f) const
  {
    Eigen::Isometry3d t = frame(l.joint, f);
    t.translate(l.origin);
    return t;
  }
  Eigen::MatrixXd jacobian(const SceneLink& l, const Eigen::VectorXd& f) const  // of the group's joints, at the origin of the link
  {
    const auto g = group();
    Eigen::MatrixXd jac = Eigen::MatrixXd::Zero(6, (Eigen::Index)g.size());
    const Eigen::Vector3d p = pose(l, f).translation();
    for (size_t k = 0; k < g.size(); ++k)
    {
      if (!moved_by(l, g[k]))
        continue;
      const SceneJoint& jt = joints[(size_t)g[k]];
      Eigen::Isometry3d t = frame(parent_joint(g[k]), f);
      t.translate(jt.origin);
      const Eigen::Vector3d a = t.linear() * jt.axis;
      if (jt.revolute)
      {
        jac.col((Eigen::Index)k).head<3>() = a.cross(Eigen::Vector3d(p - t.translation()));
        jac.col((Eigen::Index)k).tail<3>() = a;
      }
      else
        jac.col((Eigen::Index)k).head<3>() = a;
    }
    return jac;
  }
  const SceneLink* find(const std::string& name) const
  {
    for (const auto& l : links)
      if (l.name == name)
        return &l;
    return nullptr;
  }
};
}  // namespace tesseract
