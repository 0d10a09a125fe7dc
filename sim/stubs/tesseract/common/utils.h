// Stand-in for the functions of tesseract_common that are used here.
#pragma once
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <tesseract/common/eigen_types.h>
#include <tesseract/common/types.h>
namespace tesseract::common
{
inline bool almostEqualRelativeAndAbs(double a, double b, double max_diff = 1e-6, double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  const double diff = std::fabs(a - b);
  if (diff <= max_diff)
    return true;
  return diff <= std::max(std::fabs(a), std::fabs(b)) * max_rel_diff;
}
inline bool almostEqualRelativeAndAbs(const Eigen::Ref<const Eigen::VectorXd>& a, const Eigen::Ref<const Eigen::VectorXd>& b, double max_diff = 1e-6, double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  for (Eigen::Index i = 0; i < a.size(); ++i)
    if (!almostEqualRelativeAndAbs(a[i], b[i], max_diff, max_rel_diff))
      return false;
  return a.size() == b.size();
}
inline Eigen::VectorXd concat(const Eigen::VectorXd& a, const Eigen::VectorXd& b)
{
  Eigen::VectorXd v(a.size() + b.size());
  v << a, b;
  return v;
}
inline Eigen::VectorXd calcTransformError(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2)
{
  const Eigen::Isometry3d e = t1.inverse() * t2;
  const Eigen::AngleAxisd r(e.rotation());
  return concat(e.translation(), r.axis() * r.angle());
}
inline void applyTolerances(Eigen::VectorXd& err, const Eigen::VectorXd& lower, const Eigen::VectorXd& upper)
{
  for (Eigen::Index i = 0; i < err.size(); ++i)
    err[i] = err[i] < lower[i] ? err[i] - lower[i] : err[i] > upper[i] ? err[i] - upper[i] : 0;
}
inline Eigen::VectorXd transformErrorWithin(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2, const Eigen::VectorXd& lower, const Eigen::VectorXd& upper)
{
  Eigen::VectorXd e = calcTransformError(t1, t2);
  if (lower.size() && !almostEqualRelativeAndAbs(lower, upper))
    applyTolerances(e, lower, upper);
  return e;
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target, const Eigen::Isometry3d& source, const Eigen::Isometry3d& source_pert, const Eigen::VectorXd& lower = {}, const Eigen::VectorXd& upper = {})
{
  return transformErrorWithin(target, source_pert, lower, upper) - transformErrorWithin(target, source, lower, upper);
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target, const Eigen::Isometry3d& target_pert, const Eigen::Isometry3d& source, const Eigen::Isometry3d& source_pert, const Eigen::VectorXd& lower = {}, const Eigen::VectorXd& upper = {})
{
  return transformErrorWithin(target_pert, source_pert, lower, upper) - transformErrorWithin(target, source, lower, upper);
}
template <typename Map, typename Value>
bool isIdenticalMap(const Map& a, const Map& b, const std::function<bool(Value, Value)>& eq)
{
  if (a.size() != b.size())
    return false;
  for (const auto& p : a)
  {
    auto it = b.find(p.first);
    if (it == b.end() || !eq(p.second, it->second))
      return false;
  }
  return true;
}
inline void jacobianChangeBase(Eigen::Ref<Eigen::MatrixXd> jac, const Eigen::Isometry3d& base)
{
  for (Eigen::Index i = 0; i < jac.cols(); ++i)
  {
    const Eigen::Vector3d v = jac.col(i).head<3>(), w = jac.col(i).tail<3>();
    jac.col(i).head<3>() = base.linear() * v;
    jac.col(i).tail<3>() = base.linear() * w;
  }
}
inline void jacobianChangeRefPoint(Eigen::Ref<Eigen::MatrixXd> jac, const Eigen::Ref<const Eigen::Vector3d>& p)
{
  for (Eigen::Index i = 0; i < jac.cols(); ++i)
  {
    const Eigen::Vector3d w = jac.col(i).tail<3>();
    jac.col(i).head<3>() += w.cross(Eigen::Vector3d(p));
  }
}
}  // namespace tesseract::common
