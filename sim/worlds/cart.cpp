// P22: Cartesian and inverse kinematics terms of trajopt_ifopt over a stand-in for Tesseract. Seeded histories of trajectories, with
// revisits, kinematics that throw or find no solution and failing allocations, in one or two simulated threads that may share the
// constraints, against the pose errors recomputed from the definition.
#include <tesseract/kinematics/kinematic_group.h>
#include <tesseract/common/joint_state.h>
#include <trajopt_ifopt/constraints/cartesian_line_constraint.h>
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt_ifopt/constraints/inverse_kinematics_constraint.h>
#include <trajopt_ifopt/utils/numeric_differentiation.h>
#include <trajopt_ifopt/utils/trajopt_utils.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <console_bridge/console.h>
#include <cmath>
#include <functional>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include "rt/sim.h"
#include "coll_scene.hpp"

using namespace trajopt_ifopt;
using Eigen::MatrixXd;
namespace
{
int kin_in[4] = { -1, -1, -1, -1 };   // steps of the kinematics until they throw, for each simulated thread
int none_in[4] = { -1, -1, -1, -1 };  // the same, of inverse kinematics until they find nothing
std::shared_ptr<const tesseract::kinematics::KinematicGroup> arm;

template <class F>
int guarded(F fn)  // with faults; 0: done, 1: a fault made it fail, 2: it threw std::runtime_error
{
  const int me = sim::self() & 3;
  const int fault = sim::faults_on() ? (int)sim::choose(8, "fault") : 0;
  if (fault == 1)
    kin_in[me] = (int)sim::logchoose(60, "kin");
  if (fault == 2 && alone)
    sim::alloc_fail_in(1 + (long)sim::logchoose(200, "alloc"));
  if (fault == 3)
    none_in[me] = (int)sim::choose(2, "ik");
  int r = 0;
  try
  {
    fn();
  }
  catch (const TestError& e)
  {
    r = 1;
    sim::cover(e.fault);
  }
  catch (const std::bad_alloc&)
  {
    r = 1;
    sim::cover("fault.alloc_failure");
  }
  catch (const std::runtime_error&)
  {
    r = 2;
  }
  const bool lost = fault == 3 && none_in[me] == -2;
  kin_in[me] = none_in[me] = -1;
  sim::alloc_fail_in(-1);
  if (lost)
  {
    if (r == 0)
      sim::fail("no-solution", "the inverse kinematics found no solution, and the constraint has a value all the same");
    return 1;
  }
  return r;
}
bool near(double a, double b, double tol) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }
template <class F>
bool rejects(F fn)
{
  try
  {
    fn();
  }
  catch (const std::runtime_error&)
  {
    return true;
  }
  return false;
}
Eigen::Isometry3d pose_of(const std::string& l, const VectorXd& q) { return world.scene->pose(*world.scene->find(l), world.scene->full(q)); }
VectorXd pose_error(const Eigen::Isometry3d& a, const Eigen::Isometry3d& b)  // of b, seen from a
{
  const Eigen::Isometry3d e = a.inverse() * b;
  const Eigen::AngleAxisd r(e.rotation());
  VectorXd v(6);
  v << e.translation(), r.axis() * r.angle();
  return v;
}
Eigen::Isometry3d draw_pose(double r)
{
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  if (sim::chance(3, 4, "moved"))
    t.translation() = draw_point(r);
  if (sim::chance(1, 2, "turned"))
  {
    Eigen::Quaterniond q(sim::real(0.2, 1, "w"), sim::real(-1, 1, "x"), sim::real(-1, 1, "y"), sim::real(-1, 1, "z"));
    q.normalize();
    t.linear() = q.toRotationMatrix();
  }
  return t;
}
std::string link(int active, const std::string& but = "")  // -1: any
{
  std::vector<std::string> v;
  for (const auto& l : world.scene->links)
    if ((active < 0 || world.scene->active(l) == (active == 1)) && l.name != but)
      v.push_back(l.name);
  return v.empty() ? "" : v[sim::choose(v.size(), "link")];
}
// what the arm can do: a function of everything it is asked
std::vector<VectorXd> solutions(const Eigen::Isometry3d& pose, const std::string& frame, const std::string& tip, const VectorXd& seed)
{
  std::vector<VectorXd> v;
  const double h = pose.translation().dot(Eigen::Vector3d(1.3, 2.1, 0.7)) + 0.3 * pose.linear()(0, 1) + 0.17 * (double)tip[0] + 0.05 * (double)frame.size() + 0.4 * seed.sum();
  for (int k = 0, n = (int)(std::abs(h) * 17) % 4; k < n; ++k)
  {
    VectorXd q(world.dof);
    for (Idx j = 0; j < q.size(); ++j)
      q[j] = 1.5 * std::sin(3 * h + 2.0 * k + 1.7 * (double)j);
    v.push_back(q);
  }
  return v;
}

// ---- one constraint -------------------------------------------------------------------------------------------------
struct Term
{
  const char* what = "";
  std::shared_ptr<ConstraintSet> set;
  std::shared_ptr<CartPosConstraint> pos;
  std::shared_ptr<CartLineConstraint> line;
  std::shared_ptr<InverseKinematicsConstraint> ik;
  std::shared_ptr<const Var> var, seed;
  std::function<VectorXd(const VectorXd&)> err;      // by the joints at the variable
  std::function<bool(const VectorXd&)> smooth;
  VectorXd coeff;
  std::vector<Bounds> bounds;
  // the parts that may change
  std::string source, target;
  Eigen::Isometry3d so = Eigen::Isometry3d::Identity(), to = Eigen::Isometry3d::Identity(), to2 = Eigen::Isometry3d::Identity();
  std::vector<int> ind;
};
Bounds draw_bounds()
{
  const double a = sim::real(-0.5, 0, "lower"), b = sim::real(0.01, 0.5, "upper");
  switch (sim::choose(6, "bounds"))
  {
    case 0: return BoundZero;
    case 1: return Bounds(a, b);
    case 2: return Bounds(a, INFINITY);
    case 3: return Bounds(-INFINITY, b);
    case 4: return Bounds(b, b);
    default: return NoBound;
  }
}
std::shared_ptr<Term> make_pos(const std::shared_ptr<const Var>& var)
{
  auto t = std::make_shared<Term>();
  const int kind = (int)sim::choose(3, "active");  // 0: the source moves, 1: the target, 2: both
  t->source = link(kind != 1), t->target = link(kind != 0, t->source);
  if (t->source.empty() || t->target.empty())
    return nullptr;
  t->var = var;
  t->what = kind == 0 ? "position, moving source" : kind == 1 ? "position, moving target" : "position, both moving";
  t->so = draw_pose(0.5), t->to = draw_pose(0.5);
  const bool split = !sim::chance(1, 3, "keep-ranges");
  const auto handling = split ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs;
  const std::string name = "pose";
  if (sim::chance(1, 4, "plain"))
  {
    t->coeff = VectorXd::Ones(6), t->bounds.assign(6, BoundZero), t->ind = { 0, 1, 2, 3, 4, 5 };
    t->pos = std::make_shared<CartPosConstraint>(var, world.manip, t->source, t->target, t->so, t->to, name, handling);
  }
  else
  {
    VectorXd co(6);
    std::vector<Bounds> b;
    std::vector<double> kept;
    for (int k = 0; k < 6; ++k)
    {
      co[k] = sim::chance(1, 4, "dropped") ? sim::chance(1, 2, "tiny") ? 1e-7 : 0.0 : sim::real(0.1, 5, "coeff") * (sim::chance(1, 8, "negative") ? -1 : 1);
      b.push_back(draw_bounds());
      if (std::abs(co[k]) < 1e-6)
        continue;
      const bool two = split && b.back().getType() == BoundsType::kRangeBound;
      for (int r = 0; r < (two ? 2 : 1); ++r)
      {
        t->ind.push_back(k), kept.push_back(co[k]);
        t->bounds.push_back(!two ? b.back() : r ? Bounds(-INFINITY, b.back().getUpper()) : Bounds(b.back().getLower(), INFINITY));
      }
    }
    t->coeff = Eigen::Map<VectorXd>(kept.data(), (Idx)kept.size());
    if (sim::chance(1, 12, "bad"))
    {
      const std::string gone = link(0), gone2 = link(0, gone);
      const std::vector<Bounds> five(5, BoundZero);
      if (!rejects([&] { CartPosConstraint x(var, co, five, world.manip, t->source, t->target); }) || !rejects([&] { CartPosConstraint x(var, VectorXd::Ones(5), b, world.manip, t->source, t->target); }) ||
          !rejects([&] { CartPosConstraint x(var, co, b, world.manip, "nothing", t->target); }) || !rejects([&] { CartPosConstraint x(var, co, b, world.manip, t->source, "nothing"); }) ||
          (!gone2.empty() && !rejects([&] { CartPosConstraint x(var, co, b, world.manip, gone, gone2); })))
        sim::fail("rejected", "a pose constraint between frames that are unknown or fixed, or with the wrong number of bounds or coefficients, was accepted");
      sim::cover("op.rejected");
    }
    t->pos = std::make_shared<CartPosConstraint>(var, co, b, world.manip, t->source, t->target, t->so, t->to, name, handling);
  }
  t->pos->use_numeric_differentiation = !sim::chance(1, 3, "from-the-jacobian");
  t->set = t->pos;
  Term* p = t.get();
  auto full = [p, kind](const VectorXd& q) {
    const Eigen::Isometry3d s = pose_of(p->source, q) * p->so, g = pose_of(p->target, q) * p->to;
    return kind == 1 ? pose_error(s, g) : pose_error(g, s);
  };
  t->err = [p, full](const VectorXd& q) {
    const VectorXd e = full(q);
    VectorXd out((Idx)p->ind.size());
    for (size_t k = 0; k < p->ind.size(); ++k)
      out[(Idx)k] = e[p->ind[k]];
    return out;
  };
  t->smooth = [full](const VectorXd& q) { return full(q).tail<3>().norm() < 2.6; };
  return t;
}
std::shared_ptr<Term> make_line(const std::shared_ptr<const Var>& var)
{
  auto t = std::make_shared<Term>();
  t->source = link(-1), t->target = link(-1, t->source);
  if (t->source.empty() || t->target.empty())
    return nullptr;
  t->var = var;
  t->what = "line";
  t->so = draw_pose(0.3), t->to = draw_pose(0.8), t->to2 = draw_pose(0.8);
  if ((t->to.translation() - t->to2.translation()).norm() < 0.05)
    t->to2.translation() += Eigen::Vector3d(0.5, -0.25, 1);
  std::vector<int> all = { 0, 1, 2, 3, 4, 5 };
  if (sim::chance(1, 3, "every-row"))
    t->ind = all;
  else
    for (int i = 1 + (int)sim::choose(6, "rows"); i > 0; --i)
    {
      const size_t k = sim::choose(all.size(), "row");
      t->ind.push_back(all[k]);
      all.erase(all.begin() + (long)k);
    }
  const Eigen::VectorXi ind = Eigen::Map<Eigen::VectorXi>(t->ind.data(), (Idx)t->ind.size());
  t->coeff.resize(ind.size());
  for (double& c : t->coeff)
    c = sim::real(0.1, 5, "coeff");
  t->bounds.assign(t->ind.size(), BoundZero);
  const CartLineInfo info(world.manip, t->source, t->target, t->to, t->to2, t->so, ind);
  t->line = std::make_shared<CartLineConstraint>(info, var, t->coeff);
  if (sim::chance(1, 12, "bad"))
  {
    if (!rejects([&] { CartLineInfo x(world.manip, "nothing", t->target, t->to, t->to2, t->so, ind); }) || !rejects([&] { CartLineInfo x(world.manip, t->source, "nothing", t->to, t->to2, t->so, ind); }) ||
        !rejects([&] { CartLineInfo x(world.manip, t->source, t->target, t->to, t->to, t->so, ind); }) || !rejects([&] { CartLineInfo x(world.manip, t->source, t->target, t->to, t->to2, t->so, Eigen::VectorXi()); }) ||
        !rejects([&] { CartLineInfo x(world.manip, t->source, t->target, t->to, t->to2, t->so, Eigen::VectorXi::Zero(7)); }) || !rejects([&] { CartLineConstraint x(info, var, VectorXd::Ones(ind.size() + 1)); }))
      sim::fail("rejected", "a line without a length, between unknown frames, or with the wrong number of rows or coefficients was accepted");
    sim::cover("op.rejected");
  }
  if (sim::chance(1, 4, "bounds"))
  {
    for (auto& b : t->bounds)
      b = draw_bounds();
    t->line->setBounds(t->bounds);
  }
  t->line->use_numeric_differentiation = !sim::chance(1, 3, "from-the-jacobian");
  t->set = t->line;
  Term* p = t.get();
  auto where = [p](const VectorXd& q, double& turn) {  // before the first end: < 0, behind the second: > 1
    const Eigen::Isometry3d s = pose_of(p->source, q) * p->so, a = pose_of(p->target, q) * p->to, b = pose_of(p->target, q) * p->to2;
    const Eigen::Vector3d along = b.translation() - a.translation();
    turn = pose_error(a, b).tail<3>().norm();
    return along.dot(Eigen::Vector3d(s.translation() - a.translation())) / along.squaredNorm();
  };
  auto full = [p, where](const VectorXd& q) {
    double turn;
    const double at = std::min(1.0, std::max(0.0, where(q, turn)));
    const Eigen::Isometry3d s = pose_of(p->source, q) * p->so, a = pose_of(p->target, q) * p->to, b = pose_of(p->target, q) * p->to2;
    const VectorXd step = pose_error(a, b).tail<3>() * at;
    Eigen::Isometry3d m = Eigen::Isometry3d::Identity();
    m.translation() = (1 - at) * a.translation() + at * b.translation();
    const double angle = step.norm();
    m.linear() = angle > 0 ? Eigen::Matrix3d(a.linear() * Eigen::AngleAxisd(angle, Eigen::Vector3d(step / angle)).toRotationMatrix()) : Eigen::Matrix3d(a.linear());
    return pose_error(m, s);
  };
  t->err = [p, full](const VectorXd& q) {
    const VectorXd e = full(q);
    VectorXd out((Idx)p->ind.size());
    for (size_t k = 0; k < p->ind.size(); ++k)
      out[(Idx)k] = e[p->ind[k]];
    return out;
  };
  t->smooth = [full, where](const VectorXd& q) {
    double turn;
    const double at = where(q, turn);
    return full(q).tail<3>().norm() < 2.6 && turn < 3 && std::abs(at) > 1e-3 && std::abs(at - 1) > 1e-3;
  };
  return t;
}
std::shared_ptr<Term> make_ik(const std::shared_ptr<const Var>& var, const std::shared_ptr<const Var>& seed)
{
  auto t = std::make_shared<Term>();
  t->source = link(-1);
  t->target = sim::chance(1, 2, "frame") ? "the base" : link(0);
  t->what = "inverse kinematics";
  t->var = var, t->seed = seed;
  t->to = draw_pose(1);
  auto info = std::make_shared<InverseKinematicsInfo>(arm, t->target, t->source);
  t->ik = std::make_shared<InverseKinematicsConstraint>(t->to, info, var, seed);
  if (sim::chance(1, 12, "bad"))
  {
    if (!rejects([&] { InverseKinematicsInfo x(arm, t->target, "nothing"); }))
      sim::fail("rejected", "inverse kinematics of an unknown link were accepted");
    sim::cover("op.rejected");
  }
  t->coeff = VectorXd::Ones(world.dof);
  t->bounds.assign((size_t)world.dof, BoundZero);
  if (sim::chance(1, 4, "bounds"))
  {
    for (auto& b : t->bounds)
      b = draw_bounds();
    t->ik->setBounds(t->bounds);
  }
  t->set = t->ik;
  return t;
}
// the value expected; empty: there is none
bool expected(const Term& t, const VectorXd& q, VectorXd& v)
{
  if (!t.ik)
  {
    v = t.err(q);
    return true;
  }
  double least = INFINITY;
  for (const auto& s : solutions(t.to, t.target, t.source, t.seed->value()))
    if ((s - q).norm() < least)
      least = (s - q).norm(), v = s - q;
  return std::isfinite(least);
}
void check_values(const Term& t, const VectorXd& v, const VectorXd& want, const char* how)
{
  if (v.size() != want.size())
    sim::fail("rows", "%s: %ld values%s, not %ld", t.what, (long)v.size(), how, (long)want.size());
  double turn = 0;  // half turns have two axes
  for (Idx k = 0; k < want.size(); ++k)
    if (!t.ik && t.ind[(size_t)k] >= 3)
      turn = std::max(turn, std::abs(want[k]));
  for (Idx k = 0; k < want.size(); ++k)
    if (!near(v[k], want[k], 1e-7) && (t.ik || t.ind[(size_t)k] < 3 || turn < 1.5))
      sim::fail("value", "%s: row %ld has the value %.12g%s, not %.12g", t.what, (long)k, v[k], how, want[k]);
}
void check_derivative(const Term& t, const Jacobian& js, const VectorXd& q, Idx cols, const char* how)
{
  const MatrixXd jac(js);
  const Idx n = world.dof, at = t.var->getIndex(), rows = (Idx)t.bounds.size();
  if (jac.rows() != rows || jac.cols() != cols)
    sim::fail("rows", "%s: the derivative%s is %ld x %ld, not %ld x %ld", t.what, how, (long)jac.rows(), (long)jac.cols(), (long)rows, (long)cols);
  MatrixXd want = MatrixXd::Zero(rows, n);
  double tol = 1e-12;
  if (t.ik)
    want = -MatrixXd::Identity(rows, n);
  else
  {
    if (!t.smooth(q))
    {
      sim::cover("skip.derivative");
      return;
    }
    tol = 1e-3;
    const double h = 1e-5;
    for (Idx k = 0; k < n; ++k)
    {
      VectorXd a = q, b = q;
      a[k] -= h, b[k] += h;
      want.col(k) = (t.err(b) - t.err(a)) / (2 * h);
    }
  }
  for (Idx r = 0; r < rows; ++r)
    for (Idx k = 0; k < cols; ++k)
    {
      const double w = k >= at && k < at + n ? want(r, k - at) : 0.0;
      if (!near(jac(r, k), w, tol))
        sim::fail("derivative", "%s: the derivative of row %ld by variable %ld%s is %.9g, not %.9g", t.what, (long)r, (long)k, how, jac(r, k), w);
    }
}
void check(const Term& t, const VectorXd& q, Idx cols)
{
  VectorXd want, v, co;
  std::vector<Bounds> b;
  const bool some = expected(t, q, want);
  const int r = guarded([&] { v = t.set->getValues(); });
  if (r == 0 && !some)
    sim::fail("no-solution", "%s: there is no solution, and the constraint has a value all the same", t.what);
  if (r == 2 && some)
    sim::fail("error", "%s: the evaluation failed without a reason", t.what);
  if (r == 2)
    sim::cover("op.no_solution");
  if (r == 0)
    check_values(t, v, want, "");
  co = t.set->getCoefficients(), b = t.set->getBounds();
  const Idx rows = (Idx)t.bounds.size();
  if (t.set->getRows() != rows || co.size() != rows || (Idx)b.size() != rows)
    sim::fail("rows", "%s: %ld rows, %ld coefficients and %zu bounds where %ld are expected", t.what, (long)t.set->getRows(), (long)co.size(), b.size(), (long)rows);
  for (Idx k = 0; k < rows; ++k)
    if (co[k] != t.coeff[k] || b[(size_t)k].getLower() != t.bounds[(size_t)k].getLower() || b[(size_t)k].getUpper() != t.bounds[(size_t)k].getUpper())
      sim::fail("settings", "%s: row %ld has coefficient %g and bounds [%g, %g], not %g and [%g, %g]", t.what, (long)k, co[k], b[(size_t)k].getLower(), b[(size_t)k].getUpper(), t.coeff[k], t.bounds[(size_t)k].getLower(),
                t.bounds[(size_t)k].getUpper());
  if (rows == 0)
    return;
  Jacobian js;
  if (guarded([&] { js = t.set->getJacobian(); }) == 0)
    check_derivative(t, js, q, cols, "");
  sim::cover("op.check");
  sim::nontrivial();
}
// at joint values that are not those of the variable
void ask(const Term& t, Idx cols)
{
  if (t.ik || t.bounds.empty())
    return;
  VectorXd q(world.dof), v;
  for (Idx k = 0; k < q.size(); ++k)
    q[k] = sim::real(-0.8, 0.8, "q");
  if (guarded([&] { v = t.pos ? t.pos->calcValues(q) : t.line->calcValues(q); }) == 0)
    check_values(t, v, t.err(q), " (at given joints)");
  Jacobian js((Idx)t.bounds.size(), cols);
  if (guarded([&] { t.pos ? t.pos->calcJacobianBlock(js, q) : t.line->calcJacobianBlock(js, q); }) == 0)
    check_derivative(t, js, q, cols, " (at given joints)");
  sim::cover("op.ask");
}

struct Shared2  // constraints that both threads evaluate
{
  std::vector<std::shared_ptr<Term>> terms;
  Idx cols = 0;
} both;

void differences()
{
  const Idx n = 1 + (Idx)sim::choose(4, "n"), m = 1 + (Idx)sim::choose(3, "m");
  MatrixXd a(m, n);
  VectorXd x(n);
  for (Idx i = 0; i < m; ++i)
    for (Idx k = 0; k < n; ++k)
      a(i, k) = sim::chance(1, 4, "zero") ? 0 : sim::real(-2, 2, "a");
  for (double& v : x)
    v = sim::real(-1, 1, "x");
  int left = sim::faults_on() && sim::chance(1, 8, "fault") ? (int)sim::choose((uint64_t)n + 1, "call") : -1;
  std::vector<VectorXd> asked;
  const ErrorCalculator f = [&](const Eigen::Ref<const VectorXd>& p) -> VectorXd {
    if (left >= 0 && left-- == 0)
      throw TestError{ "fault.function_throws" };
    asked.push_back(p);
    VectorXd v(m);
    for (Idx i = 0; i < m; ++i)
      v[i] = std::sin(a.row(i).dot(p));
    return v;
  };
  try
  {
    const VectorXd before = x;
    const MatrixXd jac(calcForwardNumJac(f, x, 1e-6));
    if (x != before)
      sim::fail("differences", "the point is not the one it was");
    if (jac.rows() != m || jac.cols() != n)
      sim::fail("differences", "%ld x %ld derivatives of %ld functions of %ld variables", (long)jac.rows(), (long)jac.cols(), (long)m, (long)n);
    for (Idx i = 0; i < m; ++i)
      for (Idx k = 0; k < n; ++k)
        if (!near(jac(i, k), std::cos(a.row(i).dot(x)) * a(i, k), 1e-4))
          sim::fail("differences", "the derivative of function %ld by variable %ld is %.9g, not %.9g", (long)i, (long)k, jac(i, k), std::cos(a.row(i).dot(x)) * a(i, k));
    for (const auto& p : asked)
      if ((p - x).cwiseAbs().maxCoeff() > 1.5e-6)
        sim::fail("differences", "the functions were evaluated away from the point");
  }
  catch (const TestError& e)
  {
    sim::cover(e.fault);
  }
}

void history(bool share)
{
  const int steps = 1 + (int)sim::choose(4, "steps");
  const Idx n = world.dof;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::shared_ptr<const Var>> pos;
  const auto names = world.manip->getJointNames();
  for (int i = 0; i < steps; ++i)
  {
    auto node = std::make_unique<Node>("n" + std::to_string(i));
    const int around = (int)sim::choose(4, "around");
    if (around & 1)
      node->addVar("before", 0.5);
    pos.push_back(node->addVar("position", names, VectorXd::Zero(n), std::vector<Bounds>((size_t)n, NoBound)));
    if (around & 2)
      node->addVar("after", 1.5);
    nodes.push_back(std::move(node));
  }
  std::shared_ptr<NodesVariables> vars;
  if (!sim::chance(1, 4, "constraints-first"))
    vars = std::make_shared<NodesVariables>("joints", std::move(nodes));
  std::vector<std::shared_ptr<Term>> terms;
  for (int i = 1 + (int)sim::choose(4, "terms"); i > 0; --i)
  {
    const auto& v = pos[sim::choose((uint64_t)steps, "state")];
    std::shared_ptr<Term> t;
    switch (sim::choose(3, "kind"))
    {
      case 0: t = make_pos(v); break;
      case 1: t = make_line(v); break;
      default: t = make_ik(v, pos[sim::choose((uint64_t)steps, "seed")]);
    }
    if (t)
      terms.push_back(t);
  }
  if (!vars)
    vars = std::make_shared<NodesVariables>("joints", std::move(nodes));
  const Idx cols = vars->getRows();
  for (auto& t : terms)
    t->set->linkWithVariables(vars);
  std::vector<VectorXd> seen;
  auto move = [&] {
    VectorXd x;
    const int how = seen.empty() ? 0 : (int)sim::choose(3, "how");
    if (how == 1)
      x = seen[sim::choose(seen.size(), "again")], sim::cover("op.revisit");
    else if (how == 2)
      x = vars->getValues(), x[(Idx)sim::choose((uint64_t)cols, "which")] = sim::real(-0.8, 0.8, "x");
    else
    {
      x.resize(cols);
      for (Idx k = 0; k < cols; ++k)
        x[k] = sim::real(-0.8, 0.8, "x");
    }
    vars->setVariables(x);
    seen.push_back(x);
  };
  move();
  int other = -1;
  if (share)
  {
    both.terms = terms, both.cols = cols;
    other = sim::spawn([](void*) { history(false); }, nullptr);
  }
  for (int u = 0, m = 1 + (int)sim::logchoose(10, "updates"); u < m; ++u)
  {
    if (u)
      move();
    for (auto& t : terms)
    {
      if (sim::chance(1, 4, "skip"))
        continue;
      if (!share && sim::chance(1, 6, "new-pose") && !t->line)
      {
        t->to = draw_pose(0.8);
        if (t->pos)
          t->pos->setTargetPose(t->to);
        else
          t->ik->setTargetPose(t->to);
        sim::cover("op.new_pose");
      }
      if (t->set->update() != (int)t->bounds.size())
        sim::fail("rows", "%s: an update changes the number of rows", t->what);
      check(*t, t->var->value(), cols);
      if (t->pos && sim::chance(1, 4, "poses"))
      {
        if (t->pos->getTargetPose().matrix() != t->to.matrix())
          sim::fail("pose", "the target pose is not the one set");
        Eigen::Isometry3d p;
        if (guarded([&] { p = t->pos->getCurrentPose(); }) == 0 && !p.isApprox(pose_of(t->source, t->var->value()) * t->so, 1e-9))
          sim::fail("pose", "the current pose is not that of the source");
      }
      if (t->line && sim::chance(1, 4, "poses"))
      {
        const auto l = t->line->getLine();
        if (l.first.matrix() != t->to.matrix() || l.second.matrix() != t->to2.matrix())
          sim::fail("pose", "the line is not the one set");
      }
    }
    for (auto& t : share || !both.terms.empty() ? both.terms : terms)
      if (sim::chance(1, 3, "ask"))
        ask(*t, share || !both.terms.empty() ? both.cols : cols);
    if (sim::chance(1, 4, "trajectory"))
    {
      tesseract::common::TrajArray a;
      tesseract::common::JointTrajectory j;
      if (guarded([&] { a = toTrajArray(pos), j = toJointTrajectory(pos); }) == 0)
      {
        if (a.rows() != steps || a.cols() != n || (int)j.states.size() != steps)
          sim::fail("trajectory", "%ld x %ld values and %zu states of %d states of %ld joints", (long)a.rows(), (long)a.cols(), j.states.size(), steps, (long)n);
        for (int i = 0; i < steps; ++i)
          if (a.row(i).transpose() != pos[(size_t)i]->value() || j.states[(size_t)i].position != pos[(size_t)i]->value() || j.states[(size_t)i].joint_names != pos[(size_t)i]->name())
            sim::fail("trajectory", "state %d is not that of the variables", i);
      }
    }
    if (sim::chance(1, 6, "differences"))
      differences();
  }
  if (other >= 0)
    sim::join(other);
}
}  // namespace

SIM_WORLD(cartesian_terms)
{
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  sim::set_racecheck(true);
  sim::set_uafcheck(true);
  sim::set_step_limit(200000000);
  draw_scene(!sim::chance(1, 5, "prismatic"));
  world.scene->live = nullptr;
  world.scene->on_kin = [] {
    int& t = kin_in[sim::self() & 3];
    if (t >= 0 && t-- == 0)
      throw TestError{ "fault.kinematics_throw" };
  };
  world.scene->on_ik = [](const Eigen::Isometry3d& p, const std::string& f, const std::string& tip, const VectorXd& seed) {
    world.scene->on_kin();
    int& t = none_in[sim::self() & 3];
    if (t >= 0 && t-- == 0)
    {
      t = -2;
      sim::cover("fault.inverse_kinematics_fail");
      return std::vector<VectorXd>();
    }
    return solutions(p, f, tip, seed);
  };
  arm = std::make_shared<tesseract::kinematics::KinematicGroup>(world.scene);
  both = Shared2();
  alone = !sim::chance(1, 3, "second-thread");
  if (!alone)
    sim::cover("op.two_threads");
  history(!alone);
  both = Shared2();
  arm = nullptr;
  world = Shared();
}
