// P24: whole plans with trajopt_ifopt and trajopt_sqp: joint, pose, line, inverse kinematics and collision terms, the trust-region
// solver, the OSQP wrapper and the plotting callbacks, over the stand-in for Tesseract. A plan made on its own is compared with the
// same plan made again (same or new problem and solver), next to another planner, watched by callbacks that fail, and after plans
// that were broken off by exceptions; what is reported is recomputed by terms that have seen nothing else.
#include <trajopt_ifopt/constraints/cartesian_line_constraint.h>
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_numerical_constraint.h>
#include <trajopt_ifopt/constraints/inverse_kinematics_constraint.h>
#include <trajopt_ifopt/constraints/joint_acceleration_constraint.h>
#include <trajopt_ifopt/constraints/joint_jerk_constraint.h>
#include <trajopt_ifopt/constraints/joint_position_constraint.h>
#include <trajopt_ifopt/constraints/joint_velocity_constraint.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <trajopt_sqp/callbacks/cartesian_error_plotter.h>
#include <trajopt_sqp/callbacks/clear_plotter.h>
#include <trajopt_sqp/callbacks/joint_state_plotter.h>
#include <trajopt_sqp/callbacks/wait_for_input.h>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/osqp_eigen_solver.h>
#include <trajopt_sqp/sqp_callback.h>
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
#include <tesseract/kinematics/kinematic_group.h>
#include <tesseract/visualization/visualization.h>
#include <console_bridge/console.h>
#include <qp/canon.h>
#include <algorithm>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include "coll_scene.hpp"

using namespace trajopt_ifopt;
using namespace trajopt_sqp;
namespace
{
std::shared_ptr<const tesseract::kinematics::KinematicGroup> arm;
long fuse_kin = -1, fuse_test = -1, fuse_tested = -1, fuse_none = -1, fuse_alloc = -1;  // steps until they fail, whoever takes them
bool fired;
bool burn(long& f)
{
  sim::Quiet q;
  if (f < 0 || f-- != 0)
    return false;
  return fired = true;
}
void defuse() { fuse_kin = fuse_test = fuse_tested = fuse_none = fuse_alloc = -1, fired = false; }
bool near(double a, double b, double tol) { return std::abs(a - b) <= tol * (1 + std::abs(b)) || (std::isnan(a) && std::isnan(b)); }

// ---- a problem ---------------------------------------------------------------------------------------------------------
struct Pose
{
  std::string source, target;
  Eigen::Isometry3d so, to;
  size_t at = 0;
};
struct Built
{
  std::shared_ptr<NodesVariables> vars;
  std::vector<std::shared_ptr<const Var>> pos;
  QPProblem::Ptr qp;
  std::vector<std::shared_ptr<const CartPosConstraint>> poses;
};
struct Plan
{
  int n = 0;
  bool ifopt = false, noise = false;
  VectorXd x0;
  std::vector<Bounds> limits;  // of all joints of all steps
  std::vector<std::function<void(Built&)>> terms;
  std::vector<Pose> poses;  // of moving sources
  SQPParameters par;
  std::vector<long> broken;  // solves that fail, by the content of the problem
};
Eigen::Isometry3d draw_pose(double r)
{
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  t.translation() = draw_point(r);
  if (sim::chance(1, 2, "turned"))
  {
    Eigen::Quaterniond q(sim::real(0.2, 1, "w"), sim::real(-1, 1, "x"), sim::real(-1, 1, "y"), sim::real(-1, 1, "z"));
    q.normalize();
    t.linear() = q.toRotationMatrix();
  }
  return t;
}
std::string some_link(bool active)
{
  std::vector<std::string> v;
  for (const auto& l : world.scene->links)
    if (world.scene->active(l) == active)
      v.push_back(l.name);
  return v.empty() ? "" : v[sim::choose(v.size(), "link")];
}
VectorXd draw_state(double r)
{
  VectorXd q(world.dof);
  for (Idx j = 0; j < q.size(); ++j)
    q[j] = sim::real(-r, r, "q");
  return q;
}
enum How
{
  SQUARED = 0,
  ABSOLUTE,
  HINGE,
  CONSTRAINT
};
void add(Built& b, const std::shared_ptr<ConstraintSet>& s, How h)
{
  if (h == CONSTRAINT)
    b.qp->addConstraintSet(s);
  else
    b.qp->addCostSet(s, h == SQUARED ? CostPenaltyType::kSquared : h == ABSOLUTE ? CostPenaltyType::kAbsolute : CostPenaltyType::kHinge);
}
How draw_how(const Plan& p) { return p.ifopt ? (sim::chance(1, 2, "cost") ? SQUARED : CONSTRAINT) : sim::chance(1, 2, "constraint") ? CONSTRAINT : sim::chance(1, 2, "absolute") ? ABSOLUTE : SQUARED; }
template <class C>
void add_joint_term(Plan& p, int least)
{
  if (p.n < least)
    return;
  const How h = sim::chance(5, 6, "cost") ? (!p.ifopt && sim::chance(1, 4, "absolute") ? ABSOLUTE : SQUARED) : CONSTRAINT;
  const VectorXd c = VectorXd::Constant(sim::chance(1, 2, "one-coefficient") ? 1 : world.dof, sim::real(0.1, 5, "coeff"));
  const VectorXd to = sim::chance(1, 3, "moving") ? draw_state(0.5) : VectorXd::Zero(world.dof);
  p.terms.emplace_back([=](Built& b) { add(b, std::make_shared<C>(to, b.pos, c, "smooth"), h); });
}
void add_collisions(Plan& p, int k)
{
  const bool prismatic = std::none_of(world.scene->joints.begin(), world.scene->joints.end(), [](const tesseract::SceneJoint& j) { return j.revolute; });
  static const CollisionEvaluatorType kinds[4] = { CollisionEvaluatorType::DISCRETE, CollisionEvaluatorType::LVS_DISCRETE, CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS };
  Settings s = draw_settings(kinds[sim::choose(prismatic ? 4 : 2, "kind")]);
  if (s.config.collision_check_config.longest_valid_segment_length < 0.6)
    s.config.collision_check_config.longest_valid_segment_length = 0.6;
  const How h = p.ifopt || sim::chance(1, 2, "constraint") ? CONSTRAINT : HINGE;
  int form = (int)sim::choose(3, "form");  // 0: weighted average, 1: numerical, 2: a row for every contact
  if (p.ifopt && form == 2)
    form = 0;
  const int rows = 1 + (int)sim::choose(3, "rows");
  const bool sparsity = sim::chance(1, 3, "fixed-sparsity"), shared = sim::chance(2, 3, "one-evaluator"), fixed0 = sim::chance(1, 4, "first-fixed");
  const std::string name = "clear" + std::to_string(k);
  p.terms.emplace_back([=](Built& b) {
    std::shared_ptr<DiscreteCollisionEvaluator> d;
    std::shared_ptr<ContinuousCollisionEvaluator> c;
    for (size_t i = 0; i < b.pos.size(); ++i)
    {
      if (s.type == CollisionEvaluatorType::DISCRETE)
      {
        if (!d || !shared)
          d = std::make_shared<SingleTimestepCollisionEvaluator>(world.manip, world.env, s.config, s.dynamic);
        if (form == 0)
          add(b, std::make_shared<DiscreteCollisionConstraint>(d, b.pos[i], rows, sparsity, name), h);
        else if (form == 1)
          add(b, std::make_shared<DiscreteCollisionNumericalConstraint>(d, b.pos[i], rows, sparsity, name), h);
        else
          add(b, std::make_shared<DiscreteCollisionConstraintD>(d, b.pos[i], name), h);
        continue;
      }
      if (i + 1 == b.pos.size())
        break;
      if (!c || !shared)
      {
        if (s.type == CollisionEvaluatorType::LVS_DISCRETE)
          c = std::make_shared<LVSDiscreteCollisionEvaluator>(world.manip, world.env, s.config, s.dynamic);
        else
          c = std::make_shared<LVSContinuousCollisionEvaluator>(world.manip, world.env, s.config, s.dynamic);
      }
      const std::array<std::shared_ptr<const Var>, 2> v{ b.pos[i], b.pos[i + 1] };
      const bool f = i == 0 && fixed0;
      if (form == 0)
        add(b, std::make_shared<ContinuousCollisionConstraint>(c, v, f, false, rows, sparsity, name), h);
      else if (form == 1)
        add(b, std::make_shared<ContinuousCollisionNumericalConstraint>(c, v, f, false, rows, sparsity, name), h);
      else
        add(b, std::make_shared<ContinuousCollisionConstraintD>(c, v, f, false, name), h);
    }
  });
}
Plan draw_plan()
{
  Plan p;
  p.n = 2 + (int)sim::choose(2 + sim::chance(1, 4, "longer"), "steps");
  p.ifopt = sim::chance(1, 4, "ifopt");
  p.noise = sim::chance(1, 3, "other-variables");
  const Idx d = world.dof;
  p.x0.resize(p.n * d);
  for (double& x : p.x0)
    x = sim::real(-1.2, 1.2, "x0");
  std::vector<Bounds> one;
  for (Idx j = 0; j < d; ++j)
    one.emplace_back(-sim::real(1.2, 3, "lower"), sim::real(1.2, 3, "upper"));
  const bool start = sim::chance(2, 3, "start-fixed"), end = p.n > 2 && sim::chance(1, 4, "end-fixed");
  for (int i = 0; i < p.n; ++i)
    for (Idx j = 0; j < d; ++j)
    {
      const double x = p.x0[i * d + j];
      p.limits.push_back((i == 0 && start) || (i == p.n - 1 && end) ? Bounds(x, x) : one[(size_t)j]);
    }
  add_joint_term<JointVelConstraint>(p, 2);
  if (sim::chance(1, 3, "acceleration"))
    add_joint_term<JointAccelConstraint>(p, 4);
  if (sim::chance(1, 4, "jerk"))
    add_joint_term<JointJerkConstraint>(p, 6);
  if (sim::chance(1, 2, "goal"))
  {
    const How h = draw_how(p);
    const VectorXd to = draw_state(1.2), c = VectorXd::Constant(d, sim::real(0.5, 5, "coeff"));
    if (h == CONSTRAINT && sim::chance(1, 2, "range"))
      p.terms.emplace_back([=](Built& b) {
        std::vector<Bounds> r;
        for (double v : to)
          r.emplace_back(v - 0.2, v + 0.2);
        add(b, std::make_shared<JointPosConstraint>(r, b.pos.back(), c, "goal"), h);
      });
    else
      p.terms.emplace_back([=](Built& b) { add(b, std::make_shared<JointPosConstraint>(to, b.pos.back(), c, "goal"), h); });
  }
  for (int k = sim::chance(1, 2, "pose") ? 1 + (int)sim::choose(2, "poses") : 0; k > 0; --k)
  {
    Pose m{ some_link(true), some_link(false), draw_pose(0.3), draw_pose(0.5) };
    if (m.source.empty() || m.target.empty())
      break;
    const How h = draw_how(p);
    const size_t at = m.at = sim::choose((uint64_t)p.n, "step");
    const bool numeric = sim::chance(2, 3, "numeric"), turn = sim::chance(1, 2, "rotation"), swap = sim::chance(1, 4, "moving-target");
    const double c = sim::real(0.5, 3, "coeff");
    if (!swap)
      p.poses.push_back(m);
    p.terms.emplace_back([=](Built& b) {
      VectorXd co = VectorXd::Constant(6, c);
      co.tail<3>().setConstant(turn ? 0.5 : 0);
      auto t = std::make_shared<CartPosConstraint>(b.pos[at], co, std::vector<Bounds>(6, BoundZero), world.manip, swap ? m.target : m.source, swap ? m.source : m.target, m.so, m.to, "pose" + std::to_string(k));
      t->use_numeric_differentiation = numeric;
      if (!swap)
        b.poses.push_back(t);
      add(b, t, h);
    });
  }
  if (sim::chance(1, 4, "line"))
  {
    const std::string s = some_link(true), g = some_link(false);
    if (!s.empty() && !g.empty())
    {
      const Eigen::Isometry3d a = draw_pose(0.8), so = draw_pose(0.3);
      Eigen::Isometry3d e = draw_pose(0.8);
      if ((a.translation() - e.translation()).norm() < 0.05)
        e.translation() += Eigen::Vector3d(0.5, -0.25, 1);
      const size_t at = sim::choose((uint64_t)p.n, "step");
      const How h = draw_how(p);
      p.terms.emplace_back([=](Built& b) {
        Eigen::VectorXi rows(3);
        rows << 0, 1, 2;
        add(b, std::make_shared<CartLineConstraint>(CartLineInfo(world.manip, s, g, a, e, so, rows), b.pos[at], VectorXd::Constant(3, 1.5), "line"), h);
      });
    }
  }
  if (sim::chance(1, 3, "inverse-kinematics"))
  {
    const std::string s = some_link(true), g = sim::chance(1, 2, "frame") ? "the base" : some_link(false);
    if (!s.empty() && !g.empty())
    {
      const Eigen::Isometry3d to = draw_pose(1);
      const size_t at = sim::choose((uint64_t)p.n, "step"), seed = sim::choose((uint64_t)p.n, "seed");
      const How h = draw_how(p);
      p.terms.emplace_back([=](Built& b) {
        auto info = std::make_shared<InverseKinematicsInfo>(arm, g, s);
        add(b, std::make_shared<InverseKinematicsConstraint>(to, info, b.pos[at], b.pos[seed], "reach"), h);
      });
    }
  }
  for (int k = (int)sim::choose(3, "collisions"); k > 0; --k)
    add_collisions(p, k);
  auto& o = p.par;
  o.max_iterations = 1 + (int)sim::choose(8, "iterations");
  o.max_merit_coeff_increases = 1 + (int)sim::choose(3, "increases");
  o.initial_trust_box_size = sim::real(0.05, 1, "box");
  if (sim::chance(1, 2, "ratios"))
    o.trust_expand_ratio = sim::real(1.1, 8, "expand"), o.trust_shrink_ratio = sim::real(0.1, 0.7, "shrink"), o.merit_coeff_increase_ratio = sim::real(1.5, 20, "increase");
  o.min_trust_box_size = 0.01;
  o.min_approx_improve_frac = sim::chance(1, 2, "frac") ? 1e-3 : std::numeric_limits<double>::lowest();
  o.improve_ratio_threshold = sim::real(0, 0.4, "ratio");
  o.initial_merit_error_coeff = sim::real(1, 50, "penalty");
  o.inflate_constraints_individually = sim::chance(1, 2, "individually");
  o.max_qp_solver_failures = 1 + (int)sim::choose(3, "failures");
  if (sim::faults_on() && sim::chance(1, 3, "failing-solver"))
    for (int k = 1 + (int)sim::choose(2, "broken"); k > 0; --k)
      p.broken.push_back((long)sim::choose(8, "which"));
  return p;
}
Built build(const Plan& p)
{
  Built b;
  const Idx d = world.dof;
  std::vector<std::unique_ptr<Node>> nodes;
  for (int i = 0; i < p.n; ++i)
  {
    auto node = std::make_unique<Node>("n" + std::to_string(i));
    if (p.noise && i % 2)
      node->addVar("before", 0.5);
    b.pos.push_back(node->addVar("position", world.manip->getJointNames(), p.x0.segment(i * d, d), std::vector<Bounds>(p.limits.begin() + i * d, p.limits.begin() + (i + 1) * d)));
    nodes.push_back(std::move(node));
  }
  b.vars = std::make_shared<NodesVariables>("joints", std::move(nodes));
  if (p.ifopt)
    b.qp = std::make_shared<IfoptQPProblem>(b.vars);
  else
    b.qp = std::make_shared<TrajOptQPProblem>(b.vars);
  for (const auto& t : p.terms)
    t(b);
  b.qp->setup();
  return b;
}
VectorXd start_of(const Plan& p, const Built& b)
{
  VectorXd x = VectorXd::Constant(b.vars->getRows(), 0.5);
  for (int i = 0; i < p.n; ++i)
    x.segment(b.pos[(size_t)i]->getIndex(), world.dof) = p.x0.segment(i * world.dof, world.dof);
  return x;
}

// ---- the numerical solver ----------------------------------------------------------------------------------------------
const Plan* watched;
std::map<uint64_t, qpstub::Answer> solved;
void solver(const qpstub::Canon& c, qpstub::Answer& a)
{
  a.x.assign((size_t)c.n, 0);
  const uint64_t s = qpstub::signature(c);
  for (long b : watched->broken)
    if ((long)(s % 8) == b)
    {
      sim::cover("fault.qp_failure");
      a.outcome = s & 64 ? qpstub::GAVE_UP : qpstub::PRIMAL_INFEASIBLE;
      return;
    }
  if (c.n > 140 || c.rows.size() > 180)  // too large for the stand-in
  {
    sim::cover("qp_too_large");
    a.outcome = qpstub::GAVE_UP;
    return;
  }
  auto it = solved.find(s);  // all plans of a run have the same subproblems
  if (it == solved.end())
  {
    it = solved.emplace(s, qpstub::Answer()).first;
    qpstub::solve_numerically(c, it->second);
  }
  a = it->second;
}

// ---- a planning run ----------------------------------------------------------------------------------------------------
struct Point
{
  VectorXd x, cost, viol;
};
struct Step
{
  Point best, seen;
  VectorXd box, coeffs;
};
struct Ended
{
  bool threw = false;
  SQPStatus status = SQPStatus::kRunning;
  SQPResults r;
  std::vector<Step> its;
};
struct Watch
{
  bool state = false, pose = false, clear = false, wait = false;
  long show_throws = -1, stop = -1;
};
struct Recorder : SQPCallback
{
  Ended* e;
  long* stop;
  bool execute(const QPProblem& qp, const SQPResults& r) override
  {
    sim::Quiet q;
    const Idx n = qp.getNumNLPVars();  // the others are slack variables
    e->its.push_back({ { r.best_var_vals.head(n), r.best_costs, r.best_constraint_violations }, { r.new_var_vals.head(n), r.new_costs, r.new_constraint_violations }, r.box_size, r.merit_error_coeffs });
    if (qp.getVariableValues() != e->its.back().best.x)
      sim::fail("callbacks", "in a callback the variables do not have the best values");
    if (stop && *stop >= 0 && (*stop)-- == 0)
    {
      sim::cover("fault.callback_stops");
      return false;
    }
    return true;
  }
};
struct Shown
{
  size_t states = 0, current = 0, target = 0, arrows = 0, clears = 0, waits = 0;
};
Eigen::Isometry3d pose_of(const std::string& l, const VectorXd& q)
{
  Scene s(*world.scene);
  s.on_kin = nullptr;
  return s.pose(*s.find(l), s.full(q));
}
struct Kept  // a solver and its callbacks, which plan more than once
{
  std::shared_ptr<TrustRegionSQPSolver> s;
  std::shared_ptr<Recorder> rec;
  std::shared_ptr<tesseract::visualization::Visualization> vis;
  Watch w;
  const Plan* of = nullptr;
};
Ended run(const Plan& p, Built& b, const std::shared_ptr<QPSolver>& qps, Watch* w = nullptr, bool alone = true, Kept* kept = nullptr)
{
  Ended e;
  Kept now_only;
  Kept& k = kept ? *kept : now_only;
  {
    sim::Quiet q;
    watched = &p;
    qpstub::solver = solver;
  }
  const bool first = !k.s;
  if (first)
  {
    k.s = std::make_shared<TrustRegionSQPSolver>(qps);
    k.rec = std::make_shared<Recorder>();
    k.s->registerCallback(k.rec);
    k.vis = std::make_shared<tesseract::visualization::Visualization>();
    if (w)
      k.w = *w;
  }
  else if (w)
    w->state = k.w.state, w->pose = k.w.pose, w->clear = k.w.clear, w->wait = k.w.wait;
  TrustRegionSQPSolver& s = *k.s;
  if (k.of != &p)  // otherwise it still has them
    s.params = p.par;
  k.of = &p;
  k.rec->e = &e;
  k.rec->stop = w ? &w->stop : nullptr;
  Shown shown;
  const auto names = world.manip->getJointNames();
  if (w)
  {
    const auto& vis = k.vis;
    auto explode = [w] {
      if (burn(w->show_throws))
        throw TestError{ "fault.plotter_throws" };
    };
    auto now = [&](int i) { return VectorXd(e.its.back().best.x.segment(b.pos[(size_t)i]->getIndex(), world.dof)); };
    vis->on_show = [&, explode, now](const tesseract::common::JointTrajectory* t) {
      if (!t)
        return;
      explode();
      ++shown.states;
      if ((int)t->states.size() != p.n)
        sim::fail("shown", "a trajectory of %zu states is shown, not %d", t->states.size(), p.n);
      for (int i = 0; i < p.n; ++i)
        if (t->states[(size_t)i].joint_names != names || t->states[(size_t)i].position != now(i))
          sim::fail("shown", "state %d that is shown is not that of the plan", i);
    };
    vis->on_marker = [&, explode](const tesseract::visualization::Marker& m) {
      explode();
      if (p.poses.empty())
        sim::fail("shown", "a pose is shown, and there is none");
      const Pose& c = p.poses[shown.arrows % p.poses.size()];
      const Eigen::Isometry3d is = pose_of(c.source, now((int)c.at)) * c.so;
      if (auto* r = dynamic_cast<const tesseract::visualization::ArrowMarker*>(&m))
      {
        if (!(r->from - is.translation()).isZero(1e-9))
          sim::fail("shown", "the arrow of a pose does not begin there");
        ++shown.arrows;
      }
      else if (auto* x = dynamic_cast<const tesseract::visualization::AxisMarker*>(&m))
      {
        if (shown.current > shown.target)  // the pose wanted
          ++shown.target;
        else if (++shown.current, !x->pose.isApprox(is, 1e-9))
          sim::fail("shown", "a pose is shown that is not that of link '%s' in the plan", c.source.c_str());
      }
    };
    vis->on_clear = [&, explode] { explode(), ++shown.clears; };
    vis->on_wait = [&, explode] { explode(), ++shown.waits; };
    if (first && w->clear)
      s.registerCallback(std::make_shared<ClearPlotterCallback>(vis));
    if (first && w->state)
    {
      auto c = std::make_shared<JointStatePlottingCallback>(vis, std::make_unique<tesseract::scene_graph::StateSolver>());
      if (sim::chance(1, 2, "one-by-one"))
        for (const auto& v : b.pos)
          c->addVariableSet(v);
      else
        c->addVariableSet(b.pos);
      s.registerCallback(c);
    }
    if (first && w->pose)
    {
      auto c = std::make_shared<CartesianErrorPlottingCallback>(vis);
      c->addConstraintSet(b.poses);
      s.registerCallback(c);
    }
    if (first && w->wait)
      s.registerCallback(std::make_shared<WaitForInputCallback>(vis));
  }
  else
    k.vis->on_show = nullptr, k.vis->on_marker = nullptr, k.vis->on_clear = nullptr, k.vis->on_wait = nullptr;
  const VectorXd x0 = start_of(p, b);
  bool none = false;
  try
  {
    sim::alloc_fail_in(fuse_alloc);
    b.qp->setVariables(x0.data());
    s.solve(b.qp);
    sim::alloc_fail_in(-1);
    e.status = s.getStatus();
  }
  catch (const std::bad_alloc&)
  {
    {
      sim::Quiet q;
      none = sim::alloc_failed();
    }
    sim::alloc_fail_in(-1);
    if (!none)
      throw;
    e.threw = true;
    sim::cover("fault.alloc_failure");
  }
  catch (const TestError& t)
  {
    sim::alloc_fail_in(-1);
    e.threw = true;
    sim::cover(t.fault);
  }
  catch (const std::runtime_error&)
  {
    sim::alloc_fail_in(-1);
    {
      sim::Quiet q;
      none = fired && fuse_none == -2;
    }
    if (!none)
      throw;
    e.threw = true;
    sim::cover("fault.no_solution");
  }
  {
    sim::Quiet q;
    if (alone && fired && !e.threw)
      sim::fail("exception", "an exception does not reach the caller of the solver");
  }
  e.r = s.getResults();
  if (e.r.best_var_vals.size() > x0.size())
    e.r.best_var_vals = VectorXd(e.r.best_var_vals.head(x0.size()));
  if (!e.threw)
  {
    if (b.qp->getVariableValues() != e.r.best_var_vals || b.vars->getValues() != e.r.best_var_vals)
      sim::fail("variables", "after the plan the variables do not have the best values");
    for (int i = 0; i < p.n; ++i)
      if (b.pos[(size_t)i]->value() != e.r.best_var_vals.segment(b.pos[(size_t)i]->getIndex(), world.dof))
        sim::fail("variables", "after the plan step %d does not have the best values", i);
    if (w)
    {
      const size_t n = e.its.size();
      if (shown.states != (w->state ? n : 0) || shown.current != (w->pose ? n * b.poses.size() : 0) || shown.target != shown.current || shown.arrows != shown.current || shown.clears != (w->clear ? n : 0) ||
          shown.waits != (w->wait ? n : 0))
        sim::fail("shown", "in %zu calls %zu trajectories, %zu + %zu poses and %zu arrows of %zu constraints are shown, with %zu clears and %zu waits", n, shown.states, shown.current, shown.target, shown.arrows,
                  b.poses.size(), shown.clears, shown.waits);
    }
  }
  sim::cover(p.ifopt ? "op.planned_ifopt" : "op.planned");
  if (!e.threw)
    sim::cover(("end." + toString(e.status)).c_str());
  return e;
}
std::shared_ptr<QPSolver> fresh_solver() { return std::make_shared<OSQPEigenSolver>(); }
bool same(const VectorXd& a, const VectorXd& b) { return a.size() == b.size() && (a.size() == 0 || !std::memcmp(a.data(), b.data(), (size_t)a.size() * sizeof(double))); }
bool same(const Point& a, const Point& b) { return same(a.x, b.x) && same(a.cost, b.cost) && same(a.viol, b.viol); }
std::string show(const VectorXd& v)
{
  std::string s;
  char b[40];
  for (double d : v)
    snprintf(b, sizeof b, " %.17g", d), s += b;
  return s;
}
void compare(const Ended& a, const Ended& b, const char* how, bool stopped = false)
{
  for (size_t k = 0; k < std::min(a.its.size(), b.its.size()); ++k)
  {
    const Step &i = a.its[k], &j = b.its[k];
    if (!same(i.best, j.best) || !same(i.seen, j.seen) || !same(i.box, j.box) || !same(i.coeffs, j.coeffs))
      sim::fail("differs", "%s: step %zu goes from%s to%s with costs%s violations%s box%s, on its own from%s to%s with costs%s violations%s box%s", how, k, show(j.best.x).c_str(), show(j.seen.x).c_str(),
                show(j.seen.cost).c_str(), show(j.seen.viol).c_str(), show(j.box).c_str(), show(i.best.x).c_str(), show(i.seen.x).c_str(), show(i.seen.cost).c_str(), show(i.seen.viol).c_str(), show(i.box).c_str());
  }
  if (b.threw)
    return;
  if (stopped)
  {
    if (b.status != SQPStatus::kStoppedByCallback || !same(b.its.back().best.x, b.r.best_var_vals))
      sim::fail("stopped", "%s: a callback stops the solver, which ends with %s at%s", how, toString(b.status).c_str(), show(b.r.best_var_vals).c_str());
    return;
  }
  if (a.its.size() != b.its.size() || a.status != b.status || !same(a.r.best_var_vals, b.r.best_var_vals) || !same(a.r.best_costs, b.r.best_costs) ||
      !same(a.r.best_constraint_violations, b.r.best_constraint_violations) || a.r.overall_iteration != b.r.overall_iteration)
    sim::fail("differs", "%s: %s after %zu steps at%s, on its own %s after %zu at%s", how, toString(b.status).c_str(), b.its.size(), show(b.r.best_var_vals).c_str(), toString(a.status).c_str(), a.its.size(),
              show(a.r.best_var_vals).c_str());
}
// what is reported of a plan, against terms that have seen nothing else
void check_truth(const Plan& p, const Ended& e)
{
  auto fresh = [&](const Point& at, const char* where) {
    Built b = build(p);
    b.qp->setVariables(at.x.data());
    const VectorXd c = b.qp->getExactCosts(), v = b.qp->getExactConstraintViolations();
    if (at.cost.size() != c.size() || at.viol.size() != v.size())
      sim::fail("reported", "%s, %ld costs and %ld violations are reported for %ld and %ld", where, (long)at.cost.size(), (long)at.viol.size(), (long)c.size(), (long)v.size());
    for (Idx k = 0; k < c.size(); ++k)
      if (!near(at.cost[k], c[k], 1e-9))
        sim::fail("reported", "%s, cost %ld is reported as %.9g; there it is %.9g", where, (long)k, at.cost[k], c[k]);
    for (Idx k = 0; k < v.size(); ++k)
      if (!near(at.viol[k], v[k], 1e-9))
        sim::fail("reported", "%s, constraint %ld is reported as violated by %.9g; there it is by %.9g", where, (long)k, at.viol[k], v[k]);
    for (int i = 0; i < p.n; ++i)
      for (Idx j = 0; j < world.dof; ++j)
      {
        const double x = at.x[b.pos[(size_t)i]->getIndex() + j];
        const Bounds& l = p.limits[(size_t)(i * world.dof + j)];
        if (!(x >= l.getLower() - 1e-4) || !(x <= l.getUpper() + 1e-4))
          sim::fail("limits", "%s, joint %ld of step %d is %.9g, outside [%g, %g]", where, (long)j, i, x, l.getLower(), l.getUpper());
      }
  };
  for (size_t k = 0; k < e.its.size(); ++k)
    for (Idx i = 0; i < e.its[k].seen.x.size(); ++i)
      if (!(std::abs(e.its[k].seen.x[i] - e.its[k].best.x[i]) <= e.its[k].box[i] + 1e-4))
        sim::fail("box", "step %zu moves variable %ld by %.9g, and the trust region is %.9g", k, (long)i, e.its[k].seen.x[i] - e.its[k].best.x[i], e.its[k].box[i]);
  if (!e.its.empty())
  {
    const auto& s = e.its[sim::choose(e.its.size(), "step")];
    fresh(s.seen, "at a step");
    if (sim::chance(1, 3, "best"))
      fresh(s.best, "at the best of a step");
  }
  fresh({ e.r.best_var_vals, e.r.best_costs, e.r.best_constraint_violations }, "at the end");
  if (e.status == SQPStatus::kConverged)
    for (double v : e.r.best_constraint_violations)
      if (!(v < p.par.cnt_tolerance))
        sim::fail("converged", "converged is reported with a violation of %.9g", v);
}
void set_fuse()
{
  switch (sim::choose(5, "fuse"))
  {
    case 4: fuse_alloc = 1 + (long)sim::logchoose(20000, "alloc"); break;
    case 0: fuse_kin = (long)sim::logchoose(2000, "kin"); break;
    case 1: fuse_test = (long)sim::logchoose(200, "test"); break;
    case 2: fuse_tested = (long)sim::logchoose(200, "tested"); break;
    default: fuse_none = (long)sim::logchoose(60, "none");
  }
}
Watch draw_watch()
{
  Watch w;
  w.state = sim::chance(1, 2, "plot-states"), w.pose = sim::chance(1, 2, "plot-poses"), w.clear = sim::chance(1, 3, "clear"), w.wait = sim::chance(1, 4, "wait");
  return w;
}
struct Planner
{
  const Plan* p;
  Built b;
  const Ended* ref;
  Watch* watch;
  int times;
};
void plan_next_to_another(void* a)
{
  Planner& me = *(Planner*)a;
  const auto s = fresh_solver();
  for (int k = 0; k < me.times; ++k)
  {
    const Ended e = run(*me.p, me.b, s, me.watch, false);
    if (e.threw)
      sim::fail("exception", "a planner throws for no reason");
    compare(*me.ref, e, "next to another planner");
  }
}
}  // namespace

SIM_WORLD(plans)
{
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  sim::set_racecheck(true);
  sim::set_uafcheck(true);
  sim::set_step_limit(2000000000);
  solved.clear();
  draw_scene(sim::chance(1, 2, "revolute-ok"));
  {
    auto s = std::make_shared<Scene>(*world.scene);
    s->live = nullptr;
    s->on_kin = [] {
      if (burn(fuse_kin))
        throw TestError{ "fault.kinematics_throws" };
    };
    s->on_test = [] {
      sim::cover("op.contact_test");
      if (burn(fuse_test))
        throw TestError{ "fault.contact_test_throws" };
    };
    s->on_tested = [] {
      if (burn(fuse_tested))
        throw TestError{ "fault.contact_test_throws_late" };
    };
    s->on_ik = [](const Eigen::Isometry3d& pose, const std::string& frame, const std::string& tip, const VectorXd&) {
      if (burn(fuse_kin))
        throw TestError{ "fault.kinematics_throws" };
      std::vector<VectorXd> v;
      if (burn(fuse_none))
      {
        sim::Quiet q;
        fuse_none = -2;
        return v;
      }
      const double h = pose.translation().dot(Eigen::Vector3d(1.3, 2.1, 0.7)) + 0.3 * pose.linear()(0, 1) + 0.17 * (double)tip[0] + 0.05 * (double)frame.size();
      for (int k = 0, n = 1 + (int)(std::abs(h) * 17) % 3; k < n; ++k)
      {
        VectorXd q(world.dof);
        for (Idx j = 0; j < q.size(); ++j)
          q[j] = 1.2 * std::sin(3 * h + 2.0 * k + 1.7 * (double)j);
        v.push_back(q);
      }
      return v;
    };
    world.env = std::make_shared<tesseract::environment::Environment>(s);
    world.manip = std::make_shared<tesseract::kinematics::JointGroup>(s);
    arm = std::make_shared<tesseract::kinematics::KinematicGroup>(s);
    world.scene = s;
  }
  defuse();
  const Plan p = draw_plan();
  Built b = build(p);
  auto qps = fresh_solver();
  const Ended ref = run(p, b, qps);
  check_truth(p, ref);
  if (!ref.its.empty())
    sim::nontrivial();
  sim::cover("steps", ref.its.size());
  std::unique_ptr<Plan> other;
  Built theirs;
  Ended their_ref;
  auto another = [&] { return sim::chance(1, 2, "same-problem") ? b : build(p); };
  auto another_solver = [&] { return sim::chance(1, 2, "same-solver") ? qps : fresh_solver(); };
  for (int k = 1 + (int)sim::choose(3, "more"); k > 0; --k)
    switch (sim::choose(6, "what"))
    {
      case 0:
      {
        Built mine = another();
        compare(ref, run(p, mine, another_solver()), "planned again");
        sim::cover("op.planned_again");
        break;
      }
      case 1:  // watched
      {
        Built mine = another();
        auto s = another_solver();
        for (int m = 1 + (int)sim::choose(2, "times"); m > 0; --m)
        {
          Watch w = draw_watch();
          if (sim::faults_on())
          {
            if (sim::chance(1, 4, "plotter-throws"))
              w.show_throws = (long)sim::logchoose(30, "show");
            if (sim::chance(1, 4, "stop"))
              w.stop = (long)sim::choose(6, "stop");
            if (sim::chance(1, 4, "fuse"))
              set_fuse();
          }
          const bool stops = w.stop >= 0 && (size_t)w.stop < ref.its.size();
          const Ended e = run(p, mine, s, &w);
          defuse();
          compare(ref, e, "watched by callbacks", stops);
          if (e.threw || stops)
          {
            Watch v = draw_watch();
            compare(ref, run(p, mine, s, &v), "after a callback has failed");
          }
        }
        sim::cover("op.watched");
        break;
      }
      case 2:  // broken off, and planned again
      {
        if (!sim::faults_on())
          break;
        Built mine = another();
        auto s = another_solver();
        for (int m = 1 + (int)sim::choose(2, "times"); m > 0; --m)
        {
          set_fuse();
          const Ended e = run(p, mine, s);
          defuse();
          compare(ref, e, "with a fault");
        }
        compare(ref, run(p, mine, sim::chance(1, 3, "new-solver") ? fresh_solver() : s), "after a plan that was broken off");
        sim::cover("op.planned_after_fault");
        break;
      }
      case 3:  // one solver with its callbacks, for several plans
      {
        Built mine = another();
        auto s = another_solver();
        Kept kept;
        for (int m = 2 + (int)sim::choose(3, "times"); m > 0; --m)
        {
          Watch w = draw_watch();
          if (sim::faults_on() && sim::chance(1, 2, "fault"))
            switch (sim::choose(3, "which"))
            {
              case 0: w.show_throws = (long)sim::logchoose(30, "show"); break;
              case 1: w.stop = (long)sim::choose(6, "stop"); break;
              default: set_fuse();
            }
          const bool stops = w.stop >= 0 && (size_t)w.stop < ref.its.size();
          const Ended e = run(p, mine, s, &w, true, &kept);
          defuse();
          compare(ref, e, "one of several plans of a solver", stops);
        }
        sim::cover("op.solver_kept");
        break;
      }
      case 4:  // another plan in between
      {
        if (!other)
        {
          other = std::make_unique<Plan>(draw_plan());
          theirs = build(*other);
          their_ref = run(*other, theirs, fresh_solver());
        }
        Built mine = another(), their = sim::chance(1, 2, "same-problem") ? theirs : build(*other);
        auto s = another_solver();
        Kept kept;
        Kept* const keep = sim::chance(1, 2, "keep") ? &kept : nullptr;
        for (int m = 2 + (int)sim::choose(3, "times"); m > 0; --m)
        {
          const bool is_mine = sim::chance(1, 2, "mine");
          if (sim::faults_on() && sim::chance(1, 3, "fuse"))
            set_fuse();
          const Ended e = run(is_mine ? p : *other, is_mine ? mine : their, s, nullptr, true, keep);
          defuse();
          compare(is_mine ? ref : their_ref, e, "another plan in between");
        }
        sim::cover("op.two_plans");
        break;
      }
      case 5:  // next to another planner
      {
        Watch w[2] = { draw_watch(), draw_watch() };
        const bool seen = sim::chance(1, 3, "watched");
        const int times = 1 + (int)sim::choose(2, "times");
        Planner x{ &p, build(p), &ref, seen ? w : nullptr, times }, y{ &p, build(p), &ref, seen ? w + 1 : nullptr, times };
        const int t = sim::spawn(plan_next_to_another, &y);
        plan_next_to_another(&x);
        sim::join(t);
        sim::cover("op.two_planners");
        break;
      }
    }
  b = theirs = Built();
  world = Shared();
  arm = nullptr;
}
