// P19: collision constraints of trajopt_ifopt over a stand-in for Tesseract (spheres; exact distances and derivatives). Seeded
// histories of trajectories, with revisits, failing contact checks and failing allocations, in one or two simulated threads,
// against the contacts computed afresh from the definition.
#include <tesseract/environment/environment.h>
#include <trajopt_common/collision_types.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_numerical_constraint.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <console_bridge/console.h>
#include <cmath>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <tuple>
#include <vector>
#include "rt/sim.h"
#include "coll_scene.hpp"

using namespace trajopt_ifopt;
namespace
{
// ---- one constraint -------------------------------------------------------------------------------------------------
struct Term
{
  const char* what;
  Settings s;
  std::shared_ptr<ConstraintSet> set;
  std::shared_ptr<const Var> v0, v1;
  bool fixed0 = false, fixed1 = false, numerical = false, each = false, sparsity = false;
  int rows = 0;
  bool fresh = false;
};
struct Group
{
  std::vector<const Contact*> contacts;
  double err = -1e300, coeff = 0;
};
bool near(double a, double b, double tol) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }

void check(const Term& t, const VectorXd& q0, const VectorXd& q1, Idx cols)
{
  Found f = find_contacts(t.s, q0, q1, t.fixed0, t.fixed1, t.numerical ? 1e-6 : 1e-9);
  if (f.unsure)
  {
    sim::cover("skip.unsure");
    return;
  }
  const bool two = t.s.type != CollisionEvaluatorType::DISCRETE;
  const Idx n = world.dof;
  const VectorXd val = t.set->getValues(), co = t.set->getCoefficients();
  const auto bounds = t.set->getBounds();
  const Jacobian js = t.set->getJacobian();
  const Eigen::MatrixXd jac(js);
  const Idx rows = t.each ? (Idx)f.contacts.size() : t.rows;
  if (t.set->getRows() != rows || val.size() != rows || co.size() != rows || (Idx)bounds.size() != rows || jac.rows() != rows || jac.cols() != cols)
    sim::fail("rows", "%s: %d rows, %ld values, %ld coefficients, %zu bounds and a derivative of %ld x %ld where %ld rows and %ld variables are expected", t.what, t.set->getRows(), (long)val.size(), (long)co.size(),
              bounds.size(), (long)jac.rows(), (long)jac.cols(), (long)rows, (long)cols);
  for (const auto& b : bounds)
    if (b.getUpper() != 0 || std::isfinite(b.getLower()))
      sim::fail("bounds", "%s: a row has bounds [%g, %g]", t.what, b.getLower(), b.getUpper());
  if (t.sparsity)
  {
    Eigen::MatrixXd has = Eigen::MatrixXd::Zero(rows, cols);
    for (Idx o = 0; o < js.outerSize(); ++o)
      for (Jacobian::InnerIterator it(js, o); it; ++it)
        has(it.row(), it.col()) += 1;
    for (Idx r = 0; r < rows; ++r)
      for (Idx k = 0; k < cols; ++k)
      {
        const bool in = (k >= t.v0->getIndex() && k < t.v0->getIndex() + n) || (t.v1 && k >= t.v1->getIndex() && k < t.v1->getIndex() + n);
        if (has(r, k) != (in ? 1 : 0))
          sim::fail("sparsity", "%s: the pattern of the derivative is fixed, but has %g entries in row %ld for variable %ld", t.what, has(r, k), (long)r, (long)k);
      }
  }
  // the expected rows
  std::map<std::tuple<std::string, std::string, int, int, int, int, int>, Group> by;
  for (size_t i = 0; i < f.contacts.size(); ++i)
  {
    const auto& c = f.contacts[i];
    auto& g = by[std::tuple_cat(c.key, std::make_tuple(t.each ? (int)i : 0))];
    g.contacts.push_back(&c);
    g.err = std::max(g.err, c.err);
    g.coeff = t.s.coeff_of(std::get<0>(c.key), std::get<1>(c.key));
  }
  std::vector<Group> groups;
  for (auto& p : by)
    groups.push_back(p.second);
  if (!groups.empty())
    sim::cover("op.contacts", groups.size()), sim::nontrivial();
  const Idx shown = std::min<Idx>(rows, (Idx)groups.size());
  // of a row: which group is it?
  auto explain = [&](Idx r, const Group& g, bool report) -> bool {
    if (!near(val[r], g.err, 1e-9))
      return false;
    if (!near(co[r], g.coeff, 1e-12))
    {
      if (report)
        sim::log("row %ld has coefficient %g, not %g", (long)r, co[r], g.coeff);
      return false;
    }
    const double tol = t.numerical ? 2e-5 : 1e-9;
    bool skip = false;
    for (int side = 0; side < 2; ++side)  // by the first and by the second state
    {
      const auto& v = side ? t.v1 : t.v0;
      if (!v)
        continue;
      const bool fixed = side ? t.fixed1 : t.fixed0;
      VectorXd avg = VectorXd::Zero(n), sum = VectorXd::Zero(n);
      if (t.numerical)
      {
        const Contact* top = g.contacts[0];
        for (auto* c : g.contacts)
          if (c->err > top->err)
            top = c;
        for (auto* c : g.contacts)
          if (c != top && top->err - c->err < 1e-6)
            skip = true;
        if (top->flat)
          skip = true;
        for (auto& x : top->g)
          sum += (!two ? 1.0 : side ? top->s : 1 - top->s) * x;
        avg = sum;
      }
      else if (!fixed)
      {
        double total = 0;
        size_t moving = 1;
        for (auto* c : g.contacts)
        {
          if (two && c->type == (side ? 0 : 1))
            continue;
          for (auto& x : c->g)
          {
            const double w = t.each ? 1.0 : c->err + t.s.buffer;
            total += w;
            avg += w * (!two ? 1.0 : side ? c->s : 1 - c->s) * x;
          }
          moving = c->g.size();
        }
        if (t.each)
        {
          sum = VectorXd::Zero(n);
          for (auto* c : g.contacts)
            for (auto& x : c->g)
              sum += (!two ? 1.0 : side ? c->s : 1 - c->s) * x;
          avg = sum;
        }
        else if (total > 0)
        {
          avg /= total;
          sum = (double)moving * avg;
        }
      }
      if (skip)
        break;
      bool ok[3] = { true, true, fixed };
      for (Idx k = 0; k < n; ++k)
      {
        const double j = jac(r, v->getIndex() + k);
        ok[0] = ok[0] && near(j, avg[k], tol);
        ok[1] = ok[1] && near(j, sum[k], tol);
        ok[2] = ok[2] && j == 0;
      }
      if (!ok[0] && !ok[1] && !ok[2])
      {
        if (report)
          for (Idx k = 0; k < n; ++k)
            sim::log("row %ld, state %d, joint %ld: derivative %.9g, expected %.9g or %.9g", (long)r, side, (long)k, jac(r, v->getIndex() + k), avg[k], sum[k]);
        return false;
      }
    }
    if (skip)
      sim::cover("skip.derivative");
    return true;
  };
  // nothing but the variables of the constraint
  for (Idx r = 0; r < rows; ++r)
    for (Idx k = 0; k < cols; ++k)
    {
      const bool in0 = k >= t.v0->getIndex() && k < t.v0->getIndex() + n, in1 = t.v1 && k >= t.v1->getIndex() && k < t.v1->getIndex() + n;
      if (!in0 && !in1 && jac(r, k) != 0)
        sim::fail("derivative", "%s: row %ld depends on variable %ld", t.what, (long)r, (long)k);
    }
  std::vector<bool> used(groups.size());
  Idx with = 0;
  double least = 1e300;
  for (Idx r = 0; r < rows; ++r)
  {
    bool found = false;
    for (size_t k = 0; k < groups.size() && !found; ++k)
      if (!used[k] && explain(r, groups[k], false))
        used[k] = found = true;
    if (found)
    {
      ++with;
      least = std::min(least, val[r]);
      continue;
    }
    bool zero = jac.row(r).cwiseAbs().maxCoeff() == 0;
    if (val[r] == -t.s.buffer && zero && with == shown)
      continue;
    if (sim::tracing())
    {
      for (size_t k = 0; k < groups.size(); ++k)
      {
        sim::log("expected%s: %s - %s error %.12g, %zu contacts", used[k] ? " (seen)" : "", std::get<0>(groups[k].contacts[0]->key).c_str(), std::get<1>(groups[k].contacts[0]->key).c_str(), groups[k].err, groups[k].contacts.size());
        if (!used[k])
          explain(r, groups[k], true);
      }
    }
    bool value = false, any = false;
    for (size_t k = 0; k < groups.size(); ++k)
      if (near(val[r], groups[k].err, 1e-9))
        any = true, value = value || !used[k];
    sim::fail(value ? "derivative" : "value", "%s: row %ld shows error %.9g, %s (%zu pairs in contact, %ld rows)", t.what, (long)r, val[r],
              value ? "but coefficient or derivative is not that of the contact" : any ? "which another row shows already" : "which no contact has", groups.size(), (long)rows);
  }
  if (with != shown)
    sim::fail("missing", "%s: %ld of %ld rows show a contact; %zu pairs are in contact", t.what, (long)with, (long)rows, groups.size());
  for (size_t k = 0; k < groups.size(); ++k)
    if (!used[k] && groups[k].err > least + 1e-9)
      sim::fail("worst", "%s: the contact of %s and %s with error %.6g is left out; the least of those shown is %.6g", t.what, std::get<0>(groups[k].contacts[0]->key).c_str(), std::get<1>(groups[k].contacts[0]->key).c_str(),
                groups[k].err, least);
  if ((Idx)groups.size() > rows)
    sim::cover("op.more_contacts_than_rows");
}

template <class F>
bool rejects(F fn)
{
  try
  {
    fn();
  }
  catch (const std::runtime_error&)
  {
    return true;
  }
  return false;
}

void history()
{
  const int steps = 2 + (int)sim::choose(3, "steps");
  const Idx n = world.dof;
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::shared_ptr<const Var>> pos;
  for (int i = 0; i < steps; ++i)
  {
    auto node = std::make_unique<Node>("n" + std::to_string(i));
    const int around = (int)sim::choose(4, "around");
    if (around & 1)
      node->addVar("before", 0.5);
    std::vector<std::string> names;
    for (Idx k = 0; k < n; ++k)
      names.push_back("j" + std::to_string(k));
    pos.push_back(node->addVar("position", names, VectorXd::Zero(n), std::vector<Bounds>((size_t)n, NoBound)));
    if (around & 2)
      node->addVar("after", 1.5);
    nodes.push_back(std::move(node));
  }
  std::shared_ptr<NodesVariables> vars;
  if (!sim::chance(1, 4, "constraints-first"))
    vars = std::make_shared<NodesVariables>("joints", std::move(nodes));
  const bool prismatic = [&] {
    for (auto& j : world.scene->joints)
      if (j.revolute)
        return false;
    return true;
  }();
  std::vector<Term> terms;
  struct Shares
  {
    Settings s;
    std::shared_ptr<DiscreteCollisionEvaluator> d;
    std::shared_ptr<ContinuousCollisionEvaluator> c;
  };
  std::vector<Shares> evals;
  for (int i = 1 + (int)sim::choose(2, "evaluators"); i > 0; --i)
  {
    const CollisionEvaluatorType all[4] = { CollisionEvaluatorType::DISCRETE, CollisionEvaluatorType::LVS_DISCRETE, CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS };
    Shares e{ draw_settings(all[sim::choose(prismatic ? 4 : 2, "type")]), nullptr, nullptr };
    if (e.s.type == CollisionEvaluatorType::DISCRETE)
      e.d = std::make_shared<SingleTimestepCollisionEvaluator>(world.manip, world.env, e.s.config, e.s.dynamic);
    else if (e.s.type == CollisionEvaluatorType::LVS_DISCRETE)
      e.c = std::make_shared<LVSDiscreteCollisionEvaluator>(world.manip, world.env, e.s.config, e.s.dynamic);
    else
      e.c = std::make_shared<LVSContinuousCollisionEvaluator>(world.manip, world.env, e.s.config, e.s.dynamic);
    if (sim::chance(1, 16, "wrong-type"))
    {
      auto bad = e.s.config;
      bad.collision_check_config.type = CollisionEvaluatorType::NONE;
      if (!rejects([&] { SingleTimestepCollisionEvaluator x(world.manip, world.env, bad); }) || !rejects([&] { LVSDiscreteCollisionEvaluator x(world.manip, world.env, bad); }) ||
          !rejects([&] { LVSContinuousCollisionEvaluator x(world.manip, world.env, bad); }))
        sim::fail("rejected", "an evaluator of the wrong type was accepted");
    }
    if ((e.d ? e.d->getCollisionMarginBuffer() : e.c->getCollisionMarginBuffer()) != e.s.buffer)
      sim::fail("settings", "the margin buffer is not the one set");
    const auto& md = e.d ? e.d->getCollisionMarginData() : e.c->getCollisionMarginData();
    const auto& cd = e.d ? e.d->getCollisionCoeffData() : e.c->getCollisionCoeffData();
    for (auto& a : world.scene->links)
      for (auto& b : world.scene->links)
        if (md.getCollisionMargin(a.name, b.name) != e.s.margin_of(a.name, b.name) || cd.getCollisionCoeff(a.name, b.name) != e.s.coeff_of(a.name, b.name))
          sim::fail("settings", "margin or coefficient of %s and %s is not the one set", a.name.c_str(), b.name.c_str());
    evals.push_back(e);
  }
  for (int i = 1 + (int)sim::choose(4, "terms"); i > 0; --i)
  {
    const auto& e = evals[sim::choose(evals.size(), "evaluator")];
    Term t;
    t.s = e.s;
    t.rows = 1 + (int)sim::choose(4, "rows");
    const int kind = (int)sim::choose(3, "kind");
    t.numerical = kind == 1, t.each = kind == 2;
    t.sparsity = !t.each && sim::chance(1, 3, "fixed-sparsity");
    const size_t at = sim::choose((uint64_t)steps - 1, "state");
    t.v0 = pos[at];
    if (e.d)
    {
      t.what = t.each ? "discrete, row per contact" : t.numerical ? "discrete, numerical" : "discrete";
      if (t.each)
        t.set = std::make_shared<DiscreteCollisionConstraintD>(e.d, t.v0);
      else if (t.numerical)
        t.set = std::make_shared<DiscreteCollisionNumericalConstraint>(e.d, t.v0, t.rows, t.sparsity);
      else
        t.set = std::make_shared<DiscreteCollisionConstraint>(e.d, t.v0, t.rows, t.sparsity);
      if (sim::chance(1, 16, "bad-constraint"))
        if (!rejects([&] { DiscreteCollisionConstraint x(e.d, t.v0, 0); }) || !rejects([&] { DiscreteCollisionNumericalConstraint x(e.d, t.v0, 0); }))
          sim::fail("rejected", "a constraint without rows was accepted");
    }
    else
    {
      t.v1 = pos[at + 1];
      const int fx = (int)sim::choose(4, "fixed");
      t.fixed0 = fx == 1, t.fixed1 = fx == 2;
      const std::array<std::shared_ptr<const Var>, 2> v{ t.v0, t.v1 };
      t.what = t.each ? "continuous, row per contact" : t.numerical ? "continuous, numerical" : "continuous";
      if (t.each)
        t.set = std::make_shared<ContinuousCollisionConstraintD>(e.c, v, t.fixed0, t.fixed1);
      else if (t.numerical)
        t.set = std::make_shared<ContinuousCollisionNumericalConstraint>(e.c, v, t.fixed0, t.fixed1, t.rows, t.sparsity);
      else
        t.set = std::make_shared<ContinuousCollisionConstraint>(e.c, v, t.fixed0, t.fixed1, t.rows, t.sparsity);
      if (sim::chance(1, 16, "bad-constraint"))
        if (!rejects([&] { ContinuousCollisionConstraint x(e.c, v, true, true, 1); }) || !rejects([&] { ContinuousCollisionConstraintD x(e.c, v, true, true); }) ||
            !rejects([&] { ContinuousCollisionNumericalConstraint x(e.c, v, true, true, 1); }) || !rejects([&] { ContinuousCollisionConstraint x(e.c, v, false, false, 0); }) ||
            !rejects([&] { ContinuousCollisionNumericalConstraint x(e.c, v, false, false, 0); }))
          sim::fail("rejected", "a constraint with both ends fixed, or without rows, was accepted");
      if (sim::chance(1, 16, "no-variables"))
      {
        auto gap = v;
        gap[sim::choose(2, "gap")] = nullptr;
        if (!rejects([&] { ContinuousCollisionConstraint x(e.c, gap, false, false, 1); }) || !rejects([&] { ContinuousCollisionConstraintD x(e.c, gap, false, false); }) ||
            !rejects([&] { ContinuousCollisionNumericalConstraint x(e.c, gap, false, false, 1); }))
          sim::fail("rejected", "a constraint without one of its variables was accepted");
      }
    }
    terms.push_back(t);
  }
  if (!vars)
    vars = std::make_shared<NodesVariables>("joints", std::move(nodes));
  const Idx cols = vars->getRows();
  for (auto& t : terms)
    t.set->linkWithVariables(vars);
  std::vector<VectorXd> seen;
  auto draw = [&] {
    VectorXd x(cols);
    for (Idx k = 0; k < cols; ++k)
      x[k] = sim::real(-0.8, 0.8, "x");
    return x;
  };
  for (int u = 0, m = 1 + (int)sim::logchoose(12, "updates"); u < m; ++u)
  {
    VectorXd x;
    const int how = seen.empty() ? 0 : (int)sim::choose(4, "how");
    if (how == 1)
      x = seen[sim::choose(seen.size(), "again")], sim::cover("op.revisit");
    else if (how == 2)
      x = vars->getValues(), x[(Idx)sim::choose((uint64_t)cols, "which")] = sim::real(-0.8, 0.8, "x");
    else
      x = draw();
    if (how == 3)  // two states alike
    {
      const size_t at = sim::choose((uint64_t)steps - 1, "alike");
      x.segment(pos[at + 1]->getIndex(), n) = x.segment(pos[at]->getIndex(), n);
    }
    vars->setVariables(x);
    seen.push_back(x);
    if (alone && world.mover >= 0 && sim::chance(1, 3, "move"))
      move_environment();
    for (auto& t : terms)
    {
      if (sim::chance(1, 4, "skip"))
        continue;
      for (int tries = 0;; ++tries)
      {
        bool failed = false;
        int fault = tries < 3 && sim::faults_on() ? (int)sim::choose(8, "fault") : 0;
        if (fault == 1)
          throw_in[sim::self() & 3] = (int)sim::logchoose(6, "test");
        if (fault == 3)
          throw_done_in[sim::self() & 3] = (int)sim::logchoose(6, "test");
        if (fault == 2 && alone)
          sim::alloc_fail_in(1 + (long)sim::logchoose(300, "alloc"));
        try
        {
          t.set->update();
        }
        catch (const TestError& e)
        {
          failed = true;
          sim::cover(e.fault);
        }
        catch (const std::bad_alloc&)
        {
          failed = true;
          sim::cover("fault.alloc_failure");
        }
        throw_in[sim::self() & 3] = throw_done_in[sim::self() & 3] = -1;
        sim::alloc_fail_in(-1);
        if (!failed)
        {
          t.fresh = true;
          break;
        }
        t.fresh = false;
        if (sim::chance(1, 2, "give-up"))
          break;
      }
      if (!t.fresh)
        continue;
      sim::cover("op.update");
      if (t.numerical && sim::faults_on() && sim::chance(1, 8, "failing-derivative"))
      {
        throw_in[sim::self() & 3] = (int)sim::logchoose(6, "test");
        try
        {
          t.set->getJacobian();
        }
        catch (const TestError&)
        {
          sim::cover("fault.derivative_throws");
        }
        throw_in[sim::self() & 3] = -1;
      }
      check(t, t.v0->value(), t.v1 ? t.v1->value() : t.v0->value(), cols);
    }
  }
}
void thread_main(void*) { history(); }
}  // namespace

SIM_WORLD(collision_terms)
{
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  sim::set_racecheck(true);
  sim::set_uafcheck(true);
  sim::set_step_limit(200000000);
  draw_scene(sim::chance(1, 2, "revolute-ok"));
  int t = -1;
  alone = !sim::chance(1, 3, "second-thread");
  if (!alone)
  {
    sim::cover("op.two_threads");
    t = sim::spawn(thread_main, nullptr);
  }
  history();
  if (t >= 0)
    sim::join(t);
  world = Shared();
}
