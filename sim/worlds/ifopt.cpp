// P16: optimization variables, the node and variable views on them, the problem around them. P18: joint position, velocity,
// acceleration and jerk terms and the costs on them. Seeded histories of construction, updates, rejected calls, exceptions out
// of user code and numerical differentiation, in one or two simulated threads, against a plain model of the values last set.
#include <trajopt_ifopt/constraints/joint_acceleration_constraint.h>
#include <trajopt_ifopt/constraints/joint_jerk_constraint.h>
#include <trajopt_ifopt/constraints/joint_position_constraint.h>
#include <trajopt_ifopt/constraints/joint_velocity_constraint.h>
#include <trajopt_ifopt/core/composite.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/costs/absolute_cost.h>
#include <trajopt_ifopt/costs/squared_cost.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_observer.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <console_bridge/console.h>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "rt/sim.h"

using namespace trajopt_ifopt;
using Eigen::VectorXd;
typedef Eigen::Index Idx;
namespace
{
const double INF = std::numeric_limits<double>::infinity();
struct MVar
{
  std::string id;
  std::vector<std::string> names;
  std::vector<Bounds> bounds;
  Idx at = 0, n = 0;  // in the node
  std::shared_ptr<const Var> var;
};
struct MNode
{
  std::string name;
  std::vector<MVar> vars;
  VectorXd x;  // before the node is handed over
  Idx at = 0, n = 0;
  const Node* node = nullptr;
};
bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
bool same(const VectorXd& a, const VectorXd& b) { return a.size() == b.size() && (a.size() == 0 || std::memcmp(a.data(), b.data(), sizeof(double) * (size_t)a.size()) == 0); }
bool same(const Bounds& a, const Bounds& b) { return same(a.getLower(), b.getLower()) && same(a.getUpper(), b.getUpper()) && a.getType() == b.getType(); }
bool same(const std::vector<Bounds>& a, const std::vector<Bounds>& b)
{
  if (a.size() != b.size())
    return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!same(a[i], b[i]))
      return false;
  return true;
}
BoundsType type_of(double lo, double hi)
{
  const bool l = std::isfinite(lo) && std::abs(lo) < 1e20, h = std::isfinite(hi) && std::abs(hi) < 1e20;
  if (l && h)
    return std::abs(hi - lo) < 1e-8 ? BoundsType::kEquality : BoundsType::kRangeBound;
  return l ? BoundsType::kLowerBound : h ? BoundsType::kUpperBound : BoundsType::kUnbounded;
}
double draw_value()
{
  switch (sim::choose(12, "value"))
  {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return std::numeric_limits<double>::quiet_NaN();
    case 3: return INF;
    case 4: return 1e300 * sim::nice(-1, 1, "huge");
    case 5: return 1e-310 * sim::nice(-1, 1, "tiny");
    case 6: return sim::real(-10, 10, "real");
    default: return sim::nice(-4, 4, "nice");
  }
}
VectorXd draw_vector(Idx n, bool plain = false)
{
  VectorXd x(n);
  for (Idx i = 0; i < n; ++i)
    x[i] = plain ? sim::nice(-4, 4, "x") : draw_value();
  return x;
}
Bounds draw_bounds()
{
  Bounds b(-INF, INF);
  double lo = -INF, hi = INF;
  switch (sim::choose(6, "bounds"))
  {
    case 0: break;
    case 1: lo = hi = sim::nice(-2, 2, "eq"); break;
    case 2: lo = sim::nice(-2, 2, "lo"); break;
    case 3: hi = sim::nice(-2, 2, "hi"); break;
    case 4: lo = sim::nice(-2, 2, "lo"), hi = lo + 0.125 * (1 + (double)sim::choose(16, "width")); break;
    default: lo = -1e20, hi = 1e21; break;
  }
  switch (sim::choose(4, "set-bounds"))
  {
    case 0: b = Bounds(lo, hi); break;
    case 1: b.set(lo, hi); break;
    case 2: b.setUpper(hi), b.setLower(lo); break;
    default:
      b.set(lo - 2, hi - 2);
      b += 4;
      b -= 2;
  }
  if (!same(b.getLower(), lo) && b.getLower() != lo)
    sim::fail("bounds", "lower bound %g shown as %g", lo, b.getLower());
  if (!same(b.getUpper(), hi) && b.getUpper() != hi)
    sim::fail("bounds", "upper bound %g shown as %g", hi, b.getUpper());
  if (b.getType() != type_of(lo, hi))
    sim::fail("bounds", "bounds [%g, %g] have type %d", lo, hi, (int)b.getType());
  return b;
}
double clamp(double v, const Bounds& b) { return std::min(std::max(v, b.getLower()), b.getUpper()); }

// a user's constraint on some of the variables; it may throw
struct UserError
{
};
struct ViewConstraint : ConstraintSet
{
  std::vector<std::shared_ptr<const Var>> vars;
  std::function<void()> probe;
  mutable int throw_in = -1;
  ViewConstraint(std::vector<std::shared_ptr<const Var>> v, int rows) : ConstraintSet("view", rows), vars(std::move(v)) { non_zeros_ = rows; }
  int update() override { return rows_; }
  VectorXd getValues() const override
  {
    if (throw_in >= 0 && throw_in-- == 0)
      throw UserError();
    if (probe)
      probe();
    VectorXd g(rows_);
    Idx r = 0;
    for (auto& v : vars)
      for (Idx k = 0; k < v->size(); ++k)
        g[r++] = 2 * v->value()[k];
    return g;
  }
  VectorXd getCoefficients() const override { return VectorXd::Ones(rows_); }
  std::vector<Bounds> getBounds() const override { return std::vector<Bounds>((size_t)rows_, BoundZero); }
  Jacobian getJacobian() const override
  {
    std::vector<Eigen::Triplet<double>> t;
    Idx r = 0;
    for (auto& v : vars)
      for (Idx k = 0; k < v->size(); ++k)
        t.emplace_back((int)r++, (int)(v->getIndex() + k), 2.0);
    Jacobian j(rows_, getVariables()->getRows());
    j.setFromTriplets(t.begin(), t.end());
    return j;
  }
};
struct ViewCost : CostTerm
{
  std::shared_ptr<const Var> var;
  mutable int throw_in = -1;
  explicit ViewCost(std::shared_ptr<const Var> v) : CostTerm("cost"), var(std::move(v)) { non_zeros_ = var->size(); }
  int update() override { return rows_; }
  double getCost() const override
  {
    if (throw_in >= 0 && throw_in-- == 0)
      throw UserError();
    return var->value().sum();
  }
  VectorXd getCoefficients() const override { return VectorXd::Ones(1); }
  Jacobian getJacobian() const override
  {
    std::vector<Eigen::Triplet<double>> t;
    for (Idx k = 0; k < var->size(); ++k)
      t.emplace_back(0, (int)(var->getIndex() + k), 1.0);
    Jacobian j(1, getVariables()->getRows());
    j.setFromTriplets(t.begin(), t.end());
    return j;
  }
};
struct Observer : NodesObserver
{
  std::function<void()> f;
  Observer(std::weak_ptr<NodesVariables> s, std::function<void()> g) : NodesObserver(std::move(s)), f(std::move(g)) {}
  void updateNodes() override { f(); }
};

struct Model
{
  std::string name;
  std::vector<MNode> nodes;
  VectorXd x;
  std::shared_ptr<NodesVariables> vars;
  std::vector<std::pair<VectorXd, size_t>> hashes;

  void check_node(const MNode& m, const Node& n, const VectorXd& x, Idx at, const NodesVariables* parent) const
  {
    if (n.getName() != m.name)
      sim::fail("node", "node %s is named %s", m.name.c_str(), n.getName().c_str());
    if (n.getParent() != parent)
      sim::fail("node", "node %s shows a wrong parent", m.name.c_str());
    if (n.size() != m.n)
      sim::fail("node", "node %s has size %ld, not %ld", m.name.c_str(), (long)n.size(), (long)m.n);
    if (!same(n.getValues(), x))
      sim::fail("node-values", "node %s does not show the values last set", m.name.c_str());
    std::vector<Bounds> b;
    std::map<std::string, const Var*> last;
    for (auto& v : m.vars)
    {
      b.insert(b.end(), v.bounds.begin(), v.bounds.end());
      last[v.id] = v.var.get();
      const char* id = v.id.c_str();
      if (v.var->getIdentifier() != v.id)
        sim::fail("var", "variable %s is called %s", id, v.var->getIdentifier().c_str());
      if (v.var->name() != v.names)
        sim::fail("var", "variable %s shows other names", id);
      if (v.var->size() != v.n || v.var->getIndex() != at + v.at)
        sim::fail("var-index", "variable %s of node %s covers %ld..+%ld, not %ld..+%ld", id, m.name.c_str(), (long)v.var->getIndex(), (long)v.var->size(), (long)(at + v.at), (long)v.n);
      if (v.var->getParent() != &n)
        sim::fail("var", "variable %s shows a wrong parent", id);
      if (!same(v.var->bounds(), v.bounds))
        sim::fail("var", "variable %s shows other bounds", id);
      if (!same(v.var->value(), VectorXd(x.segment(v.at, v.n))))
        sim::fail("var-values", "variable %s of node %s does not show the values last set", id, m.name.c_str());
    }
    if (!same(n.getBounds(), b))
      sim::fail("node", "node %s shows other bounds", m.name.c_str());
    for (auto& l : last)
      if (!n.hasVar(l.first) || n.getVar(l.first).get() != l.second)
        sim::fail("node", "variable %s of node %s is not found", l.first.c_str(), m.name.c_str());
    if (n.hasVar("no such variable"))
      sim::fail("node", "a variable that was never added is found");
    bool threw = false;
    try
    {
      n.getVar("no such variable");
    }
    catch (const std::out_of_range&)
    {
      threw = true;
    }
    if (!threw)
      sim::fail("node", "a variable that was never added is returned");
  }
  void check() const { check(x); }
  void check(const VectorXd& x) const
  {
    const NodesVariables& v = *vars;
    if (v.getName() != name || v.getRows() != x.size() || v.getDim() != x.size())
      sim::fail("variables", "%d rows, dimension %ld, for %ld variables", v.getRows(), (long)v.getDim(), (long)x.size());
    if (!same(v.getValues(), x))
      sim::fail("values", "the flat vector is not the one last set");
    std::vector<Bounds> b;
    const auto all = v.getNodes();
    if (all.size() != nodes.size())
      sim::fail("variables", "%zu nodes, not %zu", all.size(), nodes.size());
    for (size_t i = 0; i < nodes.size(); ++i)
    {
      const MNode& m = nodes[i];
      if (all[i].get() != m.node || v.getNode(i).get() != m.node)
        sim::fail("variables", "node %zu is not the one that was added", i);
      check_node(m, *m.node, x.segment(m.at, m.n), m.at, vars.get());
      for (auto& w : m.vars)
        b.insert(b.end(), w.bounds.begin(), w.bounds.end());
    }
    if (!same(v.getBounds(), b))
      sim::fail("variables", "bounds are not those of the nodes in order");
  }
  void check_hash()
  {
    for (Idx i = 0; i < x.size(); ++i)
      if (std::isnan(x[i]))
        return;
    const size_t h = vars->getHash();
    for (auto& o : hashes)
    {
      if (same(o.first, x) && o.second != h)
        sim::fail("hash", "the same values have two hashes");
      if (o.first != x && o.second == h)
        sim::fail("hash", "the hash of other values is shown");
    }
    if (hashes.size() < 8)
      hashes.emplace_back(x, h);
    else
      hashes[sim::choose(8, "forget")] = { x, h };
  }
};

std::unique_ptr<Node> draw_node(Model& mod, MNode& m, int index, int nv)
{
  m.name = "n" + std::to_string(index);
  auto node = std::make_unique<Node>(m.name);
  auto append = [&](const VectorXd& v) {
    VectorXd x(m.x.size() + v.size());
    x << m.x, v;
    m.x = x;
  };
  for (int k = 0; k < nv; ++k)
  {
    MVar v;
    v.id = "v" + std::to_string(sim::chance(1, 10, "same-name") && k ? 0 : k);
    v.at = m.n;
    const bool scalar = sim::chance(1, 3, "scalar");
    v.n = scalar ? 1 : 1 + (Idx)sim::choose(6, "children");
    VectorXd val(v.n);
    for (Idx i = 0; i < v.n; ++i)
    {
      v.bounds.push_back(draw_bounds());
      val[i] = sim::nice(-4, 4, "initial");
    }
    if (scalar)
    {
      v.names = { v.id };
      if (sim::chance(1, 4, "no-bounds"))
      {
        v.bounds[0] = NoBound;
        v.var = node->addVar(v.id, val[0]);
      }
      else
        v.var = node->addVar(v.id, val[0], v.bounds[0]);
    }
    else
    {
      for (Idx i = 0; i < v.n; ++i)
        v.names.push_back("j" + std::to_string((i * 7) % 5));
      if (sim::chance(1, 6, "bad-add"))  // rejected; the node stays as it was
      {
        sim::cover("fault.rejected_add");
        auto names = v.names;
        auto bounds = v.bounds;
        VectorXd values = val;
        if (sim::chance(1, 2, "bad-values"))
          values = VectorXd::Zero(val.size() + 1);
        else if (sim::chance(1, 2, "bad-bounds"))
          bounds.emplace_back();
        else
          names.emplace_back("more");
        bool threw = false;
        try
        {
          node->addVar("bad", names, values, bounds);
        }
        catch (const std::runtime_error&)
        {
          threw = true;
        }
        if (!threw)
          sim::fail("add", "names, values and bounds of different numbers are accepted");
        if (node->hasVar("bad"))
          sim::fail("add", "a variable that was rejected is found");
        mod.check_node(m, *node, m.x, 0, nullptr);
      }
      v.var = node->addVar(v.id, v.names, val, v.bounds);
    }
    for (Idx i = 0; i < v.n; ++i)
    {
      const double want = clamp(val[i], v.bounds[(size_t)i]);
      if (v.var->value().size() != v.n || v.var->value()[i] != want)
        sim::fail("initial", "initial value %g with bounds [%g, %g] becomes %g", val[i], v.bounds[(size_t)i].getLower(), v.bounds[(size_t)i].getUpper(), v.var->value()[i]);
    }
    append(v.var->value());
    m.n += v.n;
    m.vars.push_back(v);
    mod.check_node(m, *node, m.x, 0, nullptr);
    if (sim::chance(1, 6, "set-alone"))
    {
      m.x = draw_vector(m.n);
      node->setVariables(m.x);
      mod.check_node(m, *node, m.x, 0, nullptr);
    }
  }
  if (sim::chance(1, 6, "move"))
  {
    sim::cover("op.move_node");
    node = std::make_unique<Node>(std::move(*node));
    mod.check_node(m, *node, m.x, 0, nullptr);
  }
  return node;
}

void history()
{
  Model mod;
  mod.name = sim::chance(1, 2, "name") ? "joints" : "";
  std::vector<std::unique_ptr<Node>> nodes;
  const int n_nodes = (int)sim::choose(6, "nodes");
  mod.nodes.resize((size_t)n_nodes);
  std::vector<int> n_vars((size_t)n_nodes);
  for (auto& n : n_vars)
    n = (int)sim::choose(5, "vars");
  Idx at = 0;
  VectorXd x0(0);
  for (int i = 0; i < n_nodes; ++i)
  {
    MNode& m = mod.nodes[(size_t)i];
    nodes.push_back(draw_node(mod, m, i, n_vars[(size_t)i]));
    m.node = nodes.back().get();
    m.at = at;
    at += m.n;
    VectorXd x(at);
    x << x0, m.x;
    x0 = x;
  }
  mod.x = x0;
  mod.vars = std::make_shared<NodesVariables>(mod.name, std::move(nodes));
  mod.check();
  mod.check_hash();

  // observers
  int seen = 0, n_obs = (int)sim::choose(3, "observers"), obs_throw = -1;
  const VectorXd* pending = nullptr;
  for (int i = 0; i < n_obs; ++i)
  {
    auto o = std::make_shared<Observer>(mod.vars, [&, i] {
      if (!pending)
        return;
      mod.check(*pending);
      ++seen;
      if (obs_throw == i)
        throw UserError();
    });
    mod.vars->addObserver(o);
  }
  if (sim::chance(1, 6, "no-subject"))
  {
    bool threw = false;
    try
    {
      Observer o(std::weak_ptr<NodesVariables>(), [] {});
    }
    catch (const std::runtime_error&)
    {
      threw = true;
    }
    if (!threw)
      sim::fail("observer", "an observer of nothing can be made");
  }
  // the problem
  std::vector<std::shared_ptr<const Var>> all;
  for (auto& m : mod.nodes)
    for (auto& v : m.vars)
      all.push_back(v.var);
  Problem nlp(mod.vars);
  std::shared_ptr<ViewConstraint> cnt;
  std::vector<std::shared_ptr<ViewCost>> costs;
  if (!all.empty())
  {
    std::vector<std::shared_ptr<const Var>> some;
    int rows = 0;
    for (auto& v : all)
      if (some.empty() || sim::chance(2, 3, "in-constraint"))
      {
        some.push_back(v);
        rows += (int)v->size();
      }
    cnt = std::make_shared<ViewConstraint>(some, rows);
    nlp.addConstraintSet(cnt);
    for (int k = (int)sim::choose(3, "costs"); k > 0; --k)
    {
      costs.push_back(std::make_shared<ViewCost>(all[sim::choose(all.size(), "cost-var")]));
      nlp.addCostSet(costs.back());
    }
  }
  std::vector<VectorXd> saved;
  auto set = [&](const VectorXd& x, const std::function<void()>& f) {
    const VectorXd copy = x;
    pending = &copy;
    seen = 0;
    obs_throw = n_obs && sim::chance(1, 12, "observer-throws") ? (int)sim::choose((uint64_t)n_obs, "which") : -1;
    bool threw = false;
    try
    {
      f();
    }
    catch (const UserError&)
    {
      threw = true;
      sim::cover("fault.observer_throws");
    }
    if (threw != (obs_throw >= 0) && !same(copy, mod.x))
      sim::fail("observer", threw ? "an exception out of nowhere" : "the exception of an observer is lost");
    const bool told = seen || same(copy, mod.x);  // nothing to tell if nothing changed
    if (told && !seen)
      sim::cover("op.observers_not_told");
    else if (!threw && seen != n_obs)
      sim::fail("observer", "%d of %d observers were told", seen, n_obs);
    pending = nullptr;
    obs_throw = -1;
    mod.x = copy;
    sim::nontrivial();
    sim::cover("op.set");
  };
  const int ops = 1 + (int)sim::logchoose(24, "ops");
  for (int op = 0; op < ops; ++op)
  {
    switch (sim::choose(9, "op"))
    {
      case 0:
      case 1:
      {
        const VectorXd x = draw_vector(mod.x.size());
        set(x, [&] { mod.vars->setVariables(x); });
        break;
      }
      case 2:
      {
        const VectorXd x = draw_vector(mod.x.size());
        set(x, [&] { nlp.setVariables(x.data()); });
        break;
      }
      case 3:  // one value changes
        if (mod.x.size())
        {
          VectorXd x = mod.x;
          x[(Idx)sim::choose((uint64_t)x.size(), "which")] = draw_value();
          set(x, [&] { mod.vars->setVariables(x); });
        }
        break;
      case 4:  // round trip
      {
        const VectorXd x = mod.vars->getValues();
        set(mod.x, [&] { mod.vars->setVariables(x); });
        break;
      }
      case 5:
        nlp.saveCurrent();
        saved.push_back(mod.x);
        if (nlp.getIterationCount() != (int)saved.size() || nlp.getIterations().size() != saved.size() || !same(nlp.getIterations().back(), mod.x))
          sim::fail("saved", "the current values were not saved");
        break;
      case 6:
        if (!saved.empty())
        {
          const int k = (int)sim::choose(saved.size() + 1, "saved");
          if (k == (int)saved.size())
            set(saved.back(), [&] { nlp.setOptVariablesFinal(); });
          else
            set(saved[(size_t)k], [&] { nlp.setOptVariables(k); });
        }
        else
        {
          bool threw = false;
          try
          {
            nlp.setOptVariablesFinal();
          }
          catch (const std::out_of_range&)
          {
            threw = true;
          }
          if (!threw)
            sim::fail("saved", "values that were never saved are restored");
        }
        break;
      case 7:  // numerical differentiation leaves the variables as they were
        if (cnt)
        {
          const VectorXd x = draw_vector(mod.x.size(), true);
          set(x, [&] { nlp.setVariables(x.data()); });
          const VectorXd at = draw_vector(mod.x.size(), true);
          const double eps = 1.0 / 1024;
          if (sim::chance(1, 8, "user-error"))
          {
            cnt->throw_in = (int)sim::choose(1 + (uint64_t)x.size(), "constraint-throws");
            if (!costs.empty())
              costs.back()->throw_in = (int)sim::choose(1 + (uint64_t)x.size(), "cost-throws");
          }
          bool threw = false;
          Jacobian jac;
          VectorXd grad;
          const int way = (int)sim::choose(4, "differentiate");
          try
          {
            switch (way)
            {
              case 0: jac = calcNumericalConstraintGradient(*mod.vars, *cnt, eps); break;
              case 1: jac = calcNumericalConstraintGradient(at.data(), nlp, eps); break;
              case 2: grad = calcNumericalCostGradient(at.data(), nlp, eps); break;
              default: grad = nlp.evaluateCostFunctionGradient(true, eps); break;
            }
          }
          catch (const UserError&)
          {
            threw = true;
            sim::cover("fault.evaluation_throws");
          }
          cnt->throw_in = -1;
          for (auto& c : costs)
            c->throw_in = -1;
          if (threw)
            mod.x = mod.vars->getValues();  // whatever they are, all views agree
          else
          {
            sim::cover("op.differentiate");
            mod.check();
            if (way < 2 && (Eigen::MatrixXd(jac) - Eigen::MatrixXd(cnt->getJacobian())).cwiseAbs().maxCoeff() > 1e-9)
              sim::fail("derivative", "numerical and exact derivatives of a linear constraint differ");
            if (way >= 2 && (grad.size() != x.size() || (grad - nlp.evaluateCostFunctionGradient()).cwiseAbs().maxCoeff() > 1e-9))
              sim::fail("derivative", "numerical and exact derivatives of a linear cost differ");
          }
        }
        break;
      default:
        if (cnt)
        {
          cnt->probe = [&] { mod.check(); };
          VectorXd want(cnt->getRows());
          Idx r = 0;
          for (auto& v : cnt->vars)
            for (Idx k = 0; k < v->size(); ++k)
              want[r++] = 2 * mod.x[v->getIndex() + k];
          const VectorXd g = nlp.evaluateConstraints();
          for (Idx k = 0; k < r; ++k)
            if (!(g[k] == want[k] || (std::isnan(g[k]) && std::isnan(want[k]))))
              sim::fail("evaluate", "constraint row %ld is %g, not %g", (long)k, g[k], want[k]);
          cnt->probe = nullptr;
        }
    }
    mod.check();
    mod.check_hash();
    if (!same(nlp.getVariableValues(), mod.x) || nlp.getNumberOfOptimizationVariables() != mod.x.size() || nlp.getOptVariables() != mod.vars ||
        !same(nlp.getBoundsOnOptimizationVariables(), mod.vars->getBounds()))
      sim::fail("problem", "the problem shows other variables");
    for (size_t k = 0; k < saved.size(); ++k)
      if (!same(nlp.getIterations()[k], saved[k]))
        sim::fail("saved", "saved values changed");
    sim::event(sim::hash_bytes(mod.x.data(), sizeof(double) * (size_t)mod.x.size()));
  }
}
void thread_main(void*) { history(); }

// ---- P18 -----------------------------------------------------------------------------------------------------------
struct Term
{
  ConstraintSet::Ptr set;
  Eigen::MatrixXd j;  // over all variables
  VectorXd coeffs;
  std::vector<Bounds> bounds;
  bool cost = false;
  int penalty = 0;  // of a cost: 1 squared, 2 absolute
  VectorXd weights;
  const char* what = "";
};
// all numbers are small multiples of powers of two: sums are exact in any order
double dyadic(const char* l) { return 0.25 * ((double)sim::choose(65, l) - 32); }
double error_of(double v, const Bounds& b) { return v < b.getLower() ? v - b.getLower() : v > b.getUpper() ? v - b.getUpper() : 0; }
void expect(const Term& t, const char* what, const VectorXd& got, const VectorXd& want, double tol = 0)
{
  if (got.size() != want.size())
    sim::fail("term", "%s: %ld %s, not %ld", t.what, (long)got.size(), what, (long)want.size());
  for (Idx i = 0; i < got.size(); ++i)
    if (!(std::abs(got[i] - want[i]) <= tol * (1 + std::abs(want[i]))))
      sim::fail("term", "%s: %s of row %ld is %.17g, not %.17g", t.what, what, (long)i, got[i], want[i]);
}
VectorXd stack(const VectorXd& a, const VectorXd& b)
{
  VectorXd c(a.size() + b.size());
  c << a, b;
  return c;
}

void terms_history()
{
  const Idx dof = 1 + (Idx)sim::choose(4, "dof");
  const int steps = 1 + (int)sim::choose(14, "steps");
  const bool even = sim::chance(1, 2, "even");
  int around = (int)sim::choose(4, "around");
  std::vector<std::unique_ptr<Node>> nodes;
  std::vector<std::shared_ptr<const Var>> pos;
  for (int i = 0; i < steps; ++i)
  {
    auto node = std::make_unique<Node>("n" + std::to_string(i));
    if (!even)
      around = (int)sim::choose(4, "around");
    if (around & 1)
      node->addVar("before", 0.5);
    std::vector<std::string> names;
    for (Idx k = 0; k < dof; ++k)
      names.push_back("j" + std::to_string(k));
    pos.push_back(node->addVar("position", names, VectorXd::Zero(dof), std::vector<Bounds>((size_t)dof, NoBound)));
    if (around & 2)
      node->addVar("after", 1.5);
    nodes.push_back(std::move(node));
  }
  auto vars = std::make_shared<NodesVariables>("joints", std::move(nodes));
  const Idx n = vars->getRows();
  Problem nlp(vars);
  std::vector<Term> cnts, costs;
  const int n_terms = 1 + (int)sim::choose(5, "terms");
  for (int i = 0; i < n_terms; ++i)
  {
    Term t;
    const int order = (int)sim::choose(4, "order");  // of the derivative
    const size_t need = order == 0 ? 1 : order == 1 ? 2 : order == 2 ? 4 : 6;
    // consecutive, strided, or any selection in order
    const size_t stride = sim::choose(3, "stride");
    std::vector<std::shared_ptr<const Var>> v;
    for (size_t k = sim::choose(3, "first"); k < pos.size(); k += stride ? stride : 1 + sim::choose(2, "skip"))
      v.push_back(pos[k]);
    const int how_many = (int)sim::choose(3, "coeffs");  // none, one, one for each joint
    VectorXd c(how_many == 0 ? 0 : how_many == 1 ? 1 : dof);
    for (Idx k = 0; k < c.size(); ++k)
      c[k] = 0.25 * (1 + (double)sim::choose(8, "coeff"));
    if (c.size() && sim::chance(1, 10, "bad-coeff"))
    {
      c[(Idx)sim::choose((uint64_t)c.size(), "which")] = sim::chance(1, 2, "negative") ? -1 : 0;
    }
    else if (sim::chance(1, 12, "wrong-coeffs"))
      c = VectorXd::Ones(dof + 1);
    const bool bad = (c.size() && !(c.array() > 0).all()) || c.size() > dof;
    VectorXd target(dof);
    for (Idx k = 0; k < dof; ++k)
      target[k] = dyadic("target");
    const bool with_bounds = order == 0 && sim::chance(2, 3, "with-bounds"), split = sim::chance(1, 2, "split");
    std::vector<Bounds> lim;
    for (Idx k = 0; k < dof; ++k)
      if (!with_bounds || sim::chance(1, 4, "equality"))
        lim.emplace_back(target[k], target[k]);
      else
      {
        const double lo = dyadic("lo"), hi = lo + 0.25 * (1 + (double)sim::choose(8, "width"));
        switch (sim::choose(3, "kind"))
        {
          case 0: lim.emplace_back(lo, hi); break;
          case 1: lim.emplace_back(lo, INF); break;
          default: lim.emplace_back(-INF, hi);
        }
      }
    if (order == 0 && !with_bounds && c.size() == 0)
      c = VectorXd::Ones(1);
    if (order == 0 && v.empty())
      v.push_back(pos[0]);
    bool threw = false;
    const std::string name = "t" + std::to_string(i);
    try
    {
      switch (order)
      {
        case 0:
          t.what = "joint position";
          if (with_bounds)
            t.set = std::make_shared<JointPosConstraint>(lim, v[0], c, name, split ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs);
          else
            t.set = std::make_shared<JointPosConstraint>(target, v[0], c, name);
          break;
        case 1:
          t.what = "joint velocity";
          t.set = std::make_shared<JointVelConstraint>(target, v, c, name);
          break;
        case 2:
          t.what = "joint acceleration";
          t.set = std::make_shared<JointAccelConstraint>(target, v, c, name);
          break;
        default:
          t.what = "joint jerk";
          t.set = std::make_shared<JointJerkConstraint>(target, v, c, name);
      }
    }
    catch (const std::runtime_error&)
    {
      threw = true;
    }
    if (threw != (bad || v.size() < need))
      sim::fail("term", "%s term with %zu positions and %ld coefficients: %s", t.what, v.size(), (long)c.size(), threw ? "rejected" : "accepted");
    if (threw)
    {
      sim::cover("fault.rejected_term");
      continue;
    }
    sim::cover(t.what);
    // the model
    struct Row
    {
      std::vector<std::pair<size_t, double>> w;  // position of v, weight
    };
    std::vector<Row> rows;
    const size_t m = v.size();
    if (order == 0)
      rows.push_back({ { { 0, 1 } } });
    if (order == 1)
      for (size_t k = 0; k + 1 < m; ++k)
        rows.push_back({ { { k, -1 }, { k + 1, 1 } } });
    if (order == 2)
      for (size_t k = 0; k < m; ++k)
      {
        if (k < m - 2)
          rows.push_back({ { { k, 1 }, { k + 1, -2 }, { k + 2, 1 } } });
        else
          rows.push_back({ { { k - 2, 1 }, { k - 1, -2 }, { k, 1 } } });
      }
    if (order == 3)
      for (size_t k = 0; k < m; ++k)
      {
        const size_t f = k < m - 3 ? k : k - 3;
        rows.push_back({ { { f, -1 }, { f + 1, 3 }, { f + 2, -3 }, { f + 3, 1 } } });
      }
    std::vector<VectorXd> jr;
    std::vector<double> co;
    for (auto& r : rows)
      for (Idx k = 0; k < dof; ++k)
      {
        VectorXd row = VectorXd::Zero(n);
        for (auto& w : r.w)
          row[v[w.first]->getIndex() + k] += w.second;
        const double coeff = c.size() == 0 ? (order == 1 ? 5 : 1) : c.size() == 1 ? c[0] : c[k];
        const Bounds& b = lim[(size_t)k];
        if (with_bounds && split && b.getType() == BoundsType::kRangeBound)
        {
          jr.push_back(row);
          co.push_back(coeff);
          t.bounds.emplace_back(b.getLower(), INF);
          jr.push_back(row);
          co.push_back(coeff);
          t.bounds.emplace_back(-INF, b.getUpper());
        }
        else
        {
          jr.push_back(row);
          co.push_back(coeff);
          t.bounds.push_back(b);
        }
      }
    t.j = Eigen::MatrixXd((Idx)jr.size(), n);
    for (size_t k = 0; k < jr.size(); ++k)
      t.j.row((Idx)k) = jr[k].transpose();
    t.coeffs = Eigen::Map<VectorXd>(co.data(), (Idx)co.size());
    if (t.set->getRows() != (int)jr.size())
      sim::fail("term", "%s: %d rows, not %zu", t.what, t.set->getRows(), jr.size());
    t.penalty = (int)sim::choose(3, "use");
    if (t.penalty)
    {
      t.cost = true;
      t.weights = VectorXd::Ones(t.set->getRows());
      const bool given = sim::chance(1, 2, "weights");
      if (given)
        for (Idx k = 0; k < t.weights.size(); ++k)
          t.weights[k] = 0.25 * ((double)sim::choose(17, "weight") - 8);
      t.set->linkWithVariables(vars);
      std::shared_ptr<CostTerm> cost;
      if (t.penalty == 1)
        cost = given ? std::make_shared<SquaredCost>(t.set, t.weights) : std::make_shared<SquaredCost>(t.set);
      else
        cost = given ? std::make_shared<AbsoluteCost>(t.set, t.weights) : std::make_shared<AbsoluteCost>(t.set);
      t.weights = t.weights.cwiseAbs();
      nlp.addCostSet(cost);
      costs.push_back(t);
    }
    else
    {
      nlp.addConstraintSet(t.set);
      cnts.push_back(t);
    }
  }
  int rows = 0;
  for (auto& t : cnts)
    rows += (int)t.j.rows();
  const int updates = 1 + (int)sim::logchoose(8, "updates");
  for (int u = 0; u < updates; ++u)
  {
    VectorXd x(n);
    for (Idx k = 0; k < n; ++k)
      x[k] = dyadic("x");
    if (sim::chance(1, 3, "as-problem"))
      nlp.setVariables(x.data());
    else
      vars->setVariables(x);
    VectorXd want(0), coeffs(0);
    std::vector<Bounds> bounds;
    Eigen::MatrixXd jac(rows, n);
    Idx r = 0;
    auto check_term = [&](const Term& t) {
      const VectorXd g = t.j * x;
      expect(t, "value", t.set->getValues(), g);
      expect(t, "coefficient", t.set->getCoefficients(), t.coeffs);
      if (!same(t.set->getBounds(), t.bounds))
        sim::fail("term", "%s: bounds are not those of its rows", t.what);
      const Jacobian js = t.set->getJacobian();
      if (js.rows() != t.j.rows() || js.cols() != n)
        sim::fail("term", "%s: derivative has size %ld x %ld", t.what, (long)js.rows(), (long)js.cols());
      const Eigen::MatrixXd j(js);
      for (Idx a = 0; a < j.rows(); ++a)
        for (Idx b = 0; b < n; ++b)
          if (j(a, b) != t.j(a, b))
            sim::fail("term", "%s: derivative of row %ld by variable %ld is %g, not %g", t.what, (long)a, (long)b, j(a, b), t.j(a, b));
      return g;
    };
    for (auto& t : cnts)
    {
      want = stack(want, check_term(t));
      coeffs = stack(coeffs, t.coeffs);
      bounds.insert(bounds.end(), t.bounds.begin(), t.bounds.end());
      jac.middleRows(r, t.j.rows()) = t.j;
      r += t.j.rows();
    }
    Term whole;
    whole.what = "all constraints";
    expect(whole, "value", nlp.evaluateConstraints(), want);
    expect(whole, "coefficient", nlp.getConstraints().getCoefficients(), coeffs);
    if (!same(nlp.getBoundsOnConstraints(), bounds) || nlp.getNumberOfConstraints() != (int)bounds.size())
      sim::fail("term", "the bounds of all constraints are not those of the terms in order");
    if (rows && (Eigen::MatrixXd(nlp.getJacobianOfConstraints()) - jac).cwiseAbs().maxCoeff() != 0)
      sim::fail("term", "the derivative of all constraints is not that of the terms in order");
    if (rows)
    {
      const Jacobian js = nlp.getJacobianOfConstraints();
      std::vector<double> nz((size_t)js.nonZeros() + 1, -77);
      nlp.evalNonzerosOfJacobian(nz.data());
      size_t k = 0;
      for (Idx o = 0; o < js.outerSize(); ++o)
        for (Jacobian::InnerIterator it(js, o); it; ++it)
          if (nz[k++] != it.value())
            sim::fail("term", "entry %zu of the derivative is %g, not %g", k - 1, nz[k - 1], it.value());
      if (nz[k] != -77)
        sim::fail("term", "more entries than the derivative has");
    }
    double cost = 0;
    VectorXd grad = VectorXd::Zero(n);
    bool kink = false;
    for (auto& t : costs)
    {
      const VectorXd g = check_term(t);
      for (Idx k = 0; k < g.size(); ++k)
      {
        const double e = error_of(g[k], t.bounds[(size_t)k]), w = t.weights[k];
        cost += t.penalty == 1 ? w * e * e : w * std::abs(e);
        grad += (t.penalty == 1 ? 2 * w * e : e > 0 ? w : e < 0 ? -w : 0.0) * t.j.row(k).transpose();
        kink = kink || std::abs(e) < 0.25;
      }
    }
    whole.what = "all costs";
    expect(whole, "sum", VectorXd::Constant(1, nlp.evaluateCostFunction()), VectorXd::Constant(1, cost), 1e-9);
    expect(whole, "gradient", nlp.evaluateCostFunctionGradient(), grad, 1e-9);
    if (sim::chance(1, 3, "numerical"))
    {
      const double eps = 1.0 / (1 << 20);
      if (rows)
      {
        const Jacobian num = calcNumericalConstraintGradient(x.data(), nlp, eps);
        if ((Eigen::MatrixXd(num) - jac).cwiseAbs().maxCoeff() > 1e-6)
          sim::fail("term", "numerical and exact derivatives of the constraints differ");
      }
      if (!kink)
        expect(whole, "numerical gradient", calcNumericalCostGradient(x.data(), nlp, eps), grad, 1e-3);
      if (!same(vars->getValues(), x))
        sim::fail("term", "the variables changed under numerical differentiation");
    }
    if (!cnts.empty() || !costs.empty())
      sim::nontrivial();
    sim::cover("op.update");
    sim::event(sim::hash_bytes(x.data(), sizeof(double) * (size_t)n));
  }
}

// components whose number of rows changes from update to update, stacked
struct Changing : ConstraintSet
{
  std::shared_ptr<const Var> var;
  const std::vector<int>* script;
  size_t at = 0;
  Changing(std::shared_ptr<const Var> v, const std::vector<int>* s, int k) : ConstraintSet("c" + std::to_string(k), true), var(std::move(v)), script(s) { rows_ = 0, non_zeros_ = 0; }
  int update() override
  {
    rows_ = (*script)[at++ % script->size()];
    non_zeros_ = rows_;
    return rows_;
  }
  double coeff(Idx r) const { return 1 + 0.5 * (double)r; }
  VectorXd getValues() const override
  {
    VectorXd g(rows_);
    for (Idx r = 0; r < rows_; ++r)
      g[r] = coeff(r) * var->value()[r % var->size()];
    return g;
  }
  VectorXd getCoefficients() const override
  {
    VectorXd g(rows_);
    for (Idx r = 0; r < rows_; ++r)
      g[r] = coeff(r);
    return g;
  }
  std::vector<Bounds> getBounds() const override
  {
    std::vector<Bounds> b;
    for (Idx r = 0; r < rows_; ++r)
      b.emplace_back(coeff(r), INF);
    return b;
  }
  Jacobian getJacobian() const override
  {
    std::vector<Eigen::Triplet<double>> t;
    for (Idx r = 0; r < rows_; ++r)
      t.emplace_back((int)r, (int)(var->getIndex() + r % var->size()), coeff(r));
    Jacobian j(rows_, getVariables()->getRows());
    j.setFromTriplets(t.begin(), t.end());
    return j;
  }
};
void composite_history()
{
  std::vector<std::unique_ptr<Node>> nodes;
  nodes.push_back(std::make_unique<Node>("n"));
  std::vector<std::shared_ptr<const Var>> v;
  for (int i = 0, n = 1 + (int)sim::choose(3, "vars"); i < n; ++i)
  {
    const Idx w = 1 + (Idx)sim::choose(3, "width");
    v.push_back(nodes[0]->addVar("v" + std::to_string(i), std::vector<std::string>((size_t)w, "j"), VectorXd::Zero(w), std::vector<Bounds>((size_t)w, NoBound)));
  }
  auto vars = std::make_shared<NodesVariables>("v", std::move(nodes));
  const Idx n = vars->getRows();
  CompositeDifferentiable all("all", n, Differentiable::Mode::kStackRows, true);
  std::vector<std::shared_ptr<Changing>> parts;
  std::vector<std::vector<int>> scripts(1 + sim::choose(4, "parts"));
  for (auto& s : scripts)
    for (int k = 0, m = 1 + (int)sim::choose(4, "script"); k < m; ++k)
      s.push_back((int)sim::choose(5, "rows"));
  auto build = [&] {
    parts.clear();
    for (size_t k = 0; k < scripts.size(); ++k)
    {
      parts.push_back(std::make_shared<Changing>(v[sim::choose(v.size(), "var")], &scripts[k], (int)k));
      parts.back()->linkWithVariables(vars);
      all.addComponent(parts.back());
    }
  };
  build();
  for (int u = 0, m = 1 + (int)sim::choose(8, "updates"); u < m; ++u)
  {
    if (sim::chance(1, 10, "clear"))
    {
      all.clearComponents();
      if (!all.empty() || all.getRows() != 0 || all.getValues().size() != 0)
        sim::fail("composite", "not empty after it was cleared");
      build();
    }
    VectorXd x(n);
    for (Idx k = 0; k < n; ++k)
      x[k] = dyadic("x");
    vars->setVariables(x);
    const int rows = all.update();
    VectorXd g(0), c(0);
    std::vector<Bounds> b;
    Eigen::MatrixXd j(0, n);
    int want = 0;
    for (auto& p : parts)
    {
      want += p->getRows();
      g = stack(g, p->getValues());
      c = stack(c, p->getCoefficients());
      const auto pb = p->getBounds();
      b.insert(b.end(), pb.begin(), pb.end());
      Eigen::MatrixXd jj(j.rows() + p->getRows(), n);
      jj << j, Eigen::MatrixXd(p->getJacobian());
      j = jj;
      if (all.getComponent(p->getName()) != p)
        sim::fail("composite", "component %s is not found", p->getName().c_str());
    }
    if (rows != want || all.getRows() != want)
      sim::fail("composite", "%d rows returned, %d shown, %d expected", rows, all.getRows(), want);
    if (!same(all.getValues(), g) || !same(all.getCoefficients(), c) || !same(all.getBounds(), b))
      sim::fail("composite", "values, coefficients or bounds are not those of the components in order");
    const Eigen::MatrixXd k(all.getJacobian());
    if (k.rows() != want || k.cols() != n || (want && (k - j).cwiseAbs().maxCoeff() != 0))
      sim::fail("composite", "the derivative is not that of the components in order");
    sim::cover("op.composite");
  }
}
void terms_thread(void*) { terms_history(); }

void prepare()
{
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  sim::set_racecheck(true);
  sim::set_uafcheck(true);
  sim::set_step_limit(200000000);
}
}  // namespace

SIM_WORLD(ifopt_vars)
{
  prepare();
  int t = -1;
  if (sim::chance(1, 3, "second-thread"))
  {
    sim::cover("op.two_threads");
    t = sim::spawn(thread_main, nullptr);
  }
  history();
  if (t >= 0)
    sim::join(t);
}
SIM_WORLD(ifopt_terms)
{
  prepare();
  int t = -1;
  if (sim::chance(1, 3, "second-thread"))
  {
    sim::cover("op.two_threads");
    t = sim::spawn(terms_thread, nullptr);
  }
  if (sim::chance(1, 6, "composite"))
    composite_history();
  terms_history();
  if (t >= 0)
    sim::join(t);
}
