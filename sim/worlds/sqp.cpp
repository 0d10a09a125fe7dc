// P08-P11: the trust-region SQP solver, its two kinds of problem and its OSQP wrapper, with a simulated clock, QP solver,
// callbacks and user functions.
#include <rt/sim.h>
#include "sub.h"
#include <qp/canon.h>
#include <qp/qp.h>
#include <console_bridge/console.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/var.h>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/osqp_eigen_solver.h>
#include <trajopt_sqp/qp_solver.h>
#include <trajopt_sqp/sqp_callback.h>
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
#include <cstring>
#include <deque>
#include <memory>
#include <set>
#include <stdexcept>

namespace
{
using namespace trajopt_sqp;
using namespace sub;
using trajopt_ifopt::Bounds;
using trajopt_ifopt::Jacobian;
using Vec = Eigen::VectorXd;

// ---- the problem ---------------------------------------------------------------------------------------------------------
enum What
{
  SQUARED = 0,
  ABSOLUTE = 1,
  HINGE = 2,
  CONSTRAINT = 3
};
struct Row
{
  Fn f;
  double lo, hi, coeff;
  int act = 0;        // in a dynamic set the row is there while x_act > thr
  double thr = -INFINITY;
};
struct Set
{
  int what = 0;
  std::string name;
  bool dynamic = false;
  std::vector<Row> rows;
};
struct Outcome
{
  int status = 0;  // qpstub::Outcome
  int how = 0;     // 0 solved, 1 anywhere in the box, 2 between the two, 3 slightly outside of the box, 4 undefined
  uint64_t salt = 0;
};
struct Plan
{
  unsigned n = 1;
  bool ifopt = false, osqp = false;
  DblVec lb, ub, x0;
  std::vector<unsigned> nodes;  // sizes; their variables are single numbers or one vector
  std::vector<bool> scalar;
  std::vector<Set> sets;
  SQPParameters par;
  std::vector<Outcome> out;
  bool exact = false;
  bool timed = false;
  uint64_t eval_ns = 0, solve_ns = 0;
  unsigned jumps = 0;
  long throw_at = -1;
  long cb_stop = -1;
  unsigned update_fails = 0;  // updates in place that the QP solver refuses, per 1000
};
const Plan* g_plan;
long g_evals;
struct UserError : std::runtime_error
{
  using std::runtime_error::runtime_error;
};
void before_eval()
{
  const Plan& p = *g_plan;
  if (++g_evals == p.throw_at)
  {
    sim::cover("fault.throwing_function");
    throw UserError("function of the user");
  }
  if (p.timed)
  {
    sim::advance(p.eval_ns);
    if (p.jumps && sim::faults_on() && sim::chance(p.jumps, 1000, "jump"))
    {
      sim::cover("fault.clock_jump");
      const int64_t d = (int64_t)sim::logchoose(100000, "jump-s") * 1000000000;
      sim::jump_system(sim::chance(1, 2, "back") ? -d : d);
    }
  }
}
bool same_point(const Vec& a, const Vec& b) { return a.size() == b.size() && (a.size() == 0 || !std::memcmp(a.data(), b.data(), (std::size_t)a.size() * sizeof(double))); }
std::string str(const Vec& v) { return sub::str(DblVec(v.data(), v.data() + v.size())); }

std::vector<int> active(const Set& s, const Vec& x)
{
  std::vector<int> o;
  for (std::size_t r = 0; r < s.rows.size(); ++r)
    if (!s.dynamic || x(s.rows[r].act) > s.rows[r].thr)
      o.push_back((int)r);
  return o;
}
class TestSet : public trajopt_ifopt::ConstraintSet
{
  const Set& s_;
  std::vector<int> act_;
  Vec at_;
  bool updated_ = false;
  void fresh(const char* what) const
  {
    if (s_.dynamic && (!updated_ || !same_point(at_, variables_->getValues())))
      sim::fail("stale", "%s of the dynamic term %s are used at%s, but it was last updated at%s", what, s_.name.c_str(), str(variables_->getValues()).c_str(),
                updated_ ? str(at_).c_str() : " no point");
  }

public:
  TestSet(const Set& s) : ConstraintSet(s.name, true), s_(s)
  {
    non_zeros_ = 0;
    rows_ = 0;
  }
  TestSet(const Set& s, int rows) : ConstraintSet(s.name, rows), s_(s)
  {
    act_ = active(s, Vec());
    non_zeros_ = nz();
  }
  Eigen::Index nz() const
  {
    Eigen::Index c = 0;
    for (int r : act_)
      c += (Eigen::Index)s_.rows[(std::size_t)r].f.a.size();
    return c;
  }
  int update() override
  {
    before_eval();
    if (s_.dynamic)
    {
      at_ = variables_->getValues();
      act_ = active(s_, at_);
      rows_ = (int)act_.size();
      non_zeros_ = nz();
      updated_ = true;
    }
    return rows_;
  }
  Vec getValues() const override
  {
    fresh("values");
    before_eval();
    const Vec x = variables_->getValues();
    Vec v(rows_);
    for (int i = 0; i < rows_; ++i)
      v(i) = s_.rows[(std::size_t)act_[(std::size_t)i]].f.value(x);
    return v;
  }
  Vec getCoefficients() const override
  {
    Vec v(rows_);
    for (int i = 0; i < rows_; ++i)
      v(i) = s_.rows[(std::size_t)act_[(std::size_t)i]].coeff;
    return v;
  }
  std::vector<Bounds> getBounds() const override
  {
    std::vector<Bounds> b;
    for (int r : act_)
      b.emplace_back(s_.rows[(std::size_t)r].lo, s_.rows[(std::size_t)r].hi);
    return b;
  }
  Jacobian getJacobian() const override
  {
    fresh("derivatives");
    const Vec x = variables_->getValues();
    Jacobian j(rows_, x.size());
    std::vector<Eigen::Triplet<double>> t;
    for (int i = 0; i < rows_; ++i)
    {
      const Fn& f = s_.rows[(std::size_t)act_[(std::size_t)i]].f;
      const Vec g = f.grad(x);
      for (Eigen::Index k = 0; k < g.size(); ++k)
        if (g(k) != 0)
          t.emplace_back(i, (int)k, g(k));
    }
    j.setFromTriplets(t.begin(), t.end());
    return j;
  }
};
struct Problem
{
  std::shared_ptr<trajopt_ifopt::NodesVariables> vars;
  QPProblem::Ptr qp;
  std::vector<std::size_t> cost_set;                // by number of the cost in the problem
  std::vector<std::pair<std::size_t, int>> cnt_of;  // set and row (-1: all of them)
};
std::shared_ptr<trajopt_ifopt::NodesVariables> make_vars(const Plan& p)
{
  std::vector<std::unique_ptr<trajopt_ifopt::Node>> nodes;
  unsigned at = 0;
  for (std::size_t k = 0; k < p.nodes.size(); ++k)
  {
    auto nd = std::make_unique<trajopt_ifopt::Node>("n" + std::to_string(k));
    std::vector<std::string> names;
    Vec v(p.nodes[k]);
    std::vector<Bounds> b;
    for (unsigned i = 0; i < p.nodes[k]; ++i, ++at)
    {
      names.push_back("v" + std::to_string(i));
      v(i) = p.x0[at];
      b.emplace_back(p.lb[at], p.ub[at]);
      if (p.scalar[k])
        nd->addVar(names.back(), v(i), b.back());
    }
    if (!p.scalar[k])
      nd->addVar("all", names, v, b);
    nodes.push_back(std::move(nd));
  }
  return std::make_shared<trajopt_ifopt::NodesVariables>("trajectory", std::move(nodes));
}
void add_set(QPProblem& qp, const Set& s)
{
  const std::shared_ptr<trajopt_ifopt::ConstraintSet> t = s.dynamic ? std::make_shared<TestSet>(s) : std::make_shared<TestSet>(s, (int)s.rows.size());
  if (s.what == CONSTRAINT)
    qp.addConstraintSet(t);
  else
    qp.addCostSet(t, s.what == SQUARED ? CostPenaltyType::kSquared : s.what == ABSOLUTE ? CostPenaltyType::kAbsolute : CostPenaltyType::kHinge);
}
// which cost and constraint of the problem is which
void identify(const Plan& p, std::size_t sets, Problem& b)
{
  const auto &cn = b.qp->getNLPCostNames(), &kn = b.qp->getNLPConstraintNames();
  b.cost_set.clear();
  b.cnt_of.clear();
  std::size_t nc = 0, nk = 0;
  for (std::size_t i = 0; i < sets; ++i)
    if (p.sets[i].what != CONSTRAINT)
      ++nc;
    else
      nk += p.ifopt ? p.sets[i].rows.size() : 1;
  if (cn.size() != nc || kn.size() != nk || b.qp->getNumNLPCosts() != (Eigen::Index)nc || b.qp->getNumNLPConstraints() != (Eigen::Index)nk)
    sim::fail("names", "the problem has %zu costs and %zu constraints, but %zu and %zu names and counts %ld and %ld", nc, nk, cn.size(), kn.size(),
              (long)b.qp->getNumNLPCosts(), (long)b.qp->getNumNLPConstraints());
  for (auto& n : cn)
  {
    std::size_t k = 0;
    while (k < sets && !(p.sets[k].what != CONSTRAINT && (n == p.sets[k].name || n.rfind(p.sets[k].name + "_", 0) == 0)))
      ++k;
    if (k == sets || std::find(b.cost_set.begin(), b.cost_set.end(), k) != b.cost_set.end())
      sim::fail("names", "no cost, or another one, is named %s", n.c_str());
    b.cost_set.push_back(k);
  }
  for (auto& n : kn)
  {
    bool found = false;
    for (std::size_t k = 0; k < sets && !found; ++k)
    {
      if (p.sets[k].what != CONSTRAINT)
        continue;
      for (int r = p.ifopt ? 0 : -1; r < (p.ifopt ? (int)p.sets[k].rows.size() : 0) && !found; ++r)
        if (n == p.sets[k].name + (r < 0 ? "" : "_" + std::to_string(r)) && std::find(b.cnt_of.begin(), b.cnt_of.end(), std::make_pair(k, r)) == b.cnt_of.end())
        {
          b.cnt_of.push_back({ k, r });
          found = true;
        }
    }
    if (!found)
      sim::fail("names", "no constraint, or another one, is named %s", n.c_str());
  }
}
Problem build(const Plan& p)
{
  Problem b;
  b.vars = make_vars(p);
  if (p.ifopt)
    b.qp = std::make_shared<IfoptQPProblem>(b.vars);
  else
    b.qp = std::make_shared<TrajOptQPProblem>(b.vars);
  for (auto& s : p.sets)
    add_set(*b.qp, s);
  b.qp->setup();
  identify(p, p.sets.size(), b);
  return b;
}

// ---- reference -----------------------------------------------------------------------------------------------------------
double violation(const Row& r, double v)
{
  if (std::isnan(v))
    return v;
  return v < r.lo ? r.lo - v : v > r.hi ? v - r.hi : 0;
}
double lin(const Row& r, const Vec& at, const Vec& x)
{
  const Vec g = r.f.grad(at);
  return r.f.value(at) + g.dot(x - at);
}
// value of a cost, or violation of a constraint, at x; linearised at `at` if given
double term(const Set& s, int row, const Vec& x, const Vec* at)
{
  double v = 0;
  for (int k : active(s, at ? *at : x))
  {
    const Row& r = s.rows[(std::size_t)k];
    if (row >= 0 && k != row)
      continue;
    const double y = violation(r, at ? lin(r, *at, x) : r.f.value(x));
    v += s.what == SQUARED ? r.coeff * y * y : s.what == CONSTRAINT ? y : r.coeff * y;
  }
  return v;
}
Vec ref_costs(const Plan& p, const Problem& b, const Vec& x, const Vec* at = nullptr)
{
  Vec v((long)b.cost_set.size());
  for (std::size_t i = 0; i < b.cost_set.size(); ++i)
    v((long)i) = term(p.sets[b.cost_set[i]], -1, x, at);
  return v;
}
Vec ref_viols(const Plan& p, const Problem& b, const Vec& x, const Vec* at = nullptr)
{
  Vec v((long)b.cnt_of.size());
  for (std::size_t i = 0; i < b.cnt_of.size(); ++i)
    v((long)i) = term(p.sets[b.cnt_of[i].first], b.cnt_of[i].second, x, at);
  return v;
}
double ref_merit(const Plan& p, const Problem& b, const Vec& x, const Vec& mu, const Vec* at = nullptr)
{
  double m = 0;
  const Vec c = ref_costs(p, b, x, at), k = ref_viols(p, b, x, at);
  for (long i = 0; i < c.size(); ++i)
    m += c(i);
  for (long i = 0; i < k.size(); ++i)
    m += mu(i) * k(i);
  return m;
}
bool affected_by_ifopt_absolute(const Plan& p, std::size_t sets)
{
  if (p.ifopt)
    for (std::size_t i = 0; i < sets; ++i)
      if (p.sets[i].what == ABSOLUTE)
        return true;
  return false;
}
// the subproblem at x; absolute_as_squared: the listed finding of IfoptQPProblem
Sub ref_sub(const Plan& p, const Problem& b, const Vec& x, const Vec& mu, bool absolute_as_squared)
{
  Sub s;
  s.tolLQ = 1e-6;
  s.L.assign(p.n, 0);
  s.Q = Eigen::MatrixXd::Zero(p.n, p.n);
  auto add = [&](const Set& set, int row, double weight) {
    for (int k : active(set, x))
    {
      if (row >= 0 && row != k)
        continue;
      const Row& r = set.rows[(std::size_t)k];
      const Vec g = r.f.grad(x);
      const double c = r.f.value(x) - g.dot(x), w = weight * (set.what == CONSTRAINT && p.ifopt ? 1.0 : r.coeff);
      const double t = std::isfinite(r.lo) ? r.lo : r.hi;
      if (set.what == SQUARED || (set.what == ABSOLUTE && absolute_as_squared))
      {
        s.Q += w * g * g.transpose();
        for (unsigned i = 0; i < p.n; ++i)
          s.L[i] += 2 * w * (c - t) * g(i);
        s.C += w * (c - t) * (c - t);
        s.tolLQ = std::max(s.tolLQ, 1e-6 * (1 + w) * (1 + g.lpNorm<Eigen::Infinity>()) * (1 + std::fabs(c) + x.lpNorm<1>() * (1 + g.lpNorm<Eigen::Infinity>())));
        continue;
      }
      const bool eq = r.lo == r.hi, lower = !eq && std::isfinite(r.lo);
      const double sg = lower ? -1 : 1;
      Term q{ eq ? 'a' : 'h', {}, sg * w * (c - t), w * 1e-6 + 1e-9, w * 1e-6 * (1 + x.lpNorm<1>()) + 1e-9 };
      for (unsigned i = 0; i < p.n; ++i)
        q.a.push_back(sg * w * g(i));
      s.t.push_back(q);
    }
  };
  for (auto k : b.cost_set)
    add(p.sets[k], -1, 1);
  for (std::size_t i = 0; i < b.cnt_of.size(); ++i)
    add(p.sets[b.cnt_of[i].first], b.cnt_of[i].second, mu((long)i));
  return s;
}
// the problem as a QP solver gets it: minimise x'Hx + g'x
qpstub::Canon canon(const Eigen::MatrixXd& H, const Vec& g, const Eigen::MatrixXd& A, const Vec& l, const Vec& u)
{
  qpstub::Canon c;
  const Eigen::Index n = g.size(), m = A.rows() - n;
  c.n = (int)n;
  for (Eigen::Index i = 0; i < n; ++i)
  {
    c.lin.push_back(g(i));
    for (Eigen::Index j = i; j < n; ++j)
      c.quad[{ (int)i, (int)j }] = i == j ? H(i, i) : H(i, j) + H(j, i);
  }
  for (Eigen::Index r = 0; r < A.rows(); ++r)
  {
    if (r >= m)
    {
      for (Eigen::Index k = 0; k < n; ++k)
        if (A(r, k) != (k == r - m ? 1.0 : 0.0))
          sim::fail("subproblem", "the rows of the variable bounds are not the identity");
      c.lb.push_back(l(r));
      c.ub.push_back(u(r));
      continue;
    }
    qpstub::Row q;
    for (Eigen::Index k = 0; k < n; ++k)
      q.a[(int)k] = A(r, k);
    q.lo = l(r);
    q.hi = u(r);
    c.rows.push_back(q);
  }
  c.normalise();
  return c;
}

// ---- a QP solver for the tests: it answers for the data it was last given, however they came --------------------------------
void answer(const qpstub::Canon& c, qpstub::Answer& a);
class SimQP : public QPSolver
{
  Eigen::Index n_ = 0, m_ = 0;
  bool h_ = false, g_ = false, a_ = false, b_ = false, solved_ = false, after_matrix_ = false;
  Eigen::MatrixXd H_, A_;
  Vec gr_, l_, u_, x_;
  QPSolverStatus st_ = QPSolverStatus::kUninitialized;
  bool refuse(const char* what) const
  {
    if (!solved_ || !g_plan->update_fails || !sim::faults_on() || !sim::chance(g_plan->update_fails, 1000, what))
      return false;
    sim::cover((std::string("fault.refused_") + what).c_str());
    return true;
  }

public:
  bool init(Eigen::Index n, Eigen::Index m) override
  {
    n_ = n;
    m_ = m;
    st_ = QPSolverStatus::kInitialized;
    return true;
  }
  bool clear() override
  {
    n_ = m_ = 0;
    h_ = g_ = a_ = b_ = solved_ = after_matrix_ = false;
    st_ = QPSolverStatus::kUninitialized;
    return true;
  }
  bool solve() override
  {
    solved_ = true;
    after_matrix_ = false;
    if (!(h_ && g_ && a_ && b_))
    {
      st_ = QPSolverStatus::kFailed;
      return false;
    }
    qpstub::Answer ans;
    answer(canon(H_, gr_, A_, l_, u_), ans);
    const bool ok = ans.outcome == qpstub::SOLVED || ans.outcome == qpstub::SOLVED_INACCURATE;
    x_ = eig(ans.x);
    st_ = ok ? QPSolverStatus::kInitialized : QPSolverStatus::kFailed;
    return ok;
  }
  Vec getSolution() override { return x_; }
  bool updateHessianMatrix(const Jacobian& h) override
  {
    if (h.rows() != n_ || h.cols() != n_ || refuse("hessian"))
      return false;
    H_ = Eigen::MatrixXd(h);
    return h_ = true;
  }
  bool updateGradient(const Eigen::Ref<const Vec>& g) override
  {
    if (g.size() != n_ || refuse("gradient"))
      return false;
    gr_ = g;
    return g_ = true;
  }
  bool updateLowerBound(const Eigen::Ref<const Vec>& l) override
  {
    if (l.size() != m_)
      return false;
    l_ = l;
    return true;
  }
  bool updateUpperBound(const Eigen::Ref<const Vec>& u) override
  {
    if (u.size() != m_)
      return false;
    u_ = u;
    return true;
  }
  bool updateBounds(const Eigen::Ref<const Vec>& l, const Eigen::Ref<const Vec>& u) override
  {
    if (l.size() != m_ || u.size() != m_ || (after_matrix_ && refuse("bounds")))
      return false;
    after_matrix_ = false;
    l_ = l;
    u_ = u;
    return b_ = true;
  }
  bool updateLinearConstraintsMatrix(const Jacobian& a) override
  {
    if (a.rows() != m_ || a.cols() != n_ || refuse("matrix"))
      return false;
    A_ = Eigen::MatrixXd(a);
    after_matrix_ = true;
    return a_ = true;
  }
  bool setWarmStart(const QPProblem&) override { return true; }
  QPSolverStatus getSolverStatus() const override { return st_; }
};

// ---- one optimisation under observation -----------------------------------------------------------------------------------
enum
{
  TRUTH = 1,
  LIMITS = 2,
  STEPS = 4
};
struct Solve
{
  int pen = 0, cvx = 0;
  Vec x, mu, box, cand;  // cand: answer for the problem's variables
  bool ok = false, undefined = false;
  double m0 = 0, m1 = 0, ap = 0;  // exact merit at x and at cand, merit the subproblem predicts for cand
  int fails = 0;  // failed solves of this convexification so far, this one included
};
struct Run
{
  const Plan* p = nullptr;
  unsigned checks = 0;
  TrustRegionSQPSolver* s = nullptr;
  Problem* b = nullptr;
  std::vector<Solve> solves;
  std::size_t callbacks = 0;
  bool told_to_stop = false;
  uint64_t start_ns = 0, last_ns = 0;
  int phases = 0, accepted = 0, rejected = 0;
};
Run* g_run;

double limit_s(const Run& r, uint64_t ns) { return (double)(ns - r.start_ns) * 1e-9; }
bool all_same(const Vec& v, double e, double tol)
{
  for (long i = 0; i < v.size(); ++i)
    if (!same(v(i), e, tol))
      return false;
  return true;
}
bool box_is(const Vec& now, const Vec& before, double scale) { return now.size() == before.size() && (now - before * scale).cwiseAbs().maxCoeff() <= 1e-12 * (1 + before.maxCoeff()); }
// why the trust-region loop of the last convexification may have ended without an accepted step
bool may_end(const Run& r, const Solve& l)
{
  const SQPParameters& P = r.p->par;
  if (!l.ok || std::isnan(l.m0) || std::isnan(l.m1))
    return true;
  const double fz = 1e-6 * (1 + std::fabs(l.m0)) + (r.p->ifopt && affected_by_ifopt_absolute(*r.p, r.p->sets.size()) ? INFINITY : 0);
  const double ap = l.m0 - l.ap;
  if (ap < P.min_approx_improve + fz)
    return true;
  if (ap / std::max(std::fabs(l.m0), 1e-12) < P.min_approx_improve_frac + fz)
    return true;
  return l.box.maxCoeff() * P.trust_shrink_ratio < P.min_trust_box_size * (1 + 1e-9);
}
void check_next(Run& r, const SQPResults& s, const Vec& x, const Solve& l)
{
  const SQPParameters& P = r.p->par;
  const double fz = 1e-6 * (1 + std::fabs(l.m0));
  const bool moved = !same_point(x, l.x);
  // the step to here
  if (moved)
  {
    if (!l.ok || !same_point(x, l.cand))
      sim::fail("step", "the solver moved to%s, which is not the answer to the last subproblem", str(x).c_str());
    if (!(l.m1 <= l.m0 + 1e-9 * (1 + std::fabs(l.m0))))
      sim::fail("merit", "a step was accepted that changes the exact merit from %.17g to %.17g", l.m0, l.m1);
    if ((r.checks & STEPS) && !l.undefined && l.m0 - l.m1 < P.improve_ratio_threshold * (l.m0 - l.ap) - fz)
      sim::fail("accepted", "a step was accepted whose exact improvement %.9g is less than %g of the predicted %.9g", l.m0 - l.m1, P.improve_ratio_threshold, l.m0 - l.ap);
    ++r.accepted;
  }
  if (qpstub::fault_rate)
    return;  // the QP solver may have failed without a question that is seen here
  if (s.penalty_iteration != l.pen)
  {
    if (s.penalty_iteration != l.pen + 1)
      sim::fail("phases", "penalty phase %d follows phase %d", s.penalty_iteration, l.pen);
    ++r.phases;
    const Vec viol = ref_viols(*r.p, *r.b, x);
    bool all = true;
    for (long i = 0; i < viol.size(); ++i)
    {
      const bool near = std::fabs(viol(i) - P.cnt_tolerance) < 1e-12, over = !near && viol(i) > P.cnt_tolerance;
      if (over || near || std::isnan(viol(i)))
        all = false;
      if (near || std::isnan(viol(i)))
        continue;
      const double e = l.mu(i) * (!P.inflate_constraints_individually || over ? P.merit_coeff_increase_ratio : 1.0);
      if (!same(s.merit_error_coeffs(i), e, 1e-12))
        sim::fail("penalties", "the penalty of constraint %ld with violation %.9g goes from %.9g to %.9g, not to %.9g", i, viol(i), l.mu(i), s.merit_error_coeffs(i), e);
    }
    if (all)
      sim::fail("goes-on", "the optimisation goes on with higher penalties although all constraints are within the tolerance");
    if (moved ? l.cvx < 99 : !may_end(r, l))
      sim::fail("goes-on", "the penalties are raised although the last subproblem predicted an improvement of %.9g and the trust region is %.9g", l.m0 - l.ap, l.box.maxCoeff());
    const double floor = P.min_trust_box_size / P.trust_shrink_ratio * 1.5;
    bool ok = all_same(s.box_size, floor, 1e-12);
    for (double f : { 1.0, P.trust_expand_ratio, P.trust_shrink_ratio })
      ok = ok || (box_is(s.box_size, l.box, f) && s.box_size.minCoeff() >= floor * (1 - 1e-12));
    if (!ok)
      sim::fail("trust-region", "the trust region is%s at the start of a penalty phase, after%s", str(s.box_size).c_str(), str(l.box).c_str());
    return;
  }
  if (!same_point(s.merit_error_coeffs, l.mu))
    sim::fail("penalties", "the penalties change within a penalty phase, from%s to%s", str(l.mu).c_str(), str(s.merit_error_coeffs).c_str());
  if (s.convexify_iteration != l.cvx)
  {
    if (s.convexify_iteration != l.cvx + 1)
      sim::fail("phases", "convexification %d follows convexification %d", s.convexify_iteration, l.cvx);
    if (!l.ok || (!moved && !same_point(x, l.cand)))
      sim::fail("goes-on", "the costs are convexified again although the last step was not taken");
    if (!box_is(s.box_size, l.box, P.trust_expand_ratio))
      sim::fail("trust-region", "after an accepted step the trust region goes from%s to%s", str(l.box).c_str(), str(s.box_size).c_str());
    if ((r.checks & LIMITS) && limit_s(r, r.last_ns) > P.max_time)
      sim::fail("time-limit", "%.6f s after its start a new convexification began; the limit is %.6f s", limit_s(r, r.last_ns), P.max_time);
    return;
  }
  if (moved)
    sim::fail("step", "the point changed without a new convexification");
  if (l.ok)
  {
    ++r.rejected;
    if (!box_is(s.box_size, l.box, P.trust_shrink_ratio))
      sim::fail("trust-region", "after a rejected step the trust region goes from%s to%s", str(l.box).c_str(), str(s.box_size).c_str());
    if ((r.checks & STEPS) && !l.undefined)
    {
      const double ex = l.m0 - l.m1, ap = l.m0 - l.ap;
      if (ex > P.improve_ratio_threshold * ap + fz && ex > fz && ap > fz)
        sim::fail("rejected", "a step was rejected whose exact improvement %.9g is more than %g of the predicted %.9g", ex, P.improve_ratio_threshold, ap);
      if (ap < P.min_approx_improve - fz)
        sim::fail("goes-on", "the iteration goes on although the predicted improvement was only %.9g", ap);
    }
    return;
  }
  if (!box_is(s.box_size, l.box, P.trust_shrink_ratio) && !all_same(s.box_size, P.min_trust_box_size, 1e-12))
    sim::fail("trust-region", "after a failure of the QP solver the trust region goes from%s to%s", str(l.box).c_str(), str(s.box_size).c_str());
}
// the best point as reported (the values of the slack variables may follow)
Vec point(const SQPResults& s) { return s.best_var_vals.head(std::min<Eigen::Index>(s.best_var_vals.size(), (Eigen::Index)g_run->p->n)); }
void answer(const qpstub::Canon& c, qpstub::Answer& a)
{
  sim::Quiet quiet;
  Run& r = *g_run;
  const Plan& p = *r.p;
  const SQPParameters& P = p.par;
  const SQPResults& s = r.s->getResults();
  const Vec x = r.b->qp->getVariableValues();
  if (r.told_to_stop && (r.checks & (LIMITS | TRUTH)))
    sim::fail("callback", "a subproblem is solved after a callback asked to stop");
  if (!same_point(x, point(s)))
    sim::fail("best-point", "a subproblem is solved at%s, the best point is%s", str(x).c_str(), str(point(s)).c_str());
  if (s.overall_iteration != (int)r.solves.size() + 1 && (r.checks & LIMITS))
    sim::fail("count", "solve %zu is counted as number %d", r.solves.size() + 1, s.overall_iteration);
  if ((r.checks & LIMITS) && (int)r.solves.size() >= P.max_iterations)
    sim::fail("iteration-limit", "solve %zu is begun, the limit is %d", r.solves.size() + 1, P.max_iterations);
  if ((r.checks & LIMITS) && r.phases + 1 > std::ceil(P.max_merit_coeff_increases))
    sim::fail("penalty-limit", "penalty phase %d is begun, the limit is %g", r.phases + 1, P.max_merit_coeff_increases);
  Solve n;
  n.pen = s.penalty_iteration;
  n.cvx = s.convexify_iteration;
  n.x = x;
  n.mu = s.merit_error_coeffs;
  n.box = s.box_size;
  if (r.solves.empty() && !qpstub::fault_rate)
  {
    for (unsigned i = 0; i < p.n; ++i)
      if (x(i) != p.x0[i])
        sim::fail("step", "the optimisation starts at%s, not at%s", str(x).c_str(), sub::str(p.x0).c_str());
    if (!all_same(n.mu, P.initial_merit_error_coeff, 0) || !all_same(n.box, P.initial_trust_box_size, 0))
      sim::fail("trust-region", "the optimisation starts with the penalties%s and the trust region%s", str(n.mu).c_str(), str(n.box).c_str());
  }
  else if (!r.solves.empty())
  {
    const Solve& l = r.solves.back();
    check_next(r, s, x, l);
    if (n.pen == l.pen && n.cvx == l.cvx)
      n.fails = l.fails;
    if ((r.checks & LIMITS) && n.fails > P.max_qp_solver_failures)
      sim::fail("qp-failures", "the QP solver failed %d times in one convexification and is asked again; the limit is %d", n.fails, P.max_qp_solver_failures);
  }
  if (p.timed)
    sim::advance(p.solve_ns);
  const Seen seen = read_sub(c, p.n);
  n.m0 = ref_merit(p, *r.b, x, n.mu);
  DblVec lo(c.lb.begin(), c.lb.begin() + p.n), hi(c.ub.begin(), c.ub.begin() + p.n);
  bool defined = std::isfinite(n.m0);
  for (auto& e : c.rows)
    defined = defined && !std::isnan(e.lo) && !std::isnan(e.hi);
  for (auto e : c.lin)
    defined = defined && !std::isnan(e);
  n.undefined = !defined;
  if ((r.checks & STEPS) && defined)
  {
    check_sub(p.n, c, seen, ref_sub(p, *r.b, x, n.mu, affected_by_ifopt_absolute(p, p.sets.size())), DblVec(x.data(), x.data() + x.size()));
    for (unsigned i = 0; i < p.n; ++i)
    {
      const double at = std::min(p.ub[i], std::max(p.lb[i], x(i))), l = std::max(at - n.box(i), p.lb[i]), u = std::min(at + n.box(i), p.ub[i]);
      if (!same(lo[i], l, 1e-12) || !same(hi[i], u, 1e-12))
        sim::fail("trust-region", "variable %u at %.12g with bounds [%g, %g] and trust region %.9g may move in [%.12g, %.12g]", i, x(i), p.lb[i], p.ub[i], n.box(i), lo[i], hi[i]);
    }
  }
  const Outcome& o = p.out[r.solves.size() % p.out.size()];
  n.ok = defined && (o.status == qpstub::SOLVED || o.status == qpstub::SOLVED_INACCURATE);
  sim::log("solve %zu: phase %d convexification %d box%s penalties%s at%s merit %.12g: answer %d.%d", r.solves.size() + 1, n.pen, n.cvx, str(n.box).c_str(), str(n.mu).c_str(),
           str(x).c_str(), n.m0, o.status, o.how);
  a.outcome = n.ok ? o.status : o.status == qpstub::SOLVED || o.status == qpstub::SOLVED_INACCURATE ? (int)qpstub::GAVE_UP : o.status;
  a.x.assign(c.lin.size(), 0);
  if (!n.ok)
  {
    sim::cover("fault.qp_failure");
    ++n.fails;
    for (std::size_t i = 0; i < a.x.size(); ++i)
      a.x[i] = 1e3 + (double)i;  // must not be used
    r.solves.push_back(n);
    r.last_ns = sim::steady_ns();
    return;
  }
  DblVec y = minimise_sub(p.n, p.exact, c, seen, lo, hi);
  if (o.how)
    sim::cover(o.how == 1 ? "fault.qp_bad_answer" : o.how == 2 ? "fault.qp_inexact_answer" : o.how == 3 ? "fault.qp_answer_outside" : "fault.qp_undefined_answer");
  for (unsigned i = 0; i < p.n && o.how; ++i)
  {
    const double u = (double)(sim::mix(o.salt, i) >> 11) / 9007199254740992.0;
    const double l = std::max(lo[i], -1e3), h = std::min(hi[i], 1e3), z = l + u * (h - l);
    y[i] = o.how == 1 ? z : o.how == 2 ? y[i] + 0.1 * (z - y[i]) : o.how == 3 ? y[i] + 1e-3 * (u - 0.5) : y[i];
    if (o.how <= 2)
      y[i] = std::min(hi[i], std::max(lo[i], y[i]));
    if (o.how == 4 && i == o.salt % p.n)
      y[i] = NAN;
  }
  for (unsigned i = 0; i < p.n; ++i)
    a.x[i] = y[i];
  n.cand = eig(y);
  if (!n.cand.allFinite())
  {
    n.ok = false;  // an answer that is no point is a failure
    ++n.fails;
  }
  n.m1 = ref_merit(p, *r.b, n.cand, n.mu);
  n.ap = ref_merit(p, *r.b, n.cand, n.mu, &x);
  sim::log("  candidate%s merit %.12g -> %.12g predicted %.12g", sub::str(y).c_str(), n.m0, n.m1, n.ap);
  sim::event(sim::hash_bytes(y.data(), y.size() * sizeof(double)));
  r.solves.push_back(n);
  r.last_ns = sim::steady_ns();
}
void compare(const Vec& got, const Vec& want, double tol, const char* when, const char* what)
{
  if (got.size() != want.size())
    sim::fail("reported-values", "%s: there are %ld %s, not %ld", when, (long)got.size(), what, (long)want.size());
  for (long i = 0; i < got.size(); ++i)
    if (!same(got(i), want(i), tol))
      sim::fail("reported-values", "%s: %s number %ld is %.17g; it is %.17g there", when, what, i, got(i), want(i));
}
void check_best(const Run& r, const SQPResults& s, const char* when)
{
  compare(s.best_costs, ref_costs(*r.p, *r.b, point(s)), 1e-11, when, "the cost of the best point");
  compare(s.best_constraint_violations, ref_viols(*r.p, *r.b, point(s)), 1e-11, when, "the violation of the best point");
  const double m = ref_merit(*r.p, *r.b, point(s), s.merit_error_coeffs);
  if (!same(s.best_exact_merit, m, 1e-11))
    sim::fail("reported-values", "%s: the merit of the best point is reported as %.17g, it is %.17g", when, s.best_exact_merit, m);
}
class Callback : public SQPCallback
{
public:
  bool execute(const QPProblem& q, const SQPResults& s) override
  {
    sim::Quiet quiet;
    Run& r = *g_run;
    const Plan& p = *r.p;
    ++r.callbacks;
    if (r.solves.empty() || !r.solves.back().ok)
      sim::fail("callbacks", "a callback is called without a solved subproblem");
    const Solve& l = r.solves.back();
    if (r.checks & TRUTH)
    {
      if (!same_point(point(s), l.x) || !same_point(q.getVariableValues(), l.x))
        sim::fail("best-point", "in a callback the best point is%s and the variables are%s; the subproblem was solved at%s", str(point(s)).c_str(),
                  str(q.getVariableValues()).c_str(), str(l.x).c_str());
      if (!same_point(s.new_var_vals.head(p.n), l.cand))
        sim::fail("reported-values", "in a callback the new point is%s, the answer was%s", str(s.new_var_vals).c_str(), str(l.cand).c_str());
      check_best(r, s, "in a callback");
      compare(s.new_costs, ref_costs(p, *r.b, l.cand), 1e-11, "in a callback", "the cost of the new point");
      compare(s.new_constraint_violations, ref_viols(p, *r.b, l.cand), 1e-11, "in a callback", "the violation of the new point");
      if (!l.undefined && l.cand.allFinite())
      {
        const double t = 1e-6 * (1 + l.x.lpNorm<1>() + l.cand.lpNorm<1>());
        compare(s.new_approx_constraint_violations, ref_viols(p, *r.b, l.cand, &l.x), t, "in a callback", "the predicted violation");
        compare(s.new_approx_costs, ref_costs(p, *r.b, l.cand, &l.x), t * 10, "in a callback", "the predicted cost");
      }
    }
    if (p.timed)
      sim::advance(sim::logchoose(1000, "callback-ms") * 1000000);
    r.last_ns = sim::steady_ns();
    if ((long)r.callbacks == p.cb_stop)
    {
      sim::cover("fault.callback_stops");
      r.told_to_stop = true;
      return false;
    }
    return true;
  }
};
struct Ended
{
  bool threw = false;
  SQPStatus status = SQPStatus::kRunning;
  SQPResults res;
  Vec x;
};
const char* name(SQPStatus s)
{
  static const char* n[] = { "running", "converged", "iteration limit", "penalty limit", "time limit", "QP solver failed", "stopped by callback" };
  return n[(int)s];
}
Ended observe(Run& r, const Plan& p, TrustRegionSQPSolver& s, Problem& b)
{
  Ended e;
  g_plan = &p;
  g_run = &r;
  g_evals = 0;
  r.p = &p;
  r.s = &s;
  r.b = &b;
  s.params = p.par;
  try
  {
    b.qp->setVariables(p.x0.data());
    r.start_ns = r.last_ns = sim::steady_ns();
    s.solve(b.qp);
  }
  catch (const UserError&)
  {
    e.threw = true;
    return e;
  }
  e.status = s.getStatus();
  e.res = s.getResults();
  e.x = b.qp->getVariableValues();
  sim::log("ended: %s at%s", name(e.status), str(e.x).c_str());
  sim::event((uint64_t)e.status);
  sim::cover((std::string("status.") + name(e.status)).c_str());
  return e;
}
// what holds for every ended optimisation
void judge(Run& r, const Ended& e)
{
  const Plan& p = *r.p;
  const SQPParameters& P = p.par;
  const SQPResults& s = e.res;
  if (!same_point(e.x, point(s)))
    sim::fail("best-point", "the variables are left at%s, the best point is reported as%s", str(e.x).c_str(), str(point(s)).c_str());
  if (r.solves.empty() ? e.x != eig(p.x0) : !(same_point(e.x, r.solves.back().x) || (r.solves.back().ok && same_point(e.x, r.solves.back().cand))))
    sim::fail("step", "the optimisation ends at%s, which is neither the last point nor the answer to the last subproblem", str(e.x).c_str());
  if (!r.solves.empty() && !same_point(e.x, r.solves.back().x))
  {
    const Solve& l = r.solves.back();
    if (!(l.m1 <= l.m0 + 1e-9 * (1 + std::fabs(l.m0))))
      sim::fail("merit", "the last step was accepted although it changes the exact merit from %.17g to %.17g", l.m0, l.m1);
    ++r.accepted;
  }
  if (r.checks & TRUTH)
    check_best(r, s, "at the end");
  const Vec viol = ref_viols(p, *r.b, e.x);
  bool all = true;
  for (long i = 0; i < viol.size(); ++i)
    all = all && viol(i) < P.cnt_tolerance * (1 + 1e-9);
  if (e.status == SQPStatus::kConverged && !all)
    sim::fail("converged", "the status is converged, the violations are%s, the tolerance is %g", str(viol).c_str(), P.cnt_tolerance);
  if (e.status == SQPStatus::kRunning)
    sim::fail("status", "the optimisation ended, the status is running");
}
void judge_limits(Run& r, const Ended& e)
{
  const Plan& p = *r.p;
  const SQPParameters& P = p.par;
  if ((e.status == SQPStatus::kStoppedByCallback) != r.told_to_stop)
    sim::fail("status", r.told_to_stop ? "a callback asked to stop, the status is %s" : "no callback asked to stop, the status is %s", name(e.status));
  if (r.told_to_stop)
    return;
  // the QP solver failed and was not asked again
  bool failed = false, either = false;
  if (!r.solves.empty() && !r.solves.back().ok)
  {
    const Solve& l = r.solves.back();
    const double box = l.box.maxCoeff() * P.trust_shrink_ratio, d = box - P.min_trust_box_size;
    failed = l.fails > P.max_qp_solver_failures || (d < 0 && l.fails < P.max_qp_solver_failures) || (int)r.solves.size() < P.max_iterations;
    either = std::fabs(d) < 1e-9 * box;
    if (failed && l.fails <= P.max_qp_solver_failures && d >= 0 && !either)
      sim::fail("qp-failures", "the optimisation ends after %d failures of the QP solver and with the trust region%s; the limit is %d", l.fails, str(l.box).c_str(),
                P.max_qp_solver_failures);
  }
  if (!either && (e.status == SQPStatus::kQPSolveFailed) != failed)
    sim::fail("status", "the status is %s; the QP solver failed %d times in the last convexification, the limit is %d", name(e.status),
              r.solves.empty() ? 0 : r.solves.back().fails, P.max_qp_solver_failures);
  const double t = (double)(sim::steady_ns() - r.start_ns) * 1e-9;
  if (e.status == SQPStatus::kTimeLimit && !(t > P.max_time))
    sim::fail("status", "the status is time limit after %.6f s; the limit is %.6f s", t, P.max_time);
  if (e.status == SQPStatus::kIterationLimit && (int)r.solves.size() < P.max_iterations)
    sim::fail("status", "the status is iteration limit after %zu solves; the limit is %d", r.solves.size(), P.max_iterations);
  if (e.status == SQPStatus::kPenaltyIterationLimit && r.phases + 1 < P.max_merit_coeff_increases)
    sim::fail("status", "the status is penalty limit in phase %d; the limit is %g", r.phases + 1, P.max_merit_coeff_increases);
  const Vec viol = ref_viols(p, *r.b, e.x);
  bool all = true;
  for (long i = 0; i < viol.size(); ++i)
    all = all && viol(i) < P.cnt_tolerance * (1 - 1e-9);
  if (all && e.status != SQPStatus::kConverged && e.status != SQPStatus::kQPSolveFailed)
    sim::fail("status", "all constraints are satisfied and no callback asked to stop, the status is %s", name(e.status));
  // converged, or out of penalties, for a reason
  if (!r.solves.empty() && (e.status == SQPStatus::kPenaltyIterationLimit || e.status == SQPStatus::kConverged))
  {
    const Solve& l = r.solves.back();
    const bool moved = l.ok && same_point(e.x, l.cand);
    const bool limit = t > P.max_time || (int)r.solves.size() >= P.max_iterations;
    if (!limit && (moved ? l.cvx < 99 && !may_end(r, l) : !may_end(r, l)))
      sim::fail("status", "the status is %s; the last subproblem predicted an improvement of %.9g and the trust region was %.9g", name(e.status), l.m0 - l.ap, l.box.maxCoeff());
    if (!l.ok && !limit)
      sim::fail("status", "the status is %s although the QP solver failed", name(e.status));
  }
}

// ---- drawing -------------------------------------------------------------------------------------------------------------
void draw_set(Plan& p, int what, bool want_nan)
{
  Set s;
  s.what = what;
  s.name = (what == CONSTRAINT ? "cnt" : "cost") + std::to_string(p.sets.size());
  s.dynamic = !p.ifopt && sim::chance(1, 3, "dynamic");
  const unsigned rows = 1 + (unsigned)sim::choose(3, "rows");
  for (unsigned r = 0; r < rows; ++r)
  {
    Row w;
    w.f = draw_fn(p.n, sim::chance(1, 2, "affine"));
    if (want_nan && sim::chance(1, 4, "nan"))
      w.f.nan_above = sim::nice(-4, 8, "nan-above");
    static const double cf[] = { 1, 0.5, 2, 20 };
    w.coeff = cf[sim::choose(4, "coeff")];
    const double t = sim::nice(-2, 2, "target");
    const unsigned kind = what <= ABSOLUTE ? 0 : what == HINGE ? 1 + (unsigned)sim::choose(2, "side") : (unsigned)sim::choose(3, "side");
    w.lo = kind == 2 ? -INFINITY : t;
    w.hi = kind == 1 ? INFINITY : t;
    if (s.dynamic)
    {
      w.act = (int)sim::choose(p.n, "act");
      w.thr = sim::nice(-3, 3, "thr");
    }
    s.rows.push_back(w);
  }
  p.sets.push_back(s);
}
void draw_variables(Plan& p)
{
  p.n = 1 + (unsigned)sim::choose(4, "n");
  for (unsigned left = p.n; left;)
  {
    const unsigned k = 1 + (unsigned)sim::choose(left, "node-size");
    p.nodes.push_back(k);
    p.scalar.push_back(sim::chance(1, 2, "scalars"));
    left -= k;
  }
  for (unsigned i = 0; i < p.n; ++i)
  {
    const unsigned k = (unsigned)sim::choose(4, "bounds");
    p.lb.push_back(k == 1 || k == 3 ? -INFINITY : sim::nice(-6, 2, "lb"));
    p.ub.push_back(k == 2 || k == 3 ? INFINITY : std::max(sim::nice(-2, 6, "ub"), p.lb.back()));
    p.x0.push_back(sim::nice(-6, 6, "x0"));
  }
}
void draw_start(Plan& p)
{
  for (auto& v : p.x0)
    v = sim::nice(-6, 6, "x0");
}
Plan draw_plan(bool failures, bool ifopt_abs)
{
  Plan p;
  p.ifopt = sim::chance(1, 4, "ifopt");
  draw_variables(p);
  const bool nan = sim::chance(1, 6, "undefined");
  const unsigned nc = (unsigned)sim::choose(4, "costs"), nk = (unsigned)sim::choose(4, "constraints");
  for (unsigned i = 0; i < nc + nk || p.sets.empty(); ++i)
  {
    int what = i < nc || nk == 0 ? (int)sim::choose(3, "cost-type") : (int)CONSTRAINT;
    if (p.ifopt && what <= HINGE)
      what = ifopt_abs && what == ABSOLUTE && sim::chance(1, 4, "ifopt-abs") ? ABSOLUTE : SQUARED;
    draw_set(p, what, nan);
  }
  SQPParameters& q = p.par;
  static const double thr[] = { 0.25, 0.01, 0.9 }, mb[] = { 1e-4, 1e-2, 1e-6 }, ma[] = { 1e-4, 1e-2, 0 }, mf[] = { -1e300, 1e-3 }, sh[] = { 0.1, 0.5, 0.8 }, ex[] = { 1.5, 3, 1 },
                      ct[] = { 1e-4, 1e-2, 0.5 }, ib[] = { 0.1, 1, 10, 1e-2 }, im[] = { 10, 1, 100 }, mr[] = { 10, 2 };
  q.improve_ratio_threshold = thr[sim::choose(3, "thr")];
  q.min_trust_box_size = mb[sim::choose(3, "min-box")];
  q.min_approx_improve = ma[sim::choose(3, "min-approx")];
  q.min_approx_improve_frac = mf[sim::choose(2, "min-frac")];
  q.max_iterations = sim::chance(1, 2, "few-iterations") ? 1 + (int)sim::logchoose(60, "max-iter") : 50;
  q.trust_shrink_ratio = sh[sim::choose(3, "shrink")];
  q.trust_expand_ratio = ex[sim::choose(3, "expand")];
  q.cnt_tolerance = ct[sim::choose(3, "tol")];
  q.max_merit_coeff_increases = 1 + (double)sim::choose(5, "increases");
  q.max_qp_solver_failures = (int)sim::choose(5, "qp-failures");
  q.merit_coeff_increase_ratio = mr[sim::choose(2, "ratio")];
  q.initial_merit_error_coeff = im[sim::choose(3, "coeff0")];
  q.inflate_constraints_individually = sim::chance(1, 2, "individually");
  q.initial_trust_box_size = ib[sim::choose(4, "box0")];
  p.exact = sim::chance(1, 4, "exact");
  p.out.resize(1 + sim::logchoose(40, "outcomes"));
  const unsigned bad = failures ? (unsigned)sim::choose(4, "bad") : 0;
  for (auto& o : p.out)
  {
    if (!bad || !sim::chance(bad, bad == 3 ? 4 : 8, "odd"))
      continue;
    static const int st[] = { qpstub::PRIMAL_INFEASIBLE, qpstub::DUAL_INFEASIBLE, qpstub::GAVE_UP, qpstub::NON_CONVEX };
    if (sim::chance(1, 2, "fails"))
      o.status = st[sim::choose(4, "failure")];
    else
    {
      o.status = sim::chance(1, 4, "inaccurate") ? (int)qpstub::SOLVED_INACCURATE : (int)qpstub::SOLVED;
      o.how = 1 + (int)sim::choose(4, "how");
      o.salt = sim::choose(1 << 20, "salt");
    }
  }
  if (failures && sim::chance(1, 3, "stops"))
    p.cb_stop = 1 + (long)sim::logchoose(40, "stop-at");
  return p;
}
void draw_time(Plan& p)
{
  p.timed = true;
  p.eval_ns = sim::logchoose(1000, "eval-us") * 1000;
  p.solve_ns = sim::logchoose(1000, "solve-ms") * 1000000;
  static const unsigned j[] = { 0, 20, 200 };
  p.jumps = j[sim::choose(3, "clock-jumps")];
  if (sim::chance(3, 4, "time-limit"))
    p.par.max_time = (double)sim::logchoose(10000, "limit-ms") / 1000;
  sim::set_tick(sim::logchoose(10000, "tick"));
}
QPSolver::Ptr make_solver(const Plan& p)
{
  if (!p.osqp)
    return std::make_shared<SimQP>();
  qpstub::solver = answer;
  return std::make_shared<OSQPEigenSolver>();
}
void quiet_logs() { console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE); }
// the problem may have been left anywhere by an exception of a user's function
void recover(Plan& p, Problem& b)
{
  p.throw_at = -1;
  g_plan = &p;
  b.qp->setup();
}
}  // namespace

// ---- P08: everything the solver reports is true --------------------------------------------------------------------------------
SIM_WORLD(sqp_truth)
{
  quiet_logs();
  sim::set_step_limit(200000000);
  std::deque<Plan> plans(1, draw_plan(true, false));
  std::deque<Problem> problems;
  Plan& p = plans[0];
  if (sim::chance(1, 4, "timed"))
    draw_time(p);
  p.osqp = sim::chance(1, 4, "osqp");
  static const unsigned f[] = { 0, 50, 300 };
  p.update_fails = f[sim::choose(3, "update-fails")];
  if (p.osqp)
    qpstub::fault_rate = f[sim::choose(3, "failing-calls")];
  g_plan = &p;
  problems.push_back(build(p));
  TrustRegionSQPSolver s(make_solver(p));
  s.registerCallback(std::make_shared<Callback>());
  const unsigned calls = 1 + (unsigned)sim::choose(4, "calls");
  std::size_t at = 0;
  for (unsigned i = 0; i < calls; ++i)
  {
    if (i && sim::chance(1, 4, "other-problem"))
    {
      const std::size_t k = sim::choose(problems.size() + 1, "which");
      if (k == problems.size())
      {
        plans.push_back(draw_plan(true, false));
        Plan& q = plans.back();
        q.osqp = p.osqp;
        q.update_fails = p.update_fails;
        if (p.timed)
          draw_time(q);
        g_plan = &q;
        problems.push_back(build(q));
      }
      at = k;
    }
    Plan& p = plans[at];
    Problem& b = problems[at];
    if (i)
      draw_start(p);
    p.throw_at = sim::chance(1, 6, "throws") ? 1 + (long)sim::logchoose(300, "throw-at") : -1;
    Run r;
    r.checks = TRUTH;
    const Ended e = observe(r, p, s, b);
    sim::cover("qp_solves", r.solves.size());
    sim::cover("accepted_steps", (uint64_t)r.accepted);
    sim::cover("rejected_steps", (uint64_t)r.rejected);
    if (e.threw)
    {
      recover(p, b);
      continue;
    }
    judge(r, e);
    if (r.solves.size() > 2)
      sim::nontrivial();
  }
}

// ---- P09: it ends, and says why ---------------------------------------------------------------------------------------------
SIM_WORLD(sqp_limits)
{
  quiet_logs();
  sim::set_step_limit(200000000);
  Plan p = draw_plan(true, false);
  if (sim::chance(1, 2, "timed"))
    draw_time(p);
  g_plan = &p;
  Problem b = build(p);
  TrustRegionSQPSolver s(make_solver(p));
  s.registerCallback(std::make_shared<Callback>());
  if (sim::chance(1, 4, "two-callbacks"))
  {
    struct Other : SQPCallback
    {
      bool execute(const QPProblem&, const SQPResults&) override { return true; }
    };
    s.registerCallback(std::make_shared<Other>());
  }
  const unsigned calls = 1 + (unsigned)sim::choose(2, "calls");
  for (unsigned i = 0; i < calls; ++i)
  {
    if (i)
      draw_start(p);
    Run r;
    r.checks = LIMITS;
    const Ended e = observe(r, p, s, b);
    sim::cover("qp_solves", r.solves.size());
    judge(r, e);
    judge_limits(r, e);
    if (r.solves.size() > 1 || p.timed)
      sim::nontrivial();
  }
}

// ---- P10: the subproblems of an optimisation ----------------------------------------------------------------------------------
SIM_WORLD(sqp_steps)
{
  quiet_logs();
  sim::set_step_limit(200000000);
  Plan p = draw_plan(true, false);
  p.osqp = sim::chance(1, 4, "osqp");
  static const unsigned f[] = { 0, 50, 300 };
  p.update_fails = f[sim::choose(3, "update-fails")];
  g_plan = &p;
  Problem b = build(p);
  TrustRegionSQPSolver s(make_solver(p));
  s.registerCallback(std::make_shared<Callback>());
  const unsigned calls = 1 + (unsigned)sim::choose(3, "calls");
  for (unsigned i = 0; i < calls; ++i)
  {
    if (i)
      draw_start(p);
    p.throw_at = -1;
    if (i && sim::chance(1, 4, "other-problem"))
      b = build(p);
    p.throw_at = i + 1 < calls && sim::chance(1, 4, "throws") ? 1 + (long)sim::logchoose(200, "throw-at") : -1;
    Run r;
    r.checks = STEPS;
    const Ended e = observe(r, p, s, b);
    sim::cover("qp_solves", r.solves.size());
    sim::cover("rejected_steps", (uint64_t)r.rejected);
    if (e.threw)
    {
      recover(p, b);
      continue;
    }
    judge(r, e);
    if (r.solves.size() > 2)
      sim::nontrivial();
  }
}

// ---- P10: the subproblem after any history of calls -------------------------------------------------------------------------------
namespace
{
struct Sp
{
  Plan p;
  Problem b;
  std::size_t sets = 0;
  Vec x, mu, box, at, at_mu, box_at;  // at: where it was convexified; box_at: where the trust region was last set
  bool convex = false;
};
Vec draw_point(unsigned n)
{
  Vec x(n);
  for (unsigned i = 0; i < n; ++i)
    x(i) = sim::nice(-6, 6, "x");
  return x;
}
void check_exact(const Sp& s)
{
  compare(s.b.qp->getExactCosts(), ref_costs(s.p, s.b, s.x), 1e-11, "at the current point", "the exact cost");
  compare(s.b.qp->getExactConstraintViolations(), ref_viols(s.p, s.b, s.x), 1e-11, "at the current point", "the exact violation");
  const double t = ref_costs(s.p, s.b, s.x).sum();
  if (!same(s.b.qp->getTotalExactCost(), t, 1e-11))
    sim::fail("reported-values", "the total cost at the current point is %.17g, not %.17g", s.b.qp->getTotalExactCost(), t);
  if (!same_point(s.b.qp->getVariableValues(), s.x))
    sim::fail("best-point", "the variables are%s, they were set to%s", str(s.b.qp->getVariableValues()).c_str(), str(s.x).c_str());
  if (s.b.qp->getNumNLPVars() != (Eigen::Index)s.p.n)
    sim::fail("names", "the problem has %ld variables, not %u", (long)s.b.qp->getNumNLPVars(), s.p.n);
}
void check_convex(const Sp& s)
{
  const QPProblem& q = *s.b.qp;
  if (q.getHessian().rows() != q.getNumQPVars() || q.getHessian().cols() != q.getNumQPVars() || q.getGradient().size() != q.getNumQPVars() ||
      q.getConstraintMatrix().rows() != q.getNumQPConstraints() || q.getConstraintMatrix().cols() != q.getNumQPVars() ||
      q.getBoundsLower().size() != q.getNumQPConstraints() || q.getBoundsUpper().size() != q.getNumQPConstraints())
    sim::fail("subproblem", "matrices and vectors of the subproblem do not match its %ld variables and %ld rows", (long)q.getNumQPVars(), (long)q.getNumQPConstraints());
  const qpstub::Canon c = canon(Eigen::MatrixXd(q.getHessian()), q.getGradient(), Eigen::MatrixXd(q.getConstraintMatrix()), q.getBoundsLower(), q.getBoundsUpper());
  const Seen seen = read_sub(c, s.p.n);
  const DblVec at(s.at.data(), s.at.data() + s.at.size());
  if (affected_by_ifopt_absolute(s.p, s.sets))
  {
    const Sub right = ref_sub(s.p, s.b, s.at, s.at_mu, false);
    if (seen.s.t.size() != right.t.size())
    {
      sim::known("ifopt-absolute", "IfoptQPProblem puts an absolute cost into the subproblem as its square");
      check_sub(s.p.n, c, seen, ref_sub(s.p, s.b, s.at, s.at_mu, true), at);
    }
    else
      check_sub(s.p.n, c, seen, right, at);
  }
  else
    check_sub(s.p.n, c, seen, ref_sub(s.p, s.b, s.at, s.at_mu, false), at);
  // the trust region is the one around the current variables
  for (unsigned i = 0; i < s.p.n && same_point(s.box_at, s.at); ++i)
  {
    const double a = std::min(s.p.ub[i], std::max(s.p.lb[i], s.at(i))), l = std::max(a - s.box(i), s.p.lb[i]), u = std::min(a + s.box(i), s.p.ub[i]);
    if (!same(c.lb[i], l, 1e-12) || !same(c.ub[i], u, 1e-12))
      sim::fail("trust-region", "variable %u at %.12g with bounds [%g, %g] and trust region %.9g may move in [%.12g, %.12g]", i, s.at(i), s.p.lb[i], s.p.ub[i], s.box(i), c.lb[i],
                c.ub[i]);
  }
  if (!same_point(q.getBoxSize(), s.box) || !same_point(q.getConstraintMeritCoeff(), s.mu))
    sim::fail("trust-region", "the problem has the trust region%s and the penalties%s, it was given%s and%s", str(q.getBoxSize()).c_str(), str(q.getConstraintMeritCoeff()).c_str(),
              str(s.box).c_str(), str(s.mu).c_str());
}
void check_model(const Sp& s, const Vec& y, const char* when)
{
  Vec full = Vec::Zero(s.b.qp->getNumQPVars());
  full.head(s.p.n) = y;
  if (full.size() > (long)s.p.n && sim::chance(1, 2, "slacks"))
    for (long i = s.p.n; i < full.size(); ++i)
      full(i) = sim::nice(0, 4, "slack");
  const double t = 1e-6 * (1 + s.at.lpNorm<1>() + y.lpNorm<1>());
  compare(s.b.qp->evaluateConvexConstraintViolations(full), ref_viols(s.p, s.b, y, &s.at), t, when, "the predicted violation");
  const Vec want = ref_costs(s.p, s.b, y, &s.at);
  compare(s.b.qp->evaluateConvexCosts(full), want, t * 10, when, "the predicted cost");
  if (!same(s.b.qp->evaluateTotalConvexCost(full), want.sum(), t * 10))
    sim::fail("reported-values", "the total predicted cost is %.17g, not %.17g", s.b.qp->evaluateTotalConvexCost(full), want.sum());
}
}  // namespace
SIM_WORLD(sqp_subproblem)
{
  quiet_logs();
  sim::set_step_limit(50000000);
  Sp s;
  s.p = draw_plan(false, true);
  g_plan = &s.p;
  while (s.p.sets.size() < 7)  // some are added later
  {
    int what = (int)sim::choose(4, "what");
    if (s.p.ifopt && what <= HINGE)
      what = SQUARED;
    draw_set(s.p, what, false);
  }
  for (auto& t : s.p.sets)
    for (auto& r : t.rows)
      r.f.nan_above = INFINITY;
  s.b.vars = make_vars(s.p);
  if (s.p.ifopt)
    s.b.qp = std::make_shared<IfoptQPProblem>(s.b.vars);
  else
    s.b.qp = std::make_shared<TrajOptQPProblem>(s.b.vars);
  s.x = eig(s.p.x0).cwiseMax(eig(s.p.lb)).cwiseMin(eig(s.p.ub));
  auto setup = [&](std::size_t more) {
    for (std::size_t i = 0; i < more && s.sets < s.p.sets.size(); ++i)
      add_set(*s.b.qp, s.p.sets[s.sets++]);
    s.b.qp->setup();
    identify(s.p, s.sets, s.b);
    s.box = s.b.qp->getBoxSize();
    s.mu = s.b.qp->getConstraintMeritCoeff();
    s.convex = false;
    if (!all_same(s.box, 0.1, 0) || !all_same(s.mu, 10, 0) || s.mu.size() != (long)s.b.cnt_of.size())
      sim::fail("trust-region", "after setup the trust region is%s and the penalties are%s", str(s.box).c_str(), str(s.mu).c_str());
  };
  setup(sim::choose(5, "sets"));
  const unsigned ops = 4 + (unsigned)sim::logchoose(40, "ops");
  unsigned convexified = 0;
  for (unsigned o = 0; o < ops; ++o)
  {
    switch (sim::choose(9, "op"))
    {
      case 0:
      case 1:
      {
        s.x = draw_point(s.p.n);
        s.b.qp->setVariables(s.x.data());
        break;
      }
      case 2:
      case 3:
      {
        s.b.qp->convexify();
        s.convex = true;
        s.at = s.x;
        s.at_mu = s.mu;
        s.box_at = s.x;
        ++convexified;
        check_convex(s);
        break;
      }
      case 4:
      {
        static const double f[] = { 0.1, 1.5, 1, 7 };
        double k = f[sim::choose(4, "scale")];
        const Vec box = s.box * k;
        s.b.qp->scaleBoxSize(k);
        s.box = box;
        s.box_at = s.x;
        break;
      }
      case 5:
      {
        Vec box(s.p.n);
        for (unsigned i = 0; i < s.p.n; ++i)
          box(i) = (1 + (double)sim::choose(64, "box")) / 16;
        s.b.qp->setBoxSize(box);
        s.box = box;
        s.box_at = s.x;
        break;
      }
      case 6:
      {
        Vec mu(s.mu.size());
        for (long i = 0; i < mu.size(); ++i)
          mu(i) = (1 + (double)sim::choose(100, "mu")) / 4;
        s.b.qp->setConstraintMeritCoeff(mu);
        s.mu = mu;
        break;
      }
      case 7:
        if (sim::chance(1, 4, "setup"))
        {
          sim::cover("setup_again");
          setup(sim::choose(3, "more"));
        }
        break;
      default:
        if (s.convex)
          check_model(s, draw_point(s.p.n), "after some calls");
    }
    check_exact(s);
    // boxes follow the current point at once; everything else waits for the next convexification
    if (s.convex && same_point(s.x, s.at))
      check_convex(s);
  }
  if (convexified > 2)
    sim::nontrivial();
  sim::cover("convexifications", convexified);
}

// ---- P11: the OSQP wrapper -------------------------------------------------------------------------------------------------------
namespace
{
struct Qp
{
  Eigen::MatrixXd H, A;
  Vec g, l, u;
  bool h = false, gr = false, a = false, b = false;
};
Jacobian sparse(const Eigen::MatrixXd& m, const Eigen::MatrixXd& pattern)
{
  Jacobian j(m.rows(), m.cols());
  std::vector<Eigen::Triplet<double>> t;
  for (Eigen::Index r = 0; r < m.rows(); ++r)
    for (Eigen::Index c = 0; c < m.cols(); ++c)
      if (pattern(r, c) != 0)
        t.emplace_back((int)r, (int)c, m(r, c));
  j.setFromTriplets(t.begin(), t.end());
  return j;
}
Eigen::MatrixXd draw_pattern(Eigen::Index r, Eigen::Index c)
{
  Eigen::MatrixXd p(r, c);
  for (Eigen::Index i = 0; i < r; ++i)
    for (Eigen::Index k = 0; k < c; ++k)
      p(i, k) = sim::chance(1, 2, "entry");
  return p;
}
}  // namespace
SIM_WORLD(sqp_osqp)
{
  quiet_logs();
  sim::set_step_limit(50000000);
  qpstub::solver = qpstub::solve_by_signature;
  qpstub::sig_salt = sim::choose(3, "outcomes");
  static const unsigned f[] = { 0, 30, 150 };
  qpstub::fault_rate = f[sim::choose(3, "failing-calls")];
  OSQPEigenSolver s;
  Qp d;
  Eigen::Index n = 0, m = 0;
  Eigen::MatrixXd hp, ap;
  bool inited = false, missing = false;  // missing: an update failed and was not repeated
  unsigned solved = 0;
  auto draw_h = [&](bool same_pattern) {
    if (!same_pattern || hp.rows() != n)
    {
      hp = draw_pattern(n, n);
      hp = (hp + hp.transpose()).eval();
    }
    Eigen::MatrixXd h = Eigen::MatrixXd::Zero(n, n);
    for (Eigen::Index i = 0; i < n; ++i)
      for (Eigen::Index k = i; k < n; ++k)
        if (hp(i, k) != 0)
          h(i, k) = h(k, i) = sim::nice(-4, 4, "h");
    return h;
  };
  auto draw_a = [&](bool same_pattern) {
    if (!same_pattern || ap.rows() != m + n || ap.cols() != n)
    {
      ap = Eigen::MatrixXd::Zero(m + n, n);
      ap.topRows(m) = draw_pattern(m, n);
      ap.bottomRows(n).setIdentity();
    }
    Eigen::MatrixXd a = Eigen::MatrixXd::Zero(m + n, n);
    for (Eigen::Index i = 0; i < m; ++i)
      for (Eigen::Index k = 0; k < n; ++k)
        if (ap(i, k) != 0)
          a(i, k) = sim::nice(-4, 4, "a");
    a.bottomRows(n).setIdentity();
    return a;
  };
  auto draw_bounds = [&] {
    d.l.resize(m + n);
    d.u.resize(m + n);
    for (Eigen::Index i = 0; i < m + n; ++i)
    {
      const unsigned k = (unsigned)sim::choose(4, "bounds");
      d.l(i) = k == 1 ? -INFINITY : sim::nice(-8, 0, "l");
      d.u(i) = k == 2 ? INFINITY : k == 3 ? std::max(d.l(i), -8.0) : sim::nice(0, 8, "u");
      if (k == 3)
        d.l(i) = d.u(i);
    }
  };
  auto dims = [&] {
    n = 1 + (Eigen::Index)sim::choose(3, "n");
    m = (Eigen::Index)sim::choose(3, "m");
  };
  // one update; false: a call of the library failed and the wrapper said so
  enum { UH, UG, UA, UB };
  auto update = [&](int what, bool same_pattern) {
    const unsigned before = qpstub::api_faults;
    bool ok = false;
    switch (what)
    {
      case UH:
      {
        const Eigen::MatrixXd h = draw_h(same_pattern);
        d.H = h;
        ok = s.updateHessianMatrix(sparse(h, hp));
        d.h = ok;
        break;
      }
      case UG:
        d.g.resize(n);
        for (Eigen::Index i = 0; i < n; ++i)
          d.g(i) = sim::nice(-4, 4, "g");
        ok = s.updateGradient(d.g);
        d.gr = ok;
        break;
      case UA:
      {
        const Eigen::MatrixXd a = draw_a(same_pattern);
        d.A = a;
        ok = s.updateLinearConstraintsMatrix(sparse(a, ap));
        d.a = ok;
        break;
      }
      default:
        draw_bounds();
        ok = s.updateBounds(d.l, d.u);
        d.b = ok;
    }
    const bool fault = qpstub::api_faults != before;
    if (ok == fault)
      sim::fail("update", ok ? "an update of kind %d that failed in the solver library is reported as done" : "an update of kind %d is reported as failed", what);
    if (!ok)
      missing = true;
    sim::log("update %d: %d", what, ok);
  };
  auto rebuild = [&](bool keep) {
    if (!keep)
      dims();
    if (!s.clear())
      sim::fail("update", "clear() failed");
    if (s.getSolverStatus() != QPSolverStatus::kUninitialized)
      sim::fail("solver-status", "after clear() the status is %d", (int)s.getSolverStatus());
    if (!s.init(n, m + n))
      sim::fail("update", "init() failed");
    if (s.getSolverStatus() != QPSolverStatus::kInitialized)
      sim::fail("solver-status", "after init() the status is %d", (int)s.getSolverStatus());
    inited = true;
    missing = false;
    d = Qp();
    int order[] = { UH, UG, UA, UB };
    for (int i = 3; i > 0; --i)
      std::swap(order[i], order[sim::choose((uint64_t)i + 1, "order")]);
    for (int u : order)
      update(u, false);
  };
  const unsigned ops = 3 + (unsigned)sim::logchoose(40, "ops");
  for (unsigned o = 0; o < ops; ++o)
  {
    const unsigned k = (unsigned)sim::choose(8, "op");
    if (!inited || missing || k == 0)
    {
      rebuild(inited && sim::chance(1, 2, "same-size"));
      continue;
    }
    if (k <= 4)
    {
      update((int)k - 1, sim::chance(1, 2, "same-pattern"));
      continue;
    }
    const unsigned before = qpstub::api_faults, calls = qpstub::solves;
    const bool ok = s.solve();
    sim::log("solve: %d", ok);
    const bool fault = qpstub::api_faults != before;
    if (ok && fault && qpstub::solves == calls)
      sim::fail("solve", "a solve that failed in the solver library is reported as done");
    if ((s.getSolverStatus() == QPSolverStatus::kFailed) == ok)
      sim::fail("solver-status", ok ? "after a successful solve the status is %d" : "after a failed solve the status is %d", (int)s.getSolverStatus());
    const qpstub::Canon c = canon(d.H, d.g, d.A, d.l, d.u);
    const uint64_t sig = qpstub::signature(c);
    const int outcome = qpstub::sig_outcome(sig);
    const bool good = outcome == qpstub::SOLVED || outcome == qpstub::SOLVED_INACCURATE;
    if (ok && !good)
      sim::fail("solve", "the current problem has no solution (%d), but the wrapper reports success: %s", outcome, qpstub::show(c).c_str());
    if (!ok && good && !fault)
      sim::fail("solve", "the current problem is solvable and no call failed, but the wrapper reports failure: %s; the library was given %s", qpstub::show(c).c_str(),
                qpstub::show(qpstub::last).c_str());
    if (ok)
    {
      ++solved;
      const Vec x = s.getSolution();
      bool same = x.size() == n;
      for (Eigen::Index i = 0; same && i < n; ++i)
        same = x(i) == qpstub::sig_value(sig, (int)i);
      if (!same)
        sim::fail("solution", "the solution is not that of the current problem %s; the library was last given %s", qpstub::show(c).c_str(), qpstub::show(qpstub::last).c_str());
    }
  }
  if (solved > 1)
    sim::nontrivial();
  sim::cover("solved", solved);
}
// the warm start the wrapper gives OSQP: the current variables, and slack variables with which all rows hold
SIM_WORLD(sqp_warmstart)
{
  quiet_logs();
  sim::set_step_limit(50000000);
  qpstub::solver = qpstub::solve_by_signature;
  Plan p = draw_plan(false, false);
  for (auto& t : p.sets)
    for (auto& r : t.rows)
      r.f.nan_above = INFINITY;
  g_plan = &p;
  Problem b = build(p);
  OSQPEigenSolver s;
  const unsigned rounds = 1 + (unsigned)sim::choose(4, "rounds");
  for (unsigned k = 0; k < rounds; ++k)
  {
    const Vec x = draw_point(p.n);
    b.qp->setVariables(x.data());
    b.qp->convexify();
    s.clear();
    s.init(b.qp->getNumQPVars(), b.qp->getNumQPConstraints());
    const bool ok = s.updateHessianMatrix(b.qp->getHessian()) && s.updateGradient(b.qp->getGradient()) && s.updateLinearConstraintsMatrix(b.qp->getConstraintMatrix()) &&
                    s.updateBounds(b.qp->getBoundsLower(), b.qp->getBoundsUpper()) && s.setWarmStart(*b.qp);
    if (!ok)
      sim::fail("update", "setting up the solver failed");
    qpstub::warm.clear();
    s.solve();
    if (qpstub::warm.size() != (std::size_t)b.qp->getNumQPVars())
      sim::fail("warm-start", "OSQP is given a warm start of %zu variables", qpstub::warm.size());
    const Vec w = eig(qpstub::warm);
    if (!same_point(w.head(p.n), x))
      sim::fail("warm-start", "OSQP is given%s as a warm start, the current point is%s", str(w).c_str(), str(x).c_str());
    const Eigen::Index rows = b.qp->getNumQPConstraints() - b.qp->getNumQPVars();
    const Vec v = b.qp->getConstraintMatrix() * w;
    for (Eigen::Index i = 0; i < b.qp->getNumQPConstraints(); ++i)
    {
      if (i >= rows && i < rows + (Eigen::Index)p.n)
        continue;  // the box may not contain the current point
      const double tol = 1e-9 * (1 + std::fabs(v(i)));
      if (!(v(i) >= b.qp->getBoundsLower()(i) - tol && v(i) <= b.qp->getBoundsUpper()(i) + tol))
        sim::fail("warm-start", "at the warm start%s row %ld is %.9g, outside [%.9g, %.9g]", str(w).c_str(), (long)i, v(i), b.qp->getBoundsLower()(i), b.qp->getBoundsUpper()(i));
    }
    // no slack is larger than needed: its row would otherwise not be met, or another slack of the row is zero
    double cost = 0, need = 0;
    for (Eigen::Index i = p.n; i < w.size(); ++i)
      cost += b.qp->getGradient()(i) * w(i);
    for (auto& t : ref_sub(p, b, x, b.qp->getConstraintMeritCoeff(), false).t)
    {
      double y = t.k;
      for (unsigned i = 0; i < p.n; ++i)
        y += t.a[i] * x(i);
      need += t.type == 'a' ? std::fabs(y) : std::max(0.0, y);
    }
    if (!same(cost, need, 1e-5))
      sim::fail("warm-start", "the slack variables of the warm start cost %.9g, the penalties at the current point are %.9g", cost, need);
    if (w.size() > (long)p.n)
      sim::nontrivial();
  }
}
