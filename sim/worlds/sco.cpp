// P05-P07, P15, P17: the sequential convex optimizer with simulated OpenMP threads, clocks, log files and QP solver.
#include <rt/sim.h>
#include "sub.h"
#include <qp/canon.h>
#include <qp/qp.h>
#include <trajopt_sco/optimizers.hpp>
#include <trajopt_sco/modeling_utils.hpp>
#include <trajopt_common/logging.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace
{
using namespace sco;
using namespace sub;

// ---- the problem: functions with known values and derivatives ----------------------------------------------------------
struct Item
{
  int what = 0;  // 0-2 cost SQUARED/ABS/HINGE, 3 cost from a scalar function (diagonal Hessian), 4 full Hessian, 5 EQ, 6 INEQ
  std::vector<Fn> f;
  std::vector<double> w;  // empty: all one
  bool analytic = true;
  std::string name;
  long throw_at = -1;  // by number of its evaluations
  mutable long evals = 0;
};
struct Outcome
{
  int status = 0;  // qpstub::Outcome
  int how = 0;     // 0 solved, 1 solved badly (anywhere in the box), 2 between the two
  uint64_t salt = 0;
};
struct Plan
{
  unsigned n = 1;
  bool qpoases = false;
  std::vector<double> lb, ub, x0;
  std::vector<Item> items;
  std::vector<Fn> hard;  // affine inequalities added to the model itself
  std::vector<bool> hard_eq;
  BasicTrustRegionSQPParameters par;
  std::vector<Outcome> out;  // by number of the solve
  bool exact = false;
  // time
  bool timed = false;
  uint64_t eval_ns = 0, solve_ns = 0;
  unsigned jumps = 0;  // per 1000 evaluations
  // failures of the user's functions
  long throw_at = -1;
};

const Plan* g_plan;
long g_evals;
bool g_pure = false;  // the functions of the problem keep no count

void before_eval()
{
  if (g_pure)
    return;
  ++g_evals;
  if (g_plan->timed)
  {
    sim::advance(g_plan->eval_ns);
    if (g_plan->jumps && sim::faults_on() && sim::chance(g_plan->jumps, 1000, "clock-jump"))
    {
      const int64_t d = (int64_t)(1000000ULL << sim::choose(20, "jump-size"));
      sim::cover("fault.system_clock_jump");
      sim::jump_system(sim::chance(1, 2, "jump-back") ? -d : d);
    }
  }
  if (g_plan->throw_at >= 0 && g_evals > g_plan->throw_at)
  {
    sim::cover("fault.exception_in_cost");
    throw std::runtime_error("cost function failed");
  }
}
void evaluated(const Item& it)
{
  if (it.throw_at >= 0 && it.evals++ >= it.throw_at)
  {
    sim::cover("fault.exception_in_cost");
    throw std::runtime_error("failed: " + it.name + " " + std::to_string(it.evals));
  }
}
VectorOfVector::Ptr make_f(const Item* it)
{
  return VectorOfVector::construct([it](const Eigen::VectorXd& x) {
    before_eval();
    evaluated(*it);
    Eigen::VectorXd y((long)it->f.size());
    for (std::size_t r = 0; r < it->f.size(); ++r)
      y((long)r) = it->f[r].value(x);
    return y;
  });
}
OptProb::Ptr build(const Plan& p)
{
  auto prob = std::make_shared<OptProb>(p.qpoases ? ModelType::QPOASES : ModelType::OSQP);
  std::vector<std::string> names;
  for (unsigned i = 0; i < p.n; ++i)
    names.push_back("x" + std::to_string(i));
  const VarVector v = prob->createVariables(names, p.lb, p.ub);
  for (std::size_t h = 0; h < p.hard.size(); ++h)
  {
    AffExpr e(p.hard[h].k);
    for (unsigned i = 0; i < p.n; ++i)
      if (p.hard[h].a[i] != 0)
      {
        e.coeffs.push_back(p.hard[h].a[i]);
        e.vars.push_back(v[i]);
      }
    prob->addLinearConstraint(e, p.hard_eq[h] ? EQ : INEQ);
  }
  for (auto& it : p.items)
  {
    const Item* q = &it;
    Eigen::VectorXd w((long)it.w.size());
    for (std::size_t i = 0; i < it.w.size(); ++i)
      w((long)i) = it.w[i];
    const auto f = make_f(q);
    const auto df = MatrixOfVector::construct([q](const Eigen::VectorXd& x) {
      Eigen::MatrixXd J((long)q->f.size(), x.size());
      for (std::size_t r = 0; r < q->f.size(); ++r)
        J.row((long)r) = q->f[r].grad(x).transpose();
      return J;
    });
    if (it.what <= 2)
    {
      const PenaltyType pt = it.what == 0 ? SQUARED : it.what == 1 ? ABS : HINGE;
      if (it.analytic)
        prob->addCost(std::make_shared<CostFromErrFunc>(f, df, v, w, pt, it.name));
      else
        prob->addCost(std::make_shared<CostFromErrFunc>(f, v, w, pt, it.name));
    }
    else if (it.what <= 4)
      prob->addCost(std::make_shared<CostFromFunc>(ScalarOfVector::construct([q](const Eigen::VectorXd& x) {
                                                     before_eval();
                                                     evaluated(*q);
                                                     return q->f[0].value(x);
                                                   }),
                                                   v,
                                                   it.name,
                                                   it.what == 4));
    else
    {
      const ConstraintType ct = it.what == 5 ? EQ : INEQ;
      if (it.analytic)
        prob->addConstraint(std::make_shared<ConstraintFromErrFunc>(f, df, v, w, ct, it.name));
      else
        prob->addConstraint(std::make_shared<ConstraintFromErrFunc>(f, v, w, ct, it.name));
    }
  }
  return prob;
}

// ---- reference -----------------------------------------------------------------------------------------------------------
double weight(const Item& it, std::size_t r) { return it.w.empty() ? 1.0 : it.w[r]; }
std::vector<const Item*> costs_of(const Plan& p)
{
  std::vector<const Item*> o;
  for (auto& i : p.items)
    if (i.what <= 4)
      o.push_back(&i);
  return o;
}
std::vector<const Item*> cnts_of(const Plan& p)
{
  std::vector<const Item*> o;
  for (int w = 5; w <= 6; ++w)
    for (auto& i : p.items)
      if (i.what == w)
        o.push_back(&i);
  return o;
}
double item_value(const Item& it, const DblVec& xs)
{
  const Eigen::VectorXd x = eig(xs);
  double s = 0;
  for (std::size_t r = 0; r < it.f.size(); ++r)
  {
    const double v = it.f[r].value(x), w = weight(it, r);
    switch (it.what)
    {
      case 0:
        s += w * v * v;
        break;
      case 1:
        s += w * std::fabs(v);
        break;
      case 2:
        s += std::isnan(v) ? v : w * std::max(v, 0.0);
        break;
      case 5:
        s += std::fabs(w * v);
        break;
      case 6:
        s += std::isnan(v) ? v : std::max(w * v, 0.0);
        break;
      default:
        s += v;
    }
  }
  return s;
}
// the subproblem at x with the given penalties
Sub expected_sub(const Plan& p, const DblVec& xs, const DblVec& pen)
{
  Sub s;
  s.L.assign(p.n, 0);
  s.Q = Eigen::MatrixXd::Zero(p.n, p.n);
  const Eigen::VectorXd x = eig(xs);
  const auto cnts = cnts_of(p);
  for (std::size_t h = 0; h < p.hard.size(); ++h)
    s.t.push_back({ p.hard_eq[h] ? 'E' : 'I', p.hard[h].a, p.hard[h].k, 1e-9, 1e-9 });
  for (auto& it : p.items)
  {
    double pw = 1;
    if (it.what >= 5)
      pw = pen[(std::size_t)(std::find(cnts.begin(), cnts.end(), &it) - cnts.begin())];
    for (std::size_t r = 0; r < it.f.size(); ++r)
    {
      const Fn& f = it.f[r];
      const double y = f.value(x), w = weight(it, r) * pw;
      if (it.what == 3 || it.what == 4)
      {
        Eigen::VectorXd g = f.grad(x);
        Eigen::MatrixXd H = Eigen::MatrixXd::Zero(p.n, p.n);
        if (f.kind == 1)
          H(f.i, f.i) = std::max(0.0, 2 * f.b);
        else if (f.kind == 2)
          H(f.i, f.i) = std::max(0.0, -f.b * f.c * f.c * std::sin(f.c * x(f.i)));
        else if (f.kind == 3)
        {
          if (f.i == f.j)
            H(f.i, f.i) = std::max(0.0, 2 * f.b);
          else if (it.what == 4)
          {  // positive part of [[0,b],[b,0]]
            H(f.i, f.i) = H(f.j, f.j) = std::fabs(f.b) / 2;
            H(f.i, f.j) = H(f.j, f.i) = f.b / 2;
          }
        }
        s.Q += H / 2;
        const Eigen::VectorXd l = g - H * x;
        for (unsigned q = 0; q < p.n; ++q)
          s.L[q] += l(q);
        s.C += y - g.dot(x) + 0.5 * x.dot(H * x);
        s.tolLQ = std::max(s.tolLQ, 3e-4 * (1 + std::fabs(y) + x.lpNorm<Eigen::Infinity>() * (1 + x.lpNorm<Eigen::Infinity>())));
        continue;
      }
      if (weight(it, r) == 0)
        continue;
      const Eigen::VectorXd g = f.grad(x);
      // numeric derivatives: the step width is 1e-5
      const double k = y - g.dot(x), tol = (it.analytic ? 1e-7 : 1e-3) * (1 + g.lpNorm<Eigen::Infinity>());
      if (it.what == 0)
      {
        s.Q += w * g * g.transpose();
        for (unsigned q = 0; q < p.n; ++q)
          s.L[q] += 2 * w * k * g(q);
        s.C += w * k * k;
        s.tolLQ = std::max(s.tolLQ, 10 * tol * (1 + w) * (1 + std::fabs(k)));
        continue;
      }
      Term t{ it.what == 1 || it.what == 5 ? 'a' : 'h', {}, w * k, w * tol + 1e-9, w * tol * (1 + x.lpNorm<1>()) + 1e-9 };
      for (unsigned q = 0; q < p.n; ++q)
        t.a.push_back(w * g(q));
      s.t.push_back(t);
    }
  }
  return s;
}
// ---- one optimisation under observation -----------------------------------------------------------------------------------
enum
{
  TRUTH = 1,
  LIMITS = 2,
  STEPS = 4
};
struct Solve
{
  bool ok;
  DblVec x;       // answer for the problem's variables
  Sub sub;        // the one that was expected
  double box;
  DblVec from, pen;
  double m0 = 0, m1 = 0;
  bool precise;  // numeric derivatives are good enough there for judging the step
};
struct Step  // one callback: an iteration begins
{
  DblVec x, cost, viol;
};
struct Run
{
  const Plan* p = nullptr;
  unsigned checks = 0;
  BasicTrustRegionSQP* opt = nullptr;
  OptProb::Ptr prob;
  std::vector<Step> its;
  unsigned solves = 0, fails_here = 0, solves_here = 0, good_here = 0, phase = 0, its_in_phase = 0, max_its = 0;
  DblVec pen;
  Solve last{};
  bool muddled = false;  // derivatives were taken where a function is undefined: phases cannot be told apart
  double box = 0;      // expected size of the trust region
  uint64_t start_ns = 0;
  std::vector<uint64_t> cb_ns;
  int seen_count = -1;
  qpstub::Answer last_answer;
  int rejected = 0;
  std::vector<Solve> ok_solves;  // with the values of the candidate, for the logs
  std::vector<DblVec> base_x;
};
Run* g_run;

bool within(const Plan& p, const DblVec& v) { return std::all_of(v.begin(), v.end(), [&](double e) { return e <= p.par.cnt_tolerance; }); }
double merit_of(const Run& r, const DblVec& x)
{
  double m = 0;
  for (auto c : costs_of(*r.p))
    m += item_value(*c, x);
  const auto k = cnts_of(*r.p);
  for (std::size_t i = 0; i < k.size(); ++i)
    m += r.pen[i] * item_value(*k[i], x);
  return m;
}
void check_point(Run& r, const OptResults& s, const char* when)
{
  const auto cs = costs_of(*r.p), ks = cnts_of(*r.p);
  if (s.cost_vals.size() != cs.size() || s.cnt_viols.size() != ks.size())
    sim::fail("reported-values", "%s: %zu costs and %zu violations are reported for %zu costs and %zu constraints", when, s.cost_vals.size(), s.cnt_viols.size(),
              cs.size(), ks.size());
  for (std::size_t i = 0; i < cs.size(); ++i)
    if (!same(s.cost_vals[i], item_value(*cs[i], s.x), 1e-11))
      sim::fail("reported-values", "%s: cost %zu is reported as %.17g, at the reported point it is %.17g", when, i, s.cost_vals[i], item_value(*cs[i], s.x));
  for (std::size_t i = 0; i < ks.size(); ++i)
    if (!same(s.cnt_viols[i], item_value(*ks[i], s.x), 1e-11))
      sim::fail("reported-values", "%s: the violation of constraint %zu is reported as %.17g, at the reported point it is %.17g", when, i, s.cnt_viols[i],
                item_value(*ks[i], s.x));
}
void check_bounds(const Run& r, const DblVec& x, const char* when)
{
  for (std::size_t i = 0; i < x.size(); ++i)
    if (!(x[i] >= r.p->lb[i] && x[i] <= r.p->ub[i]))
      sim::fail("out-of-bounds", "%s: variable %zu is %.17g, its bounds are [%.17g, %.17g]", when, i, x[i], r.p->lb[i], r.p->ub[i]);
}
// What the callback at the start of an iteration (or at the end of the optimisation) sees, compared with what happened before
void callback(OptProb*, OptResults& s)
{
  sim::Quiet q;
  Run& r = *g_run;
  r.cb_ns.push_back(sim::steady_ns());
  sim::log("callback: x%s costs%s violations%s status %s", str(s.x).c_str(), str(s.cost_vals).c_str(), str(s.cnt_viols).c_str(), toString(s.status).c_str());
  if (g_plan->timed)
  {
    const uint64_t d = sim::logchoose(1000, "callback-ms") * 1000000;
    sim::advance(d);
  }
  sim::event(sim::hash_bytes(s.x.data(), s.x.size() * sizeof(double)));
  if (!r.its.empty() && (r.checks & TRUTH))
    check_point(r, s, "during the optimisation");
  if (r.checks & TRUTH)
    check_bounds(r, s.x, "during the optimisation");
  r.its.push_back({ s.x, s.cost_vals, s.cnt_viols });
}
// compares what happened in the iteration that just ended; x: the point the next one starts from. Updates phase, penalties, box
void iteration_ended(Run& r, const DblVec& from, const DblVec& to, const DblVec& viol, bool last)
{
  const BasicTrustRegionSQPParameters& P = r.p->par;
  const bool moved = from != to;
  if (moved && (r.checks & (TRUTH | STEPS)))
  {
    if (!r.last.ok || r.last.x != to)
      sim::fail("step", "the optimizer moved to%s, which is not the answer to the last subproblem", str(to).c_str());
    const double m0 = merit_of(r, from), m1 = merit_of(r, to);
    if (std::isnan(m1) || m1 > m0 + 1e-9 * (1 + std::fabs(m0)))
      sim::fail("merit", "a step was accepted that changes the exact merit from %.17g to %.17g", m0, m1);
  }
  if (r.solves_here == 0)
    return;
  if (moved)
  {
    if ((r.checks & STEPS) && !r.muddled && r.last.precise)
    {
      const double m0 = merit_of(r, from), ex = m0 - merit_of(r, to), ap = m0 - sub_value(r.last.sub, to);
      if (!std::isnan(m0) && ex < P.improve_ratio_threshold * ap - 1e-5 * (1 + std::fabs(m0)))
        sim::fail("accepted", "a step was accepted whose exact improvement %.9g is less than %g of the predicted %.9g", ex, P.improve_ratio_threshold, ap);
    }
    r.box *= P.trust_expand_ratio;
    ++r.its_in_phase;
  }
  else if (!last)
  {
    // the penalties are raised
    const auto ks = cnts_of(*r.p);
    ++r.phase;
    r.its_in_phase = 0;
    for (std::size_t i = 0; i < ks.size(); ++i)
      if (!P.inflate_constraints_individually || viol[i] > P.cnt_tolerance)
        r.pen[i] *= P.merit_coeff_increase_ratio;
    if (!r.muddled && (r.checks & TRUTH) && within(*r.p, viol))
      sim::fail("goes-on", "the optimisation goes on with higher penalties although all constraints are within the tolerance");
  }
  r.solves_here = r.good_here = r.fails_here = 0;
}
void answer_new(Run& r, const qpstub::Canon& c, qpstub::Answer& a);
void answer(const qpstub::Canon& c, qpstub::Answer& a)
{
  answer_new(*g_run, c, a);
  g_run->last_answer = a;
}
void answer_new(Run& r, const qpstub::Canon& c, qpstub::Answer& a)
{
  const Plan& p = *r.p;
  OptResults& res = r.opt->results();
  const DblVec x = res.x;
  if (r.solves && res.n_qp_solves == r.seen_count && r.base_x.size() == r.its.size())
  {
    // the back end asks a second time for the same subproblem
    a.outcome = r.last_answer.outcome;
    a.x = r.last_answer.x;
    return;
  }
  r.seen_count = res.n_qp_solves;
  if (r.its.empty())
    sim::fail("callbacks", "a subproblem is solved before the callbacks were called");
  if (r.base_x.size() < r.its.size())
  {
    // first solve of this iteration
    r.base_x.resize(r.its.size());
    if (r.its.size() > 1)
      iteration_ended(r, r.its[r.its.size() - 2].x, r.its.back().x, r.its.back().viol, false);
    if (r.box < p.par.min_trust_box_size)
      r.box = std::max(r.box, p.par.min_trust_box_size / p.par.trust_shrink_ratio * 1.5);
    else if (r.its.size() > 1 && r.its[r.its.size() - 2].x == r.its.back().x)
      r.box = std::max(r.box, p.par.min_trust_box_size / p.par.trust_shrink_ratio * 1.5);
    r.solves_here = r.good_here = r.fails_here = 0;
  }
  else if (r.last.ok)
  {
    // the last candidate was rejected
    if ((r.checks & STEPS) && !r.muddled && r.last.precise)
    {
      const double m0 = merit_of(r, x), m1 = merit_of(r, r.last.x), ap = m0 - sub_value(r.last.sub, r.last.x), ex = m0 - m1;
      const double tol = 1e-5 * (1 + std::fabs(m0));
      if (ex > p.par.improve_ratio_threshold * ap + tol && ex > tol && ap > tol)
        sim::fail("rejected", "a step was rejected whose exact improvement %.9g is more than %g of the predicted %.9g", ex, p.par.improve_ratio_threshold, ap);
      if (ap < p.par.min_approx_improve - 1e-3 * (1 + std::fabs(m0)))
        sim::fail("goes-on", "the iteration goes on although the predicted improvement was only %.9g", ap);
    }
    r.box *= p.par.trust_shrink_ratio;
    ++r.rejected;
  }
  else
    r.box = std::max(r.box * p.par.trust_shrink_ratio, p.par.min_trust_box_size);
  ++r.solves_here;
  ++r.solves;
  r.max_its = std::max(r.max_its, r.its_in_phase + 1);
  if (p.timed)
    sim::advance(p.solve_ns);
  const Seen seen = read_sub(c, p.n);
  const Sub want = expected_sub(p, x, r.pen);
  const DblVec lo(c.lb.begin(), c.lb.begin() + p.n), hi(c.ub.begin(), c.ub.begin() + p.n);
  bool undefined = std::isnan(merit_of(r, x));  // at the point itself, or where the differences are taken
  for (auto& it : p.items)
    for (auto& f : it.f)
      undefined = undefined || std::fabs(x[(std::size_t)f.i] - f.nan_above) < 1e-4;
  r.muddled = r.muddled || undefined;
  double big = 0;
  bool numeric = false;
  for (auto v : x)
    big = std::max(big, std::fabs(v));
  for (auto& it : p.items)
    numeric = numeric || !it.analytic || it.what == 3 || it.what == 4;
  r.last.precise = !undefined && !(numeric && big > 30);
  if ((r.checks & STEPS) && r.last.precise)
  {
    check_sub(p.n, c, seen, want, x);
    const bool after_fail = r.solves_here > 1 && !r.last.ok;
    for (unsigned i = 0; i < p.n; ++i)
    {
      const double a = std::max(x[i] - r.box, p.lb[i]), b = std::min(x[i] + r.box, p.ub[i]);
      if (!after_fail && (!same(lo[i], a, 1e-9) || !same(hi[i], b, 1e-9)))
        sim::fail("trust-region", "variable %u at %.12g with bounds [%g, %g] and trust region %.9g may move in [%.12g, %.12g]", i, x[i], p.lb[i], p.ub[i], r.box,
                  lo[i], hi[i]);
      if (!(lo[i] >= p.lb[i] && hi[i] <= p.ub[i]))
        sim::fail("trust-region", "variable %u may move in [%.12g, %.12g], beyond its bounds [%g, %g]", i, lo[i], hi[i], p.lb[i], p.ub[i]);
    }
  }
  r.box = r.opt->getParameters().trust_box_size;
  const Outcome& o = p.out[(r.solves - 1) % p.out.size()];
  sim::log("solve %u: iteration %zu round %u box %.9g penalties%s: answer %d.%d", r.solves, r.its.size(), r.phase, r.box, str(r.pen).c_str(), o.status, o.how);
  r.last.ok = o.status == qpstub::SOLVED || o.status == qpstub::SOLVED_INACCURATE;
  r.last.sub = want;
  r.last.box = r.box;
  a.outcome = o.status;
  a.x.assign(c.lin.size(), 0);
  if (!r.last.ok)
  {
    ++r.fails_here;
    sim::cover("fault.qp_failure");
    if (r.checks & LIMITS && (int)r.fails_here > std::max(1, p.par.max_qp_solver_failures + 1))
      sim::fail("qp-failures", "the QP solver failed %u times in one iteration; the limit is %d", r.fails_here, p.par.max_qp_solver_failures);
    for (std::size_t i = 0; i < a.x.size(); ++i)
      a.x[i] = 1e3 + (double)i;  // whatever is in there must not be used
    return;
  }
  ++r.good_here;
  DblVec y = minimise_sub(p.n, p.exact, c, seen, lo, hi);
  if (o.how)
  {
    sim::cover(o.how == 1 ? "fault.qp_bad_answer" : "fault.qp_inexact_answer");
    for (unsigned i = 0; i < p.n; ++i)
    {
      const double u = (double)(sim::mix(o.salt, i) >> 11) / 9007199254740992.0;
      const double l = std::max(lo[i], -1e3), h = std::min(hi[i], 1e3);
      const double z = l + u * (h - l);
      y[i] = o.how == 1 ? z : y[i] + 0.1 * (z - y[i]);
      y[i] = std::min(hi[i], std::max(lo[i], y[i]));
    }
  }
  for (unsigned i = 0; i < p.n; ++i)
    a.x[i] = y[i];
  for (std::size_t k = 0; k < seen.slacks.size(); ++k)
  {
    const auto& sl = seen.slacks[k];
    if (sl.empty())
      continue;
    const auto& row = c.rows[k];
    double v = 0;
    for (auto& e : row.a)
      if (e.first < (int)p.n)
        v += e.second * y[(std::size_t)e.first];
    const bool flip = row.lo != row.hi && !std::isfinite(row.hi);
    v = flip ? row.lo - v : v - row.hi;
    for (auto& q : sl)  // v + sum s*value (<)= 0
      a.x[(std::size_t)q.col] = q.s < 0 ? std::max(0.0, v) / -q.s : std::max(0.0, -v) / q.s;
  }
  r.last.x = y;
  if (r.checks & LIMITS)
  {
    unsigned lim = 3 + (unsigned)std::max(0, p.par.max_qp_solver_failures);
    for (double b = std::max(p.par.trust_box_size, 1e3); b > p.par.min_trust_box_size; b *= p.par.trust_shrink_ratio)
      ++lim;
    if (r.solves_here > lim)
      sim::fail("never-ends", "%u subproblems are solved in one iteration", r.solves_here);
  }
  r.last.from = x;
  r.last.pen = r.pen;
  r.last.m0 = merit_of(r, x);
  r.last.m1 = merit_of(r, y);
  sim::log("  candidate%s merit %.12g -> %.12g predicted %.12g", str(y).c_str(), r.last.m0, r.last.m1, sub_value(want, y));
  r.ok_solves.push_back(r.last);
}
void draw_items(Plan& p, bool want_nan)
{
  const unsigned nc = (unsigned)sim::choose(4, "costs"), nk = (unsigned)sim::choose(4, "constraints");
  for (unsigned i = 0; i < nc + nk || p.items.empty(); ++i)
  {
    Item it;
    it.what = i < nc || nk == 0 ? (int)sim::choose(5, "cost-type") : 5 + (int)sim::choose(2, "cnt-type");
    const unsigned rows = it.what == 3 || it.what == 4 ? 1 : 1 + (unsigned)sim::choose(3, "rows");
    for (unsigned r = 0; r < rows; ++r)
      it.f.push_back(draw_fn(p.n, sim::chance(1, 2, "affine")));
    if (it.what != 3 && it.what != 4)
    {
      it.analytic = sim::chance(3, 4, "analytic");
      if (sim::chance(1, 2, "weighted"))
        for (unsigned r = 0; r < rows; ++r)
          it.w.push_back((double)sim::choose(5, "weight") * 0.5);
    }
    if (want_nan && it.what != 2 && it.what != 6 && sim::chance(1, 4, "undefined"))
      it.f[0].nan_above = sim::nice(-3, 3, "undefined-above") + 0.0123456789;
    it.name = "i" + std::to_string(i);
    p.items.push_back(it);
  }
}
Plan draw_plan(bool faults)
{
  Plan p;
  p.n = 1 + (unsigned)sim::choose(4, "vars");
  p.qpoases = sim::chance(1, 3, "qpoases");
  for (unsigned i = 0; i < p.n; ++i)
  {
    const unsigned k = (unsigned)sim::choose(6, "bounds");
    double l = sim::nice(-4, 0, "lb"), u = sim::nice(0, 4, "ub");
    if (k == 1)
      l = -INFINITY;
    else if (k == 2)
      u = INFINITY;
    else if (k == 3)
      l = -INFINITY, u = INFINITY;
    else if (k == 4)
      u = l;
    else if (k == 5)
      u = l + 1e-3;
    p.lb.push_back(l);
    p.ub.push_back(u);
    p.x0.push_back(sim::nice(-6, 6, "x0"));
  }
  draw_items(p, faults && sim::chance(1, 4, "undefined-places"));
  const unsigned nh = sim::chance(1, 4, "linear") ? 1 + (unsigned)sim::choose(2, "hard") : 0;
  for (unsigned i = 0; i < nh; ++i)
  {
    Fn f = draw_fn(p.n, true);
    p.hard.push_back(f);
    p.hard_eq.push_back(sim::chance(1, 2, "hard-eq"));
  }
  auto& q = p.par;
  static const double thr[] = { 0.25, 0.1, 0.5, 0.75 }, shr[] = { 0.1, 0.5, 0.25 }, ex[] = { 1.5, 2, 1 }, bx[] = { 0.1, 1, 0.01, 2, 5e-4 };
  q.improve_ratio_threshold = thr[sim::choose(4, "threshold")];
  q.trust_shrink_ratio = shr[sim::choose(3, "shrink")];
  q.trust_expand_ratio = ex[sim::choose(3, "expand")];
  q.trust_box_size = bx[sim::choose(5, "box")];
  q.min_trust_box_size = sim::chance(1, 2, "min-box") ? 1e-4 : 1e-2;
  q.trust_box_size = std::max(q.trust_box_size, q.min_trust_box_size);
  q.min_approx_improve = sim::chance(1, 3, "min-improve") ? 1e-2 : 1e-4;
  if (sim::chance(1, 4, "improve-frac"))
    q.min_approx_improve_frac = 1e-3;
  static const int mi[] = { 10, 1, 2, 3, 50 };
  q.max_iter = mi[sim::choose(5, "max-iter")];
  q.cnt_tolerance = sim::chance(1, 2, "tolerance") ? 1e-4 : 1e-2;
  q.max_merit_coeff_increases = 1 + (double)sim::choose(4, "increases");
  q.max_qp_solver_failures = (int)sim::choose(5, "qp-failures");
  q.merit_coeff_increase_ratio = sim::chance(1, 2, "ratio") ? 10 : 2;
  q.initial_merit_error_coeff = sim::chance(1, 2, "coeff") ? 10 : 0.5;
  q.inflate_constraints_individually = sim::chance(1, 2, "individually");
  // what the QP solver does, by number of the call
  p.exact = sim::chance(1, 4, "exact-qp");
  const unsigned rate = faults ? (unsigned)sim::choose(4, "qp-fault-rate") : 0;
  const unsigned bad = faults ? (unsigned)sim::choose(3, "qp-bad-rate") : 0;
  for (int i = 0; i < 64; ++i)
  {
    Outcome o;
    static const unsigned rr[] = { 0, 8, 40, 80 };
    if (rate && sim::chance(rr[rate], 100, "qp-fails"))
    {
      static const int st[] = { qpstub::PRIMAL_INFEASIBLE, qpstub::DUAL_INFEASIBLE, qpstub::GAVE_UP };
      o.status = st[sim::choose(3, "how")];
    }
    else if (bad)
    {
      o.how = (int)sim::choose(bad == 1 ? 4 : 3, "quality");
      o.how = o.how > 2 ? 0 : o.how;
      o.salt = sim::choose(1000000, "salt");
    }
    p.out.push_back(o);
  }
  return p;
}
struct Ended
{
  OptStatus status = INVALID;
  OptResults res;
  std::vector<Step> its;
  bool threw = false;
  std::string what;
};
Ended observe(Run& r, BasicTrustRegionSQP& opt, const Plan& p, bool init)
{
  qpstub::solver = answer;
  g_plan = &p;
  g_run = &r;
  g_evals = 0;
  r.p = &p;
  r.opt = &opt;
  r.pen.assign(cnts_of(p).size(), p.par.initial_merit_error_coeff);
  r.box = opt.getParameters().trust_box_size;
  if (init)
    opt.initialize(p.x0);
  Ended e;
  r.start_ns = sim::steady_ns();
  try
  {
    e.status = opt.optimize();
  }
  catch (const std::exception& ex)
  {
    bool meant = p.throw_at >= 0;
    for (const auto& it : p.items)
      meant = meant || it.throw_at >= 0;
    e.what = ex.what();
    if (!meant)
      sim::fail("exception", "optimize() throws: %s", ex.what());
    e.threw = true;
  }
  e.res = opt.results();
  e.its = r.its;
  return e;
}
// the end of the optimisation
void judge(Run& r, const Ended& e)
{
  const Plan& p = *r.p;
  const OptResults& s = e.res;
  if (s.status != e.status)
    sim::fail("status", "optimize() returns %s, the results say %s", toString(e.status).c_str(), toString(s.status).c_str());
  sim::cover(("end." + toString(e.status)).c_str());
  if (r.checks & TRUTH)
  {
    check_point(r, s, "at the end");
    check_bounds(r, s.x, "at the end");
    double t = 0;
    for (auto v : s.cost_vals)
      t += v;
    if (!same(t, s.total_cost, 1e-12))
      sim::fail("reported-values", "the total cost is reported as %.17g, the costs add up to %.17g", s.total_cost, t);
    if (e.status == OPT_CONVERGED && !within(p, s.cnt_viols))
      sim::fail("not-converged", "converged is reported with the violations%s and tolerance %g", str(s.cnt_viols).c_str(), p.par.cnt_tolerance);
    if (e.status == INVALID)
      sim::fail("status", "the optimisation ends without a status");
  }
  // the last callback is the one of the end
  const std::size_t n = r.its.size() - 1;  // iterations
  if ((r.checks & (TRUTH | STEPS)) && n && r.base_x.size() == n)
    iteration_ended(r, r.its[n - 1].x, s.x, s.cnt_viols, true);
}
void judge_limits(Run& r, const Ended& e)
{
  const Plan& p = *r.p;
  const auto& P = p.par;
  const bool ok = within(p, e.res.cnt_viols);
  const unsigned phases = r.phase + 1, its_last = r.its_in_phase + 1;
  if (p.timed)
  {
    const double slack = 1e-3;
    for (std::size_t i = 0; i + 1 < r.cb_ns.size(); ++i)
    {
      const double t = 1e-9 * (double)(r.cb_ns[i] - r.start_ns);
      if (t > P.max_time + slack)
        sim::fail("time-limit", "iteration %zu begins %.6f s after the start; the time limit is %.6f s", i + 1, t, P.max_time);
    }
    const double t = 1e-9 * (double)(r.cb_ns.back() - r.start_ns);
    if (e.status == OPT_TIME_LIMIT && t < P.max_time - slack)
      sim::fail("time-limit", "the optimisation stops for its time limit of %.6f s after %.6f s", P.max_time, t);
  }
  else if (e.status == OPT_TIME_LIMIT)
    sim::fail("status", "the time limit is reported without one");
  const bool all_failed = r.solves > 0 && r.good_here == 0;
  if (r.muddled || std::isnan(vecSum(e.res.cost_vals) + vecSum(e.res.cnt_viols)))
    return;
  if (phases > (unsigned)std::ceil(P.max_merit_coeff_increases))
    sim::fail("penalty-limit", "the subproblem is solved with %u different sets of penalties; the limit is %g", phases, P.max_merit_coeff_increases);
  if (r.max_its > (unsigned)std::max(1, P.max_iter))
    sim::fail("iteration-limit", "%u iterations were made with the same penalties; the limit is %d", r.max_its, P.max_iter);
  switch (e.status)
  {
    case OPT_FAILED:
      if ((int)r.fails_here < std::max(1, P.max_qp_solver_failures))
        sim::fail("status", "failure is reported although the QP solver failed only %u times in the last iteration; the limit is %d", r.fails_here,
                  P.max_qp_solver_failures);
      break;
    case OPT_SCO_ITERATION_LIMIT:
      if ((int)its_last < P.max_iter)
        sim::fail("status", "the iteration limit is reported after %u iterations; it is %d", its_last, P.max_iter);
      break;
    case OPT_PENALTY_ITERATION_LIMIT:
      if (phases < (unsigned)P.max_merit_coeff_increases)
        sim::fail("status", "the penalty limit is reported after %u of %g rounds", phases, P.max_merit_coeff_increases);
      break;
    case OPT_CONVERGED:
    case OPT_TIME_LIMIT:
      break;
    default:
      sim::fail("status", "the optimisation ends with the status %s", toString(e.status).c_str());
  }
  if (ok && e.status != OPT_CONVERGED && e.status != OPT_FAILED)
    sim::fail("status", "%s is reported although all constraints are within the tolerance", toString(e.status).c_str());
  if (all_failed && e.status != OPT_FAILED)
    sim::fail("ignored-failure", "the QP solver failed %u times in the last iteration without solving a subproblem, and %s is reported", r.fails_here,
              toString(e.status).c_str());
}
}  // namespace

// ---- P06 --------------------------------------------------------------------------------------------------------------
SIM_WORLD(sco_truth)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  sim::set_step_limit(200000000);
  Plan p = draw_plan(true);
  if (sim::chance(1, 4, "time-limit"))
  {
    p.timed = true;
    p.eval_ns = sim::logchoose(1000, "eval-us") * 1000;
    p.solve_ns = sim::logchoose(1000, "solve-ms") * 1000000;
    p.par.max_time = (double)sim::logchoose(10000, "limit-ms") / 1000;
    sim::set_tick(sim::logchoose(100000, "tick"));
  }
  auto prob = build(p);
  BasicTrustRegionSQPMultiThreaded mt(prob);
  BasicTrustRegionSQP st(prob);
  BasicTrustRegionSQP& opt = p.par.num_threads ? mt : st;
  opt.addCallback(callback);
  opt.setParameters(p.par);
  const unsigned calls = 1 + (unsigned)sim::choose(3, "calls");
  for (unsigned i = 0; i < calls; ++i)
  {
    // again from a new start point, or going on from where the last optimisation ended
    const bool init = i == 0 || sim::chance(1, 2, "new-start");
    if (init && i)
      for (auto& v : p.x0)
        v = sim::nice(-6, 6, "x0");
    if (i && sim::chance(1, 2, "reset-parameters"))
      opt.setParameters(p.par);
    Run r;
    r.checks = TRUTH;
    judge(r, observe(r, opt, p, init));
    if (r.solves > 1 || p.timed)
      sim::nontrivial();
    sim::cover("qp_solves", r.solves);
  }
}

// ---- P17 --------------------------------------------------------------------------------------------------------------
SIM_WORLD(sco_steps)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  sim::set_step_limit(200000000);
  Plan p = draw_plan(true);
  auto prob = build(p);
  BasicTrustRegionSQP opt(prob);
  opt.addCallback(callback);
  opt.setParameters(p.par);
  const unsigned calls = 1 + (unsigned)sim::choose(2, "calls");
  for (unsigned i = 0; i < calls; ++i)
  {
    if (i)
    {
      for (auto& v : p.x0)
        v = sim::nice(-6, 6, "x0");
      opt.setParameters(p.par);
    }
    Run r;
    r.checks = STEPS;
    p.throw_at = i + 1 < calls && sim::chance(1, 2, "throws") ? (long)sim::logchoose(100, "throw-at") : -1;
    const Ended e = observe(r, opt, p, true);
    sim::cover("qp_solves", r.solves);
    sim::cover("rejected_steps", (uint64_t)r.rejected);
    if (e.threw)
      continue;  // the next optimisation must not find anything of this one
    judge(r, e);
    if (r.its.size() > 2)
      sim::nontrivial();
  }
}

// ---- P07 --------------------------------------------------------------------------------------------------------------
SIM_WORLD(sco_limits)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  sim::set_step_limit(200000000);
  Plan p = draw_plan(true);
  if (sim::chance(1, 2, "timed"))
  {
    p.timed = true;
    p.eval_ns = sim::logchoose(1000, "eval-us") * 1000;
    p.solve_ns = sim::logchoose(1000, "solve-ms") * 1000000;
    static const unsigned j[] = { 0, 20, 200 };
    p.jumps = j[sim::choose(3, "clock-jumps")];
    if (sim::chance(3, 4, "time-limit"))
      p.par.max_time = (double)sim::logchoose(10000, "limit-ms") / 1000;
    else
      p.par.max_time = 1e6;
    sim::set_tick(sim::logchoose(10000, "tick"));
  }
  auto prob = build(p);
  BasicTrustRegionSQP opt(prob);
  opt.addCallback(callback);
  opt.setParameters(p.par);
  Run r;
  r.checks = LIMITS;
  const Ended e = observe(r, opt, p, true);
  judge_limits(r, e);
  judge(r, e);
  if (r.solves > 1 || p.timed)
    sim::nontrivial();
  sim::cover("qp_solves", r.solves);
}

// ---- P05 --------------------------------------------------------------------------------------------------------------
namespace
{
bool bits_equal(const DblVec& a, const DblVec& b) { return a.size() == b.size() && std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0; }
void same_run(const Ended& a, const Ended& b, const char* what)
{
  if (a.its.size() != b.its.size())
    sim::fail("differs", "%s: %zu iterations instead of %zu", what, b.its.size(), a.its.size());
  for (std::size_t i = 0; i < a.its.size(); ++i)
    if (!bits_equal(a.its[i].x, b.its[i].x) || !bits_equal(a.its[i].cost, b.its[i].cost) || !bits_equal(a.its[i].viol, b.its[i].viol))
      sim::fail("differs", "%s: iteration %zu starts from x%s costs%s violations%s instead of x%s costs%s violations%s", what, i, str(b.its[i].x).c_str(),
                str(b.its[i].cost).c_str(), str(b.its[i].viol).c_str(), str(a.its[i].x).c_str(), str(a.its[i].cost).c_str(), str(a.its[i].viol).c_str());
  if (a.status != b.status || a.res.n_func_evals != b.res.n_func_evals || a.res.n_qp_solves != b.res.n_qp_solves || !bits_equal(a.res.x, b.res.x) ||
      !bits_equal(a.res.cost_vals, b.res.cost_vals) || !bits_equal(a.res.cnt_viols, b.res.cnt_viols) || a.res.total_cost != b.res.total_cost)
    if (!(std::isnan(a.res.total_cost) && std::isnan(b.res.total_cost)))
      sim::fail("differs", "%s: the result is %s (%d evaluations, %d solves) at%s instead of %s (%d, %d) at%s", what, toString(b.status).c_str(),
                b.res.n_func_evals, b.res.n_qp_solves, str(b.res.x).c_str(), toString(a.status).c_str(), a.res.n_func_evals, a.res.n_qp_solves,
                str(a.res.x).c_str());
}
std::string file_text(const std::string& path, int* count = nullptr)
{
  std::string out;
  for (int i = 0; i < sim::files_total(); ++i)
    if (path == sim::file_path(i))
    {
      std::size_t n = 0;
      const char* d = sim::file_data(i, &n);
      out = d ? std::string(d, n) : std::string();
      if (count)
        ++*count;
    }
  return out;
}
}  // namespace
SIM_WORLD(sco_parallel)
{
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  sim::set_step_limit(200000000);
  sim::set_racecheck(true);
  g_pure = true;
  Plan p = draw_plan(true);
  while (p.items.size() < 3)
    draw_items(p, false);
  p.par.max_iter = std::min(p.par.max_iter, 4);
  const unsigned threads = (unsigned)sim::choose(5, "threads");
  if (sim::chance(1, 3, "throws"))
    for (int k = 1 + (int)sim::choose(3, "throwing"); k > 0; --k)
      p.items[sim::choose(p.items.size(), "item")].throw_at = (long)sim::logchoose(60, "throw-at");
  const bool logs = sim::chance(1, 4, "logs");
  Plan pa = p, pb = p;
  pa.par.log_results = pb.par.log_results = logs;
  pa.par.log_dir = "/a";
  pb.par.log_dir = "/b";
  pb.par.num_threads = (int)threads;
  Ended a, b;
  {
    auto prob = build(pa);
    BasicTrustRegionSQP opt(prob);
    opt.addCallback(callback);
    opt.setParameters(pa.par);
    Run r;
    a = observe(r, opt, pa, true);
  }
  {
    auto prob = build(pb);
    BasicTrustRegionSQPMultiThreaded opt(prob);
    opt.addCallback(callback);
    opt.setParameters(pb.par);
    Run r;
    b = observe(r, opt, pb, true);
  }
  sim::Quiet q;
  if (a.threw != b.threw || a.what != b.what)
    sim::fail("exception", "evaluated in parallel, optimize() throws '%s', not '%s'", b.what.c_str(), a.what.c_str());
  same_run(a, b, "evaluated in parallel");
  if (logs)
    for (const char* f : { "/trajopt_solver.log", "/trajopt_vars.log", "/trajopt_costs.log", "/trajopt_constraints.log" })
      if (file_text(std::string("/a") + f) != file_text(std::string("/b") + f))
        sim::fail("differs", "evaluated in parallel: %s is not the one of the serial optimisation", f + 1);
  if (threads != 1)
    sim::nontrivial();
}

// ---- P15 --------------------------------------------------------------------------------------------------------------
namespace
{
std::vector<std::string> lines(const std::string& s)
{
  std::vector<std::string> v;
  std::istringstream in(s);
  std::string l;
  while (std::getline(in, l))
    v.push_back(l);
  return v;
}
std::vector<std::string> fields(const std::string& s)
{
  std::vector<std::string> v;
  std::string f;
  for (char c : s)
    if (c == ',')
    {
      v.push_back(f);
      f.clear();
    }
    else
      f += c;
  v.push_back(f);
  return v;
}
bool reads(const std::string& f, double v, double tol)
{
  char* end = nullptr;
  const double d = strtod(f.c_str(), &end);
  return end != f.c_str() && same(d, v, tol);
}
// header lines once, then one line per evaluated step
void check_log(const Run& r, const std::string& path, const char* what, const std::string& text, unsigned headers, unsigned per, const std::vector<std::string>& names)
{
  if (!text.empty() && text.back() != '\n')
    sim::fail("log", "%s ends within a line", path.c_str());
  const auto ls = lines(text);
  const std::size_t n = r.ok_solves.size();
  if (ls.size() != (n ? headers + n : 0))
    sim::fail("log", "%s has %zu lines; %zu steps were evaluated", path.c_str(), ls.size(), n);
  for (std::size_t i = 0; i < ls.size(); ++i)
  {
    const auto f = fields(ls[i]);
    if (i >= headers && f[0] != what)
      sim::fail("log", "line %zu of %s starts with %s, not with %s", i + 1, path.c_str(), f[0].c_str(), what);
    if (f.size() != 1 + per * names.size())
      sim::fail("log", "line %zu of %s has %zu fields", i + 1, path.c_str(), f.size());
    if (i == 0 && strcmp(what, "Solver") != 0)
      for (std::size_t k = 0; k < names.size(); ++k)
        if (f[1 + per * k] != names[k])
          sim::fail("log", "the header of %s has %s instead of %s", path.c_str(), f[1 + per * k].c_str(), names[k].c_str());
  }
}
}  // namespace
SIM_WORLD(sco_logs)
{
  sim::set_step_limit(200000000);
  Plan p = draw_plan(true);
  static const unsigned fr[] = { 0, 100, 400, 1000 };
  sim::files.open_fail = fr[sim::choose(4, "open-fails")];
  sim::files.write_fail = fr[sim::choose(4, "disk-full")];
  const bool by_level = sim::chance(1, 32, "by-log-level");
  if (sim::chance(1, 4, "throws"))
    p.throw_at = (long)sim::logchoose(200, "throw-at");
  Ended a, b;
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  {
    auto prob = build(p);
    BasicTrustRegionSQP opt(prob);
    opt.addCallback(callback);
    opt.setParameters(p.par);
    Run r;
    a = observe(r, opt, p, true);
  }
  Plan q = p;
  q.par.log_dir = sim::chance(1, 2, "dir") ? "/logs" : ".";
  if (by_level)
    trajopt_common::gLogLevel = trajopt_common::LevelDebug;
  else
    q.par.log_results = true;
  {
    auto prob = build(q);
    BasicTrustRegionSQP opt(prob);
    opt.addCallback(callback);
    opt.setParameters(q.par);
    if (sim::chance(1, 16, "not-initialised"))
    {
      try
      {
        opt.optimize();
        sim::fail("no-exception", "optimize() without a start point returns");
      }
      catch (const std::exception&)
      {
      }
      if (sim::files_open() != 0)
        sim::fail("log-left-open", "%d log files are still open after optimize() has thrown", sim::files_open());
    }
    const int before = sim::files_total();
    Run r;
    b = observe(r, opt, q, true);
    sim::Quiet quiet;
    if (sim::files_open() != 0)
      sim::fail("log-left-open", "%d log files are still open after optimize() has %s", sim::files_open(), b.threw ? "thrown" : "returned");
    if (a.threw != b.threw)
      sim::fail("differs", "with logs optimize() %s", b.threw ? "throws" : "does not throw");
    if (!b.threw)
      same_run(a, b, "with logs");
    std::vector<std::string> vn, cn, kn;
    for (unsigned i = 0; i < p.n; ++i)
      vn.push_back("x" + std::to_string(i));
    for (auto c : costs_of(q))
      cn.push_back(c->name);
    for (auto c : cnts_of(q))
      kn.push_back(c->name);
    int seen = 0;
    for (int i = before; i < sim::files_total(); ++i)
    {
      ++seen;
      if (sim::file_full(i) || b.threw)
        continue;
      std::size_t n = 0;
      const char* d = sim::file_data(i, &n);
      const std::string t = d ? std::string(d, n) : std::string(), path = sim::file_path(i), dir = q.par.log_dir;
      if (path == dir + "/trajopt_vars.log")
      {
        check_log(r, path, "VALUES", t, 1, 1, vn);
        const auto ls = lines(t);
        for (std::size_t k = 0; k < r.ok_solves.size(); ++k)
        {
          const auto f = fields(ls[k + 1]);
          for (unsigned v = 0; v < p.n; ++v)
            if (!reads(f[v + 1], r.ok_solves[k].x[v], 2e-6))
              sim::fail("log", "line %zu of %s has %s for variable %u, which was %.9g", k + 2, path.c_str(), f[v + 1].c_str(), v, r.ok_solves[k].x[v]);
        }
      }
      else if (path == dir + "/trajopt_costs.log")
      {
        check_log(r, path, "COSTS", t, 2, 4, cn);
        const auto ls = lines(t);
        for (std::size_t k = 0; k < r.ok_solves.size(); ++k)
        {
          const auto f = fields(ls[k + 2]);
          for (std::size_t v = 0; v < cn.size(); ++v)
          {
            const double o = item_value(*costs_of(q)[v], r.ok_solves[k].from), nw = item_value(*costs_of(q)[v], r.ok_solves[k].x);
            if (!reads(f[1 + 4 * v], o, 2e-6) || !reads(f[3 + 4 * v], o - nw, 1e-5 * (1 + std::fabs(o))))
              sim::fail("log", "line %zu of %s has %s, %s for cost %zu, which was %.9g before and %.9g after the step", k + 3, path.c_str(), f[1 + 4 * v].c_str(),
                        f[3 + 4 * v].c_str(), v, o, nw);
          }
        }
      }
      else if (path == dir + "/trajopt_constraints.log")
      {
        check_log(r, path, "CONSTRAINTS", t, 2, 4, kn);
        const auto ls = lines(t);
        for (std::size_t k = 0; k < r.ok_solves.size(); ++k)
        {
          const auto f = fields(ls[k + 2]);
          for (std::size_t v = 0; v < kn.size(); ++v)
          {
            const double c = r.ok_solves[k].pen[v];
            const double o = c * item_value(*cnts_of(q)[v], r.ok_solves[k].from), nw = c * item_value(*cnts_of(q)[v], r.ok_solves[k].x);
            if (!reads(f[1 + 4 * v], o, 2e-6) || !reads(f[3 + 4 * v], o - nw, 1e-5 * (1 + std::fabs(o))))
              sim::fail("log", "line %zu of %s has %s, %s for constraint %zu, which was %.9g before and %.9g after the step", k + 3, path.c_str(),
                        f[1 + 4 * v].c_str(), f[3 + 4 * v].c_str(), v, o, nw);
          }
        }
      }
      else if (path == dir + "/trajopt_solver.log")
      {
        check_log(r, path, "Solver", t, 1, 1, { "", "", "", "", "" });
        const auto ls = lines(t);
        for (std::size_t k = 0; k < r.ok_solves.size(); ++k)
        {
          const auto f = fields(ls[k + 1]);
          const double o = r.ok_solves[k].m0, nw = r.ok_solves[k].m1;
          if (!reads(f[1], o, 1e-3) || !reads(f[2], nw, 1e-3) || !reads(f[4], o - nw, 1e-3 * (1 + std::fabs(o))))
            sim::fail("log", "line %zu of %s is %s; the merit was %.9g before and %.9g after the step", k + 2, path.c_str(), ls[k + 1].c_str(), o, nw);
        }
      }
      else
        sim::fail("log", "a file %s is opened", path.c_str());
    }
    sim::cover("log_files_checked", (uint64_t)seen);
    if (seen != 4 || sim::files.write_fail || b.threw)
      sim::nontrivial();
  }
}
