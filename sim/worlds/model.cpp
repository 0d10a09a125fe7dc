// P01-P04: the model classes in front of the QP solvers, with the solver process of the BPMPD back end as a simulated
// process and the solver libraries replaced by stand-ins that record the problem they are given.
#include <rt/sim.h>
#include <qp/canon.h>
#include <trajopt_sco/solver_interface.hpp>
#include <trajopt_sco/osqp_interface.hpp>
#include <trajopt_sco/expr_ops.hpp>
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <string>
#include <vector>

int bpmpd_caller_main(int, char**);

namespace
{
using namespace sco;
struct RVar
{
  Var v;
  std::string name;
  double lb, ub;
};
struct RAff
{
  double k = 0;
  std::vector<std::pair<double, int>> t;  // coefficient, variable id
};
struct RCnt
{
  Cnt c;
  RAff e;
  bool ineq;
};
struct RQuad
{
  RAff a;
  std::vector<std::pair<double, std::pair<int, int>>> q;
};

double coef()
{
  const int k = 1 + (int)sim::choose(32, "coef");
  return (k & 1 ? 1 : -1) * ((k + 1) / 2) / 4.0;
}
double konst() { return (double)((int)sim::choose(33, "const") - 16) / 4.0 + 4.0; }

// One model and what it must contain
struct Ref
{
  ModelType::Value type;
  Model::Ptr m;
  std::map<int, RVar> vars;
  std::vector<RCnt> cnts;
  RQuad obj;
  int next = 0;
  bool single = true;  // no other thread solves

  explicit Ref(ModelType::Value t, bool update_workspace = false, bool by_name = false) : type(t)
  {
    ModelConfig::ConstPtr cfg;
    if (t == ModelType::OSQP)
    {
      auto c = std::make_shared<OSQPModelConfig>();
      c->update_workspace = update_workspace;
      cfg = c;
    }
    // the back end is asked for by its value, by its name, or by the environment
    const unsigned how = by_name ? (unsigned)sim::choose(3, "asked-for-by") : 0;
    const char* nm = t == ModelType::OSQP ? "OSQP" : t == ModelType::QPOASES ? "QPOASES" : "BPMPD";
    if (how == 1)
      m = createModel(ModelType(std::string(nm)), cfg);
    else if (how == 2)
    {
      setenv("TRAJOPT_CONVEX_SOLVER", nm, 1);
      m = createModel(ModelType::AUTO_SOLVER, cfg);
      unsetenv("TRAJOPT_CONVEX_SOLVER");
    }
    else
      m = createModel(t, cfg);
  }
  const char* name() const { return type == ModelType::OSQP ? "OSQP" : type == ModelType::QPOASES ? "qpOASES" : "BPMPD"; }
  AffExpr aff(const RAff& r) const
  {
    AffExpr e(r.k);
    for (auto& t : r.t)
    {
      e.coeffs.push_back(t.first);
      e.vars.push_back(vars.at(t.second).v);
    }
    return e;
  }
  QuadExpr quad(const RQuad& r) const
  {
    QuadExpr e(aff(r.a));
    for (auto& t : r.q)
    {
      e.coeffs.push_back(t.first);
      e.vars1.push_back(vars.at(t.second.first).v);
      e.vars2.push_back(vars.at(t.second.second).v);
    }
    return e;
  }
  int pick() const
  {
    auto it = vars.begin();
    std::advance(it, (long)sim::choose(vars.size(), "var"));
    return it->first;
  }
  RAff draw_aff(unsigned most) const
  {
    RAff r;
    r.k = sim::chance(1, 2, "constant?") ? konst() : 0;
    const unsigned n = vars.empty() ? 0 : (unsigned)sim::choose(most + 1, "terms");
    for (unsigned i = 0; i < n; ++i)
      r.t.push_back({ coef(), pick() });
    return r;
  }
  RQuad draw_quad(unsigned most) const
  {
    RQuad r;
    r.a = draw_aff(most);
    const unsigned n = vars.empty() ? 0 : (unsigned)sim::choose(most + 1, "quad-terms");
    for (unsigned i = 0; i < n; ++i)
    {
      const int a = pick();
      r.q.push_back({ coef(), { a, sim::chance(1, 2, "square") ? a : pick() } });
    }
    return r;
  }
  void bounds(double& lb, double& ub) const
  {
    const unsigned kind = (unsigned)sim::choose(5, "bounds");
    lb = -konst() - 4;
    ub = lb + konst();
    if (ub < lb)
      std::swap(lb, ub);
    if (kind == 1)
      lb = -INFINITY;
    else if (kind == 2)
      ub = INFINITY;
    else if (kind == 3)
      lb = -INFINITY, ub = INFINITY;
    else if (kind == 4)
      ub = lb;
  }
  int add_var(bool with_bounds)
  {
    const int id = next++;
    RVar r;
    r.name = "v" + std::to_string(id);
    r.lb = -INFINITY;
    r.ub = INFINITY;
    if (with_bounds)
    {
      bounds(r.lb, r.ub);
      r.v = m->addVar(r.name, r.lb, r.ub);
    }
    else
      r.v = m->addVar(r.name);
    vars[id] = r;
    return id;
  }
  void add_cnt(const RAff& e, bool ineq)
  {
    RCnt c;
    c.e = e;
    c.ineq = ineq;
    c.c = ineq ? m->addIneqCnt(aff(e), "c") : m->addEqCnt(aff(e), "c");
    cnts.push_back(c);
  }
  void set_obj(const RQuad& q)
  {
    obj = q;
    m->setObjective(quad(q));
  }

  // the order in which the model numbers its variables; checks that they are exactly the ones it must have
  std::vector<int> order(const VarVector& got) const
  {
    std::vector<int> ids;
    std::map<const VarRep*, int> by;
    for (auto& v : vars)
      by[v.second.v.var_rep.get()] = v.first;
    for (std::size_t i = 0; i < got.size(); ++i)
    {
      auto it = got[i].var_rep ? by.find(got[i].var_rep.get()) : by.end();
      if (it == by.end())
        sim::fail("variables", "%s: getVars() holds at position %zu a variable that was %s", name(), i, got[i].var_rep ? "removed" : "never added");
      if (got[i].var_rep->index != i)
        sim::fail("variables", "%s: variable %s is at position %zu but has index %zu", name(), got[i].var_rep->name.c_str(), i, got[i].var_rep->index);
      if (got[i].var_rep->name != vars.at(it->second).name)
        sim::fail("variables", "%s: variable %s is called %s", name(), vars.at(it->second).name.c_str(), got[i].var_rep->name.c_str());
      ids.push_back(it->second);
      by.erase(it);
    }
    if (!by.empty())
      sim::fail("variables", "%s: variable %s is missing from getVars()", name(), vars.at(by.begin()->second).name.c_str());
    return ids;
  }
  qpstub::Canon expected(const std::vector<int>& ids) const
  {
    qpstub::Canon c;
    c.n = (int)ids.size();
    std::map<int, int> at;
    for (auto id : ids)
    {
      at[id] = (int)c.lb.size();
      c.lb.push_back(vars.at(id).lb);
      c.ub.push_back(vars.at(id).ub);
    }
    c.lin.assign(ids.size(), 0);
    for (auto& t : obj.a.t)
      c.lin[(std::size_t)at.at(t.second)] += t.first;
    for (auto& t : obj.q)
    {
      const int a = at.at(t.second.first), b = at.at(t.second.second);
      c.quad[{ std::min(a, b), std::max(a, b) }] += t.first;
    }
    for (auto& k : cnts)
    {
      qpstub::Row r;
      for (auto& t : k.e.t)
        r.a[at.at(t.second)] += t.first;
      r.hi = -k.e.k;
      r.lo = k.ineq ? -INFINITY : r.hi;
      c.rows.push_back(r);
    }
    c.normalise();
    return c;
  }
  CvxOptStatus status_for(int outcome) const
  {
    switch (outcome)
    {
      case qpstub::SOLVED:
        return CVX_SOLVED;
      case qpstub::SOLVED_INACCURATE:
        return type == ModelType::BPMPD ? CVX_FAILED : CVX_SOLVED;
      case qpstub::PRIMAL_INFEASIBLE:
        return CVX_INFEASIBLE;
      case qpstub::DUAL_INFEASIBLE:
        return type == ModelType::QPOASES ? CVX_FAILED : CVX_INFEASIBLE;
      default:
        return CVX_FAILED;
    }
  }
  // Solve. may_fail: a failure was injected that the solve may report instead of answering.
  // Returns true when the answer was the exact one.
  bool solve(bool (*may_fail)() = nullptr)
  {
    const CvxOptStatus st = m->optimize();
    qpstub::Canon e;
    std::vector<int> ids;
    VarVector got;
    {
      sim::Quiet q;
      got = m->getVars();
      ids = order(got);
      e = expected(ids);
    }
    const uint64_t sig = qpstub::signature(e);
    const int outcome = qpstub::sig_outcome(sig);
    const bool excused = may_fail && may_fail();
    sim::event((uint64_t)st + 17);
    sim::log("%s: solve of %d variables, %zu constraints: status %d", name(), e.n, e.rows.size(), (int)st);
    if (st == CVX_FAILED && excused && status_for(outcome) != CVX_FAILED)
      return false;
    if (st != status_for(outcome))
      sim::fail("status", "%s: the solve reports %s; for the problem described by the model (%s) the solver answers outcome %d, that is %s", name(),
                st_name(st), qpstub::show(e).c_str(), outcome, st_name(status_for(outcome)));
    if (st == CVX_SOLVED)
    {
      if (single && std::string(name()) != qpstub::last_solver)
        sim::fail("other-solver", "the model was asked to use %s, but %s solved it", name(), qpstub::last_solver);
      const DblVec x = m->getVarValues(got);
      for (std::size_t i = 0; i < got.size(); ++i)
      {
        const double want = qpstub::sig_value(sig, (int)i);
        if (i >= x.size() || x[i] != want || m->getVarValue(got[i]) != want)
          sim::fail("solution", "%s: the value reported for variable %zu of %zu is not the one of the problem described by the model: %s", name(), i,
                    got.size(), qpstub::show(e).c_str());
      }
    }
    return true;
  }
  static const char* st_name(int s) { return s == CVX_SOLVED ? "SOLVED" : s == CVX_INFEASIBLE ? "INFEASIBLE" : s == CVX_FAILED ? "FAILED" : "?"; }
};

void random_problem(Ref& r, unsigned n, unsigned m, unsigned terms)
{
  for (unsigned i = 0; i < n; ++i)
    r.add_var(sim::chance(1, 2, "bounded"));
  r.m->update();
  for (unsigned i = 0; i < m; ++i)
  {
    const RAff e = r.draw_aff(terms);
    r.add_cnt(e, sim::chance(1, 2, "ineq"));
  }
  r.m->update();
  r.set_obj(r.draw_quad(terms));
}

void pipe_faults()
{
  static const unsigned caps[] = { 65536, 4096, 512, 64, 16 };
  sim::sys.pipe_cap = caps[sim::choose(5, "pipe-capacity")];
  static const unsigned r[] = { 0, 20, 200 };
  sim::sys.short_read = r[sim::choose(3, "short-reads")];
  sim::sys.eintr = r[sim::choose(3, "interrupts")];
}

// ---- P01 -------------------------------------------------------------------------------------------------------------
// rows with a coefficient for (nearly) every variable: so many elements that they do not fit in 16 bit
void dense_rows(Ref& r, unsigned m)
{
  std::vector<int> ids;
  for (auto& v : r.vars)
    ids.push_back(v.first);
  const double c = coef();
  for (unsigned k = 0; k < m; ++k)
  {
    RAff e;
    e.k = c;
    for (std::size_t i = 0; i < ids.size(); ++i)
      if ((i + k) % 61 != 0)
        e.t.push_back({ c + (double)((i * 7 + k * 13) % 32), ids[i] });
    r.add_cnt(e, k % 2 == 0);
  }
  r.m->update();
}
struct Caller
{
  bool large = false;
  bool own_ctor;
  std::unique_ptr<Ref> r;
  unsigned n, m, solves;
};
void caller(void* p)
{
  Caller& c = *(Caller*)p;
  if (!c.r)
    c.r.reset(new Ref(ModelType::BPMPD));
  c.r->single = false;
  for (unsigned s = 0; s < c.solves; ++s)
  {
    if (s == 0)
    {
      random_problem(*c.r, c.n, c.m, 4);
      if (c.large)
        dense_rows(*c.r, 240);
    }
    else if (sim::chance(1, 2, "new-objective"))
      c.r->set_obj(c.r->draw_quad(4));
    else
      c.r->add_cnt(c.r->draw_aff(3), true);
    c.r->solve();
  }
}
}  // namespace

SIM_WORLD(bpmpd_exchange)
{
  sim::set_exec(bpmpd_caller_main);
  sim::set_step_limit(20000000);
  sim::set_racecheck(true);
  pipe_faults();
  qpstub::sig_salt = sim::choose(3, "outcomes");
  const unsigned nt = 1 + (unsigned)sim::choose(3, "threads");
  std::vector<Caller> cs(nt);
  for (auto& c : cs)
  {
    c.solves = 1 + (unsigned)sim::choose(3, "solves");
    c.n = 1 + (unsigned)sim::logchoose(50, "vars");
    c.m = (unsigned)sim::logchoose(30, "cnts");
    if (sim::chance(1, 2, "model-made-before"))
      c.r.reset(new Ref(ModelType::BPMPD));
  }
  if (sim::chance(1, 400, "large"))
  {
    cs[0].n = 280 + (unsigned)sim::choose(40, "vars");
    cs[0].large = true;
    sim::sys.pipe_cap = std::max(sim::sys.pipe_cap, 4096u);
    sim::set_step_limit(400000000);
    sim::cover("large_problems");
  }
  if (nt > 1)
    sim::cover("concurrent_models");
  std::vector<int> t;
  for (unsigned i = 1; i < nt; ++i)
    t.push_back(sim::spawn(caller, &cs[i]));
  caller(&cs[0]);
  for (auto i : t)
    sim::join(i);
  if (nt > 1 || sim::sys.pipe_cap < 4096 || sim::sys.short_read || sim::sys.eintr)
    sim::nontrivial();
  if (sim::live_children() > 1)
    sim::fail("processes", "%d solver processes run for one user process", sim::live_children());
}

// ---- P02 -------------------------------------------------------------------------------------------------------------
namespace
{
unsigned faults_so_far()
{
  return sim::child_kills() + (sim::sys.fork_fail || sim::sys.exec_fail || sim::sys.pipe_fail ? 1u : 0u);
}
bool any_fault() { return faults_so_far() != 0; }
}  // namespace
SIM_WORLD(bpmpd_failure)
{
  sim::set_exec(bpmpd_caller_main);
  sim::set_step_limit(20000000);
  pipe_faults();
  static const unsigned kills[] = { 0, 500, 3000, 20000 };
  sim::sys.kill_child = kills[sim::choose(4, "kill-rate")];
  static const unsigned f[] = { 0, 0, 100, 500 };
  sim::sys.fork_fail = f[sim::choose(4, "fork-fail")];
  sim::sys.exec_fail = f[sim::choose(4, "exec-fail")];
  sim::sys.pipe_fail = f[sim::choose(4, "pipe-fail")];
  if (sim::chance(1, 8, "stdio-closed"))
    sim::close_stdio((unsigned)sim::choose(7, "closed") + 1);
  qpstub::sig_salt = sim::choose(2, "outcomes");
  {
    std::vector<std::unique_ptr<Ref>> rs;
    const unsigned nm = 1 + (unsigned)sim::choose(2, "models");
    for (unsigned i = 0; i < nm; ++i)
    {
      rs.emplace_back(new Ref(ModelType::BPMPD));
      random_problem(*rs.back(), 1 + (unsigned)sim::logchoose(30, "vars"), (unsigned)sim::logchoose(20, "cnts"), 4);
    }
    const unsigned rounds = 1 + (unsigned)sim::choose(8, "rounds");
    unsigned good = 0;
    for (unsigned i = 0; i < rounds; ++i)
    {
      if (sim::chance(1, 8, "kill-idle") && sim::total_children() > 0)
        sim::kill_child_now(sim::total_children());
      Ref& r = *rs[i % nm];
      if (sim::chance(1, 3, "change"))
        r.set_obj(r.draw_quad(4));
      if (r.solve(any_fault))
        ++good;
      if (sim::open_fds() > 4)
        sim::fail("descriptor-leak", "%d pipe descriptors are open after %u solves", sim::open_fds(), i + 1);
      if (sim::zombies() > 1 || sim::live_children() > 1)
        sim::fail("process-leak", "after %u solves %d solver processes run and %d ended ones were not waited for", i + 1, sim::live_children(), sim::zombies());
    }
    sim::quiesce();
    qpstub::sig_salt = 0;
    // the solver process can be started and lives from here on: at the latest the second attempt must give the answer
    for (auto& r : rs)
      if (!r->solve([] { return true; }) && !r->solve([] { return true; }))
        sim::fail("no-recovery", "a solve still fails although the solver process can be started and stays alive");
    for (auto& r : rs)
      r->solve();
    if (sim::child_kills() || good < rounds)
      sim::nontrivial();
    if (good < rounds)
      sim::cover("solves_reported_failed", rounds - good);
    sim::cover("solves_answered", good);
  }
  sim::end_host(!sim::chance(1, 2, "host-killed"));
}

// ---- P03 -------------------------------------------------------------------------------------------------------------
namespace
{
unsigned g_faults_before;
bool faulted() { return qpstub::api_faults != g_faults_before; }

// the same constraints from the k-th one on, with one variable or coefficient exchanged: same number of elements
void tweak_cnts(Ref& r)
{
  if (r.cnts.empty())
    return;
  const std::size_t k = (std::size_t)sim::choose(r.cnts.size(), "tweak-from");
  std::vector<RCnt> tail(r.cnts.begin() + (long)k, r.cnts.end());
  CntVector gone;
  for (auto& c : tail)
    gone.push_back(c.c);
  r.cnts.resize(k);
  r.m->removeCnts(gone);
  const std::size_t which = (std::size_t)sim::choose(tail.size(), "tweak");
  auto& t = tail[tail.size() - 1 - which].e.t;
  if (!t.empty())
  {
    auto& x = t[t.size() - 1 - (std::size_t)sim::choose(t.size(), "tweak-term")];
    if (sim::chance(1, 2, "tweak-coef"))
      x.first = coef();
    else
      x.second = r.pick();
  }
  for (auto& c : tail)
    r.add_cnt(c.e, c.ineq);
}
void tweak_obj(Ref& r)
{
  if (r.vars.empty())
    return;
  RQuad q = r.obj;
  if (!q.q.empty())
  {
    auto& x = q.q[q.q.size() - 1 - (std::size_t)sim::choose(q.q.size(), "tweak-term")];
    if (sim::chance(1, 2, "tweak-coef"))
      x.first = coef();
    else if (x.second.first == x.second.second)
      x.second.first = x.second.second = r.pick();
    else
      x.second.second = r.pick();
  }
  r.set_obj(q);
}
void remove_vars(Ref& r)
{
  const unsigned n = 1 + (unsigned)sim::choose(2, "remove-vars");
  VarVector gone;
  std::vector<int> ids;
  for (unsigned i = 0; i < n && r.vars.size() > n; ++i)  // a model without variables is not a problem
  {
    const int id = r.pick();
    if (std::find(ids.begin(), ids.end(), id) == ids.end())
      ids.push_back(id);
  }
  if (ids.empty())
    return;
  CntVector cg;
  std::vector<RCnt> keep;
  auto uses = [&](const RAff& e) {
    for (auto& t : e.t)
      if (std::find(ids.begin(), ids.end(), t.second) != ids.end())
        return true;
    return false;
  };
  for (auto& c : r.cnts)
    if (uses(c.e))
      cg.push_back(c.c);
    else
      keep.push_back(c);
  r.cnts = keep;
  if (!cg.empty())
    r.m->removeCnts(cg);
  for (auto id : ids)
    gone.push_back(r.vars.at(id).v);
  if (gone.size() == 1)
    r.m->removeVar(gone[0]);
  else
    r.m->removeVars(gone);
  for (auto id : ids)
    r.vars.erase(id);
  r.m->update();
  r.set_obj(r.draw_quad(3));
}
void edit(Ref& r)
{
  switch (sim::choose(13, "edit"))
  {
    case 0:
      r.add_var(false);
      r.m->update();
      break;
    case 1:
    {
      r.add_var(true);
      if (sim::chance(1, 3, "several"))
        r.add_var(true);
      r.m->update();
      break;
    }
    case 2:
      r.add_cnt(r.draw_aff(4), false);
      break;
    case 3:
      r.add_cnt(r.draw_aff(4), true);
      break;
    case 4:
    {
      if (r.cnts.empty())
        break;
      const std::size_t i = (std::size_t)sim::choose(r.cnts.size(), "cnt");
      r.m->removeCnt(r.cnts[i].c);
      r.cnts.erase(r.cnts.begin() + (long)i);
      break;
    }
    case 5:
    {
      CntVector gone;
      std::vector<RCnt> keep;
      for (auto& c : r.cnts)
        if (sim::chance(1, 2, "remove"))
          gone.push_back(c.c);
        else
          keep.push_back(c);
      r.cnts = keep;
      r.m->removeCnts(gone);
      break;
    }
    case 6:
      remove_vars(r);
      break;
    case 7:
    {
      if (r.vars.empty())
        break;
      auto& v = r.vars.at(r.pick());
      r.bounds(v.lb, v.ub);
      r.m->setVarBounds(v.v, v.lb, v.ub);
      break;
    }
    case 8:
    {
      VarVector vs;
      DblVec lo, hi;
      for (auto& v : r.vars)
        if (sim::chance(1, 2, "rebound"))
        {
          r.bounds(v.second.lb, v.second.ub);
          vs.push_back(v.second.v);
          lo.push_back(v.second.lb);
          hi.push_back(v.second.ub);
        }
      r.m->setVarBounds(vs, lo, hi);
      break;
    }
    case 9:
    {
      RQuad q;
      q.a = r.draw_aff(4);
      r.obj = q;
      if (sim::chance(1, 2, "affine"))
        r.m->setObjective(r.aff(q.a));
      else
        r.m->setObjective(r.quad(q));
      break;
    }
    case 10:
      r.set_obj(r.draw_quad(5));
      break;
    case 11:
      tweak_cnts(r);
      break;
    case 12:
      tweak_obj(r);
      break;
  }
  if (sim::chance(1, 4, "update"))
    r.m->update();
}
}  // namespace
static void history(ModelType::Value type)
{
  sim::set_exec(bpmpd_caller_main);
  sim::set_step_limit(20000000);
  sim::set_uafcheck(true);
  sim::set_preempt(false);
  qpstub::sig_salt = sim::choose(4, "outcomes");
  static const unsigned f[] = { 0, 0, 50, 200 };
  qpstub::fault_rate = f[sim::choose(4, "failing-calls")];
  const unsigned nm = 1 + (unsigned)sim::choose(2, "models");
  std::vector<std::unique_ptr<Ref>> rs;
  for (unsigned i = 0; i < nm; ++i)
    rs.emplace_back(new Ref(type, sim::chance(1, 2, "update-workspace"), true));
  for (auto& r : rs)
  {
    const unsigned nv = (unsigned)sim::logchoose(20, "vars");
    random_problem(*r, 1 + nv, (unsigned)sim::logchoose(12, "cnts"), 4);
  }
  const unsigned ops = (unsigned)sim::logchoose(30, "ops");
  unsigned solves = 0;
  for (unsigned i = 0; i <= ops; ++i)
  {
    Ref& r = *rs[sim::choose(nm, "model")];
    if (i && sim::chance(2, 3, "edit?"))
      edit(r);
    else
    {
      g_faults_before = qpstub::api_faults;
      r.solve(faulted);
      ++solves;
    }
  }
  sim::quiesce();
  for (auto& r : rs)
    r->solve();
  if (solves >= 2)
    sim::nontrivial();
}
SIM_WORLD(history_osqp) { history(ModelType::OSQP); }
SIM_WORLD(history_qpoases) { history(ModelType::QPOASES); }
SIM_WORLD(history_bpmpd) { history(ModelType::BPMPD); }

// ---- P04 -------------------------------------------------------------------------------------------------------------
namespace
{
struct Op
{
  int kind;  // 0 addVar, 1 addVar with bounds, 2 addEq, 3 addIneq, 4 removeVars, 5 removeCnts, 6 removeVar, 7 removeCnt
  std::string name;
  double lb, ub;
  RAff e;
  AffExpr expr;
  VarVector vs;
  CntVector cs;
  Var var;
  Cnt cnt;
};
struct Builder
{
  Model* m;
  std::vector<Op> ops;
};
void build(void* p)
{
  Builder& b = *(Builder*)p;
  for (auto& o : b.ops)
    switch (o.kind)
    {
      case 0:
        o.var = b.m->addVar(o.name);
        break;
      case 1:
        o.var = b.m->addVar(o.name, o.lb, o.ub);
        break;
      case 2:
        o.cnt = b.m->addEqCnt(o.expr, o.name);
        break;
      case 3:
        o.cnt = b.m->addIneqCnt(o.expr, o.name);
        break;
      case 4:
        b.m->removeVars(o.vs);
        break;
      case 5:
        b.m->removeCnts(o.cs);
        break;
      case 6:
        b.m->removeVar(o.vs[0]);
        break;
      case 7:
        b.m->removeCnt(o.cs[0]);
        break;
    }
}
}  // namespace
SIM_WORLD(model_concurrent)
{
  sim::set_exec(bpmpd_caller_main);
  sim::set_step_limit(20000000);
  static const ModelType::Value types[] = { ModelType::OSQP, ModelType::QPOASES, ModelType::BPMPD };
  Ref r(types[sim::choose(3, "back-end")]);
  {
    sim::Quiet q;
    random_problem(r, 2 + (unsigned)sim::choose(4, "vars"), (unsigned)sim::choose(6, "cnts"), 3);
  }
  const unsigned nt = 2 + (unsigned)sim::choose(2, "threads");
  std::vector<Builder> bs(nt);
  const int base = r.next;
  std::vector<int> spare;  // variables that nothing uses: may be removed
  {
    sim::Quiet q;
    const unsigned n = (unsigned)sim::choose(5, "spare");
    for (unsigned i = 0; i < n; ++i)
      spare.push_back(r.add_var(true));
    r.m->update();
  }
  std::vector<RCnt> cpool = r.cnts;
  std::vector<std::size_t> removed;
  std::size_t nextc = 0;
  for (unsigned t = 0; t < nt; ++t)
  {
    bs[t].m = r.m.get();
    const unsigned k = 1 + (unsigned)sim::choose(5, "calls");
    for (unsigned i = 0; i < k; ++i)
    {
      Op o;
      o.kind = (int)sim::choose(8, "call");
      o.name = "t" + std::to_string(t) + "_" + std::to_string(i);
      o.lb = -INFINITY;
      o.ub = INFINITY;
      if (o.kind == 1)
        r.bounds(o.lb, o.ub);
      if (o.kind == 2 || o.kind == 3)
      {
        do
          o.e = r.draw_aff(3);
        while (std::any_of(o.e.t.begin(), o.e.t.end(), [&](auto& x) { return x.second >= base; }));
        o.expr = r.aff(o.e);
      }
      if (o.kind == 4 || o.kind == 6)
      {
        if (spare.empty())
          continue;
        do
        {
          o.vs.push_back(r.vars.at(spare.back()).v);
          r.vars.erase(spare.back());
          spare.pop_back();
        } while (o.kind == 4 && !spare.empty() && sim::chance(1, 2, "more"));
      }
      if (o.kind == 5 || o.kind == 7)
      {
        if (nextc >= cpool.size())
          continue;
        do
          o.cs.push_back(cpool[nextc++].c);
        while (o.kind == 5 && nextc < cpool.size() && sim::chance(1, 2, "more"));
      }
      bs[t].ops.push_back(o);
    }
  }
  r.cnts.assign(cpool.begin() + (long)nextc, cpool.end());
  sim::set_racecheck(true);
  std::vector<int> ts;
  for (unsigned t = 1; t < nt; ++t)
    ts.push_back(sim::spawn(build, &bs[t]));
  build(&bs[0]);
  for (auto t : ts)
    sim::join(t);
  sim::set_racecheck(false);
  for (auto& b : bs)
    for (auto& o : b.ops)
    {
      if (o.kind <= 1)
      {
        RVar v;
        v.v = o.var;
        v.name = o.name;
        v.lb = o.lb;
        v.ub = o.ub;
        if (!v.v.var_rep)
          sim::fail("variables", "%s: addVar returned no variable", r.name());
        r.vars[r.next++] = v;
      }
      else if (o.kind <= 3)
      {
        RCnt c;
        c.c = o.cnt;
        c.e = o.e;
        c.ineq = o.kind == 3;
        r.cnts.push_back(c);
      }
    }
  r.m->update();
  r.solve();
  // and each constraint can still be removed on its own
  if (!r.cnts.empty())
  {
    const std::size_t i = (std::size_t)sim::choose(r.cnts.size(), "cnt");
    r.m->removeCnt(r.cnts[i].c);
    r.cnts.erase(r.cnts.begin() + (long)i);
    r.m->update();
    r.solve();
  }
  sim::nontrivial();
}
