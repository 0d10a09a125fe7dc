// P21: collision terms of trajopt (sco), described as structures or JSON and hatched into a problem, over the stand-in for Tesseract
// (spheres; exact distances and derivatives). Values and convex approximations at sequences of trajectories, with revisits, failing
// contact checks, kinematics and allocations, in one or two simulated threads, against the contacts computed afresh from the
// definition.
#include <trajopt/collision_terms.hpp>
#include <trajopt/problem_description.hpp>
#include <trajopt/utils.hpp>
#include <trajopt_sco/optimizers.hpp>
#include <qp/canon.h>
#include <algorithm>
#include "traj_util.hpp"

using namespace trajopt;
namespace
{
struct Desc  // a collision term, as described
{
  bool cost = true;
  std::string name;
  Settings s;
  int first = 0, last = 0;
  std::vector<int> fixed;
};
struct One  // what it stands for at a step, or between two steps
{
  std::string name;
  const Desc* d;
  int step;
  bool two, fixed0, fixed1;
};
struct Case
{
  bool json = false, reject = false;
  const char* why = "";
  int n = 0, dof = 0;
  Json::Value root;
  std::shared_ptr<ProblemConstructionInfo> pci;
  std::vector<std::unique_ptr<Desc>> descs;
  std::vector<One> costs, ineqs;
};
void refuse(Case& c, const char* why)
{
  if (!c.reject)
    c.reject = true, c.why = why;
}
const CollisionEvaluatorType kinds[4] = { CollisionEvaluatorType::DISCRETE, CollisionEvaluatorType::LVS_DISCRETE, CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS };
const char* kind_name(CollisionEvaluatorType t) { return t == kinds[0] ? "discrete" : t == kinds[1] ? "LVS discrete" : t == kinds[2] ? "continuous" : "LVS continuous"; }
bool prismatic()
{
  for (auto& j : world.scene->joints)
    if (j.revolute)
      return false;
  return true;
}
Json::Value draw_json(Desc& d, CollisionEvaluatorType type, int n)
{
  Settings& s = d.s;
  Json::Value p;
  s.type = type;
  s.margin = sim::real(-0.1, 0.5, "margin"), s.coeff = sim::real(0.5, 20, "coeff");
  p["dist_pen"] = s.margin, p["coeffs"] = s.coeff;
  s.closest = false, s.dynamic = false;
  if (world.scene->live)
    s.made = *world.scene->live;
  if (sim::chance(1, 2, "contact-type"))
  {
    s.closest = sim::chance(1, 2, "closest");
    p["contact_test_type"] = s.closest ? 1 : 2;
  }
  s.lvs = 0.5;
  if (sim::chance(2, 3, "segment-given"))
    p["longest_valid_segment_length"] = s.lvs = sim::real(0.15, 1, "segment");
  s.buffer = 0.5;
  if (sim::chance(2, 3, "buffer-given"))
    p["safety_margin_buffer"] = s.buffer = sim::chance(1, 8, "no-buffer") ? 0 : sim::real(0.01, 0.3, "buffer");
  const int number = type == kinds[0] ? 1 : type == kinds[1] ? 2 : type == kinds[2] ? 3 : 4;
  if (number != 1 || sim::chance(1, 2, "type-given"))
    p["evaluator_type"] = number;
  if (d.first != 0 || sim::chance(1, 2, "first-given"))
    p["first_step"] = d.first;
  if (d.last != n - 1 || sim::chance(1, 2, "last-given"))
    p["last_step"] = d.last;
  if (!d.fixed.empty())
    p["fixed_steps"] = arr(d.fixed);
  const auto& links = world.scene->links;
  for (int i = (int)sim::choose(3, "pairs"); i > 0; --i)
  {
    Json::Value e;
    const std::string a = links[sim::choose(links.size(), "a")].name;
    const double m = sim::real(-0.1, 0.6, "pair-margin"), k = sim::chance(1, 3, "zero") ? 0 : sim::real(0.5, 20, "pair-coeff");
    e["link"] = a, e["dist_pen"] = m, e["coeffs"] = k;
    for (int j = 1 + (int)sim::choose(2, "others"); j > 0; --j)
    {
      const std::string b = links[sim::choose(links.size(), "b")].name;
      e["pair"].append(b);
      s.margins.emplace_back(a, b, m), s.coeffs.emplace_back(a, b, k);
    }
    p["pairs"].append(e);
  }
  return p;
}
void spoil(Case& c, Json::Value& p, const Desc& d)
{
  switch (sim::choose(11, "flaw"))
  {
    case 0: p["evaluator_type"] = 5; refuse(c, "an unknown type of collision check"); break;
    case 1: p["first_step"] = -1; refuse(c, "a first step before the trajectory"); break;
    case 2: p["last_step"] = c.n + (int)sim::choose(2, "past"); refuse(c, "a last step past the trajectory"); break;
    case 3:
      if (d.first == 0)
        return;
      p["first_step"] = d.first, p["last_step"] = d.first - 1;
      refuse(c, "a last step before the first");
      break;
    case 4: p["fixed_steps"] = arr(std::vector<int>{ sim::chance(1, 2, "before") ? d.first - 1 : d.last + 1 }); refuse(c, "a fixed step that the term does not cover"); break;
    case 5: p["safety_margin_buffer"] = -0.1; refuse(c, "a negative buffer"); break;
    case 6: p["longest_valid_segment_length"] = -0.1; refuse(c, "a negative segment length"); break;
    case 7: p["contact_test_type"] = sim::chance(1, 2, "negative") ? -1 : 3; refuse(c, "an unknown type of contact test"); break;
    case 8: p["margin"] = 0.1; refuse(c, "a parameter that does not exist"); break;
    case 9:
    case 10:
    {
      Json::Value e;
      e["coeffs"] = 1.0, e["dist_pen"] = 0.1;
      e["link"] = world.scene->links[0].name;
      e["pair"] = Json::Value(Json::arrayValue);
      if (sim::chance(1, 2, "no-link"))
        e["pair"].append(world.scene->links[0].name), e.removeMember("link");
      p["pairs"].append(e);
      refuse(c, "a pair without its links");
    }
  }
}
void draw_term(Case& c, int i)
{
  auto d = std::make_unique<Desc>();
  d->cost = sim::chance(1, 2, "cost");
  const CollisionEvaluatorType type = kinds[sim::choose(4, "type")];
  const bool two = type != CollisionEvaluatorType::DISCRETE;
  d->first = 0, d->last = c.n - 1;
  if (sim::chance(1, 2, "range"))
    d->first = (int)sim::choose((uint64_t)c.n, "first"), d->last = d->first + (int)sim::choose((uint64_t)(c.n - d->first), "last");
  for (int k = d->first; k <= d->last; ++k)
    if (sim::chance(1, 4, "fixed") && !(two && !d->fixed.empty() && d->fixed.back() == k - 1))
      d->fixed.push_back(k);
  if (d->fixed.size() > 1 && sim::chance(1, 2, "unordered"))
    std::swap(d->fixed.front(), d->fixed.back());
  d->name = sim::chance(1, 3, "unnamed") && c.json ? "" : i % 2 ? "keep clear" : "c";
  if (c.json)
  {
    Json::Value t;
    t["type"] = "collision";
    if (!d->name.empty())
      t["name"] = d->name;
    else
      d->name = "collision";
    t["params"] = draw_json(*d, type, c.n);
    if (sim::chance(1, 24, "spoil"))
      spoil(c, t["params"], *d);
    c.root[d->cost ? "costs" : "constraints"].append(t);
  }
  else
  {
    d->s = draw_settings(type);
    d->s.dynamic = false;  // terms that are described never are
    auto info = std::make_shared<CollisionTermInfo>();
    info->name = d->name;
    info->term_type = d->cost ? TermType::TT_COST : TermType::TT_CNT;
    info->first_step = d->first, info->last_step = d->last, info->fixed_steps = d->fixed;
    info->config = d->s.config;
    (d->cost ? c.pci->cost_infos : c.pci->cnt_infos).push_back(info);
  }
  auto in = [&](int k) { return std::find(d->fixed.begin(), d->fixed.end(), k) != d->fixed.end(); };
  auto& list = d->cost ? c.costs : c.ineqs;
  for (int k = d->first; k <= d->last - (two ? 1 : 0); ++k)
    if (two || !in(k))
      list.push_back({ d->name + "_" + std::to_string(k), d.get(), k, two, two && in(k), two && in(k + 1) });
  c.descs.push_back(std::move(d));
}
Case draw_case()
{
  Case c;
  c.json = sim::chance(1, 2, "json");
  c.n = 1 + (int)sim::choose(5, "steps");
  c.dof = (int)world.dof;
  const bool qpoases = sim::chance(1, 2, "qpoases");
  if (c.json)
  {
    c.root["basic_info"]["n_steps"] = c.n;
    c.root["basic_info"]["manip"] = "manip";
    c.root["basic_info"]["convex_solver"] = qpoases ? "QPOASES" : "OSQP";
    c.root["init_info"]["type"] = "stationary";
  }
  else
  {
    c.pci = std::make_shared<ProblemConstructionInfo>(world.env);
    c.pci->basic_info.n_steps = c.n, c.pci->basic_info.manip = "manip";
    c.pci->basic_info.convex_solver = qpoases ? sco::ModelType::QPOASES : sco::ModelType::OSQP;
    c.pci->kin = world.manip;
    c.pci->init_info.type = InitInfo::STATIONARY;
  }
  for (int i = 1 + (int)sim::choose(3, "terms"); i > 0; --i)
    draw_term(c, i);
  return c;
}
TrajOptProb::Ptr construct(Case& c)
{
  TrajOptProb::Ptr p;
  try
  {
    p = c.json ? ConstructProblem(c.root, world.env) : ConstructProblem(*c.pci);
  }
  catch (const std::exception& e)
  {
    if (!c.reject)
      sim::fail("refused", "a sound description is refused: %s", e.what());
  }
  if (c.reject)
  {
    if (p)
      sim::fail("accepted", "a description with %s is accepted", c.why);
    sim::cover("op.rejected");
    return nullptr;
  }
  if (p->getCosts().size() != c.costs.size() || p->getIneqConstraints().size() != c.ineqs.size() || !p->getEqConstraints().empty())
    sim::fail("terms", "%zu costs, %zu inequality and %zu equality constraints, where %zu, %zu and none are described", p->getCosts().size(), p->getIneqConstraints().size(), p->getEqConstraints().size(), c.costs.size(),
              c.ineqs.size());
  for (size_t k = 0; k < c.costs.size(); ++k)
    if (p->getCosts()[k]->name() != c.costs[k].name)
      sim::fail("names", "a cost is called '%s', not '%s'", p->getCosts()[k]->name().c_str(), c.costs[k].name.c_str());
  for (size_t k = 0; k < c.ineqs.size(); ++k)
    if (p->getIneqConstraints()[k]->name() != c.ineqs[k].name)
      sim::fail("names", "a constraint is called '%s', not '%s'", p->getIneqConstraints()[k]->name().c_str(), c.ineqs[k].name.c_str());
  return p;
}

// ---- a term at a trajectory -----------------------------------------------------------------------------------------
VectorXd state(const Case& c, const VectorXd& x, int i) { return x.segment((Idx)i * c.dof, c.dof); }
struct Rows  // the contacts that count, and what the error of each is by the approximation made at x
{
  Found f;
  std::vector<double> coeff;
  bool sloped = true;  // are the derivatives settled?
};
Rows rows_of(const Case& c, const One& t, const VectorXd& x)
{
  Rows r;
  const VectorXd q0 = state(c, x, t.step), q1 = t.two ? state(c, x, t.step + 1) : q0;
  r.f = find_contacts(t.d->s, q0, q1, t.fixed0, t.fixed1, 1e-9);
  for (const auto& k : r.f.contacts)
  {
    r.coeff.push_back(t.d->s.coeff_of(std::get<0>(k.key), std::get<1>(k.key)));
    if (t.two && k.type == 2 && !prismatic())
      r.sloped = false;  // between the states, the derivative of the state at the end stands for that of the contact
  }
  return r;
}
double approx(const Case& c, const One& t, const Contact& k, const VectorXd& x, const VectorXd& y)
{
  double e = k.err;
  for (int side = 0; side < (t.two ? 2 : 1); ++side)
  {
    if (side ? t.fixed1 : t.fixed0)
      continue;
    const VectorXd step = state(c, y, t.step + side) - state(c, x, t.step + side);
    for (const auto& g : k.g)
      e += (!t.two ? 1.0 : side ? k.s : 1 - k.s) * g.dot(step);
  }
  return e;
}
void check_rows(const One& t, const char* what, std::vector<VectorXd> have, std::vector<VectorXd> want, double tol)
{
  if (have.size() != want.size())
    sim::fail(what, "%s, '%s': %zu rows for %zu contacts", kind_name(t.d->s.type), t.name.c_str(), have.size(), want.size());
  for (auto& w : want)
  {
    size_t best = 0;
    double least = INFINITY;
    for (size_t h = 0; h < have.size(); ++h)
    {
      double d = 0;
      for (Idx k = 0; k < w.size(); ++k)
        d = std::max(d, std::abs(have[h][k] - w[k]) / (tol * (1 + std::abs(w[k]))));
      if (!(d >= least))
        least = d, best = h;
    }
    if (!(least <= 1))
      sim::fail(what, "%s, '%s': no row has the value %.9g (nearest %.9g, %.9g), %s", kind_name(t.d->s.type), t.name.c_str(), w[0], have.empty() ? 0.0 : have[best][0], w.size() > 1 ? have[best][1] : 0.0,
                std::abs(have[best][0] - w[0]) <= tol * (1 + std::abs(w[0])) ? "away from where it was made" : "where it was made");
    have.erase(have.begin() + (long)best);
  }
}
std::vector<VectorXd> places(const VectorXd& x)
{
  std::vector<VectorXd> ys{ x };
  for (int k = 0; k < 2; ++k)
  {
    VectorXd y = x;
    for (Idx i = 0; i < y.size(); ++i)
      y[i] += sim::real(-0.5, 0.5, "away");
    ys.push_back(y);
  }
  return ys;
}
Dbl plain(const VectorXd& v) { return Dbl(v.data(), v.data() + v.size()); }
void check_term(const Case& c, const One& t, sco::Cost* cost, sco::Constraint* cnt, const VectorXd& xv, Lent& lent)
{
  const Dbl x = plain(xv);
  const Rows r = rows_of(c, t, xv);
  sim::cover("op.evaluation");
  sim::cover((std::string(cost ? "cost." : "constraint.") + kind_name(t.d->s.type)).c_str());
  double v = 0, total = 0;
  Dbl values;
  std::vector<VectorXd> want;
  for (size_t k = 0; k < r.coeff.size(); ++k)
  {
    const double e = r.coeff[k] * std::max(0.0, r.f.contacts[k].err);
    want.push_back(VectorXd::Constant(1, e)), total += e;
  }
  if (guarded([&] { cost ? (void)(v = cost->value(x)) : (void)(values = cnt->value(x)); }) && !r.f.unsure)
  {
    if (!r.coeff.empty())
      sim::cover("op.contacts", r.coeff.size()), sim::nontrivial();
    if (cost && !near(v, total, 1e-8))
      sim::fail("value", "%s, '%s': the cost is %.12g, not %.12g (%zu contacts)", kind_name(t.d->s.type), t.name.c_str(), v, total, want.size());
    if (cnt)
    {
      std::vector<VectorXd> have;
      for (double e : values)
        have.push_back(VectorXd::Constant(1, e));
      check_rows(t, "value", have, want, 1e-8);
    }
  }
  if (!sim::chance(2, 3, "convex"))
    return;
  sco::ConvexObjective::Ptr obj;
  sco::ConvexConstraints::Ptr con;
  if (!guarded([&] { cost ? (void)(obj = cost->convex(x, lent.model.get())) : (void)(con = cnt->convex(x, lent.model.get())); }))
    return lent.fresh();
  sim::cover("op.convex");
  std::vector<VectorXd> ys = places(xv);
  if (!r.sloped)
    ys.resize(1), sim::cover("skip.derivative");
  if (r.f.unsure)
    sim::cover("skip.unsure");
  else if (obj)
  {
    for (const auto& y : ys)
    {
      double w = 0, slack = 1e-8;
      for (size_t k = 0; k < r.coeff.size(); ++k)
        w += r.coeff[k] * std::max(0.0, approx(c, t, r.f.contacts[k], xv, y)), slack += 1e-6 * r.coeff[k];
      const double h = objective(*obj, plain(y));
      if (!(std::abs(h - w) <= slack * (1 + std::abs(w))))
        sim::fail("convex", "%s, '%s': the convex cost is %.9g, not %.9g, %s", kind_name(t.d->s.type), t.name.c_str(), h, w, &y == &ys[0] ? "where it was made" : "away from where it was made");
    }
  }
  else
  {
    if (!con->eqs_.empty())
      sim::fail("convex", "%s, '%s': the convex constraint has equalities", kind_name(t.d->s.type), t.name.c_str());
    std::vector<VectorXd> have;
    want.clear();
    for (const auto& a : con->ineqs_)
    {
      VectorXd h((Idx)ys.size());
      for (size_t m = 0; m < ys.size(); ++m)
        h[(Idx)m] = a.value(plain(ys[m]));
      have.push_back(h);
    }
    for (size_t k = 0; k < r.coeff.size(); ++k)
    {
      VectorXd w((Idx)ys.size());
      for (size_t m = 0; m < ys.size(); ++m)
        w[(Idx)m] = r.coeff[k] * approx(c, t, r.f.contacts[k], xv, ys[m]);
      want.push_back(w);
    }
    check_rows(t, "convex", have, want, 1e-6 * 20);
  }
  obj.reset(), con.reset();
  lent.model->update();
}
VectorXd draw_traj(const Case& c, const std::vector<VectorXd>& seen)
{
  VectorXd x((Idx)c.n * c.dof);
  for (Idx k = 0; k < x.size(); ++k)
    x[k] = sim::real(-0.8, 0.8, "x");
  if (seen.empty())
    return x;
  switch (sim::choose(5, "how"))
  {
    case 0: sim::cover("op.revisit"); return seen[sim::choose(seen.size(), "which")];
    case 1:
    {
      VectorXd y = seen.back();
      const Idx k = (Idx)sim::choose((uint64_t)x.size(), "one");
      y[k] = x[k];
      return y;
    }
    case 2:  // two states alike, or swapped
      if (c.n > 1)
      {
        const Idx i = (Idx)sim::choose((uint64_t)c.n - 1, "pair");
        VectorXd y = seen.back(), z = y;
        y.segment(i * c.dof, c.dof) = z.segment((i + 1) * c.dof, c.dof);
        if (sim::chance(1, 2, "swapped"))
          y.segment((i + 1) * c.dof, c.dof) = z.segment(i * c.dof, c.dof);
        return y;
      }
  }
  return x;
}

// ---- the evaluators on their own: the contacts they report stay what they are for as long as they are held --------------
struct Held
{
  ContactResultVectorConstPtr v;
  Dbl dists;
};
void check_evaluator(const Case& c, TrajOptProb& p, const std::vector<VectorXd>& xs)
{
  const bool moves = alone && world.mover >= 0;
  if (moves && sim::chance(1, 2, "move-before"))
    move_environment();
  const CollisionEvaluatorType type = c.n == 1 || (moves && sim::chance(2, 3, "single")) ? CollisionEvaluatorType::DISCRETE : kinds[sim::choose(4, "type")];
  Desc d;
  d.name = "evaluator", d.s = draw_settings(type);
  d.s.dynamic = type == CollisionEvaluatorType::DISCRETE && sim::chance(moves ? 3 : 1, 4, "dynamic");  // the others never are
  const bool two = type != CollisionEvaluatorType::DISCRETE;
  const int fixed = two ? (int)sim::choose(3, "fixed") : 0;
  const One t{ d.name, &d, (int)sim::choose((uint64_t)c.n - (two ? 1 : 0), "step"), two, fixed == 1, fixed == 2 };
  const auto ends = fixed == 1 ? CollisionExpressionEvaluatorType::START_FIXED_END_FREE : fixed == 2 ? CollisionExpressionEvaluatorType::START_FREE_END_FIXED : CollisionExpressionEvaluatorType::START_FREE_END_FREE;
  const auto v0 = p.GetVarRow(t.step, 0, c.dof);
  std::shared_ptr<CollisionEvaluator> e;
  if (!two)
    e = std::make_shared<SingleTimestepCollisionEvaluator>(world.manip, world.env, d.s.config, v0, CollisionExpressionEvaluatorType::SINGLE_TIME_STEP, d.s.dynamic);
  else if (type == CollisionEvaluatorType::LVS_DISCRETE)
    e = std::make_shared<DiscreteCollisionEvaluator>(world.manip, world.env, d.s.config, v0, p.GetVarRow(t.step + 1, 0, c.dof), ends);
  else
    e = std::make_shared<CastCollisionEvaluator>(world.manip, world.env, d.s.config, v0, p.GetVarRow(t.step + 1, 0, c.dof), ends);
  sim::cover("op.evaluator");
  std::vector<Held> held;
  for (const auto& xv : xs)
  {
    if (moves && sim::chance(1, 3, "move"))
      move_environment();
    const Dbl x = plain(xv);
    const Rows r = rows_of(c, t, xv);
    sim::log("%s evaluator%s, first value %.9g", kind_name(t.d->s.type), d.s.dynamic ? ", dynamic" : "", x[(size_t)t.step * (size_t)c.dof]);
    Dbl dists, em, ec;
    sco::AffExprVector ex;
    ContactResultVectorConstPtr got;
    const VectorXd q0 = state(c, xv, t.step), q1 = t.two ? state(c, xv, t.step + 1) : q0;
    VectorXd dir(c.dof);
    for (Idx k = 0; k < dir.size(); ++k)
      dir[k] = sim::real(-1, 1, "direction");
    std::vector<Eigen::Vector2d> slopes;  // by the first and by the second state, along the direction
    if (!guarded([&] {
          e->CalcDists(x, dists);
          got = e->GetContactResultVectorCached(x);
          e->CalcDistExpressions(x, ex, em, ec);
          for (const auto& k : *got)
          {
            Eigen::Vector2d slope(0, 0);
            for (int side = 0; side < (t.two ? 2 : 1); ++side)
              for (const auto& g : (t.two ? e->GetGradient(q0, q1, k.get(), side == 1) : e->GetGradient(q0, k.get(), false)).gradients)
                if (g.has_gradient)
                  slope[side] += g.scale * g.gradient.dot(dir);
            slopes.push_back(slope);
          }
        }))
      continue;
    Held h{ got, {} };
    for (const auto& k : *got)
      h.dists.push_back(k.get().distance);
    if (h.dists != dists)
      sim::fail("evaluator", "%s: the distances are not those of the contacts", kind_name(t.d->s.type));
    held.push_back(h);
    if (r.f.unsure)
      continue;
    if (dists.size() != r.coeff.size() || ex.size() != dists.size() || em.size() != dists.size() || ec.size() != dists.size())
      sim::fail("evaluator", "%s: %zu distances and %zu expressions, %zu margins, %zu coefficients for %zu contacts", kind_name(t.d->s.type), dists.size(), ex.size(), em.size(), ec.size(), r.coeff.size());
    std::vector<VectorXd> have, want;
    for (size_t k = 0; k < dists.size(); ++k)
    {
      const auto& res = (*got)[k].get();
      if (em[k] != t.d->s.margin_of(res.link_names[0], res.link_names[1]) || ec[k] != t.d->s.coeff_of(res.link_names[0], res.link_names[1]))
        sim::fail("evaluator", "%s: margin %g and coefficient %g are not those of %s and %s", kind_name(t.d->s.type), em[k], ec[k], res.link_names[0].c_str(), res.link_names[1].c_str());
      const Contact& w = r.f.contacts[k];
      // swept between two states in which a link is turned, the point of a contact is that of the first state, or of the second
      const bool exact = prismatic() || t.d->s.type == CollisionEvaluatorType::LVS_DISCRETE || !t.two;
      double slope = 0;
      for (const auto& g : w.g)
        slope -= g.dot(dir);
      VectorXd a(4), b(4);
      a << em[k] - dists[k], em[k] - ex[k].value(x), exact ? slopes[k][0] : 0, exact ? slopes[k][1] : 0;
      b << w.err, w.err, exact ? (t.two ? 1 - w.s : 1) * slope : 0, exact && t.two ? w.s * slope : 0;
      have.push_back(a), want.push_back(b);
    }
    check_rows(t, "evaluator", have, want, 1e-6);
  }
  for (const auto& h : held)
  {
    Dbl now;
    for (const auto& k : *h.v)
      now.push_back(k.get().distance);
    if (now != h.dists)
      sim::fail("held", "%s: contacts that were reported have changed", kind_name(t.d->s.type));
  }
}
struct Job
{
  Case* c;
  TrajOptProb* p;
  int part, parts;
};
void evaluate(const Job& j)
{
  Case& c = *j.c;
  TrajOptProb& p = *j.p;
  Lent lent((size_t)c.n * (size_t)c.dof);
  std::vector<VectorXd> seen;
  for (int u = 0, m = 1 + (int)sim::choose(5, "updates"); u < m; ++u)
  {
    const VectorXd x = draw_traj(c, seen);
    seen.push_back(x);
    if (alone && world.mover >= 0 && sim::chance(1, 3, "move"))
      move_environment();
    int k = 0;
    for (size_t i = 0; i < c.costs.size(); ++i)
      if (k++ % j.parts == j.part)
        check_term(c, c.costs[i], p.getCosts()[i].get(), nullptr, x, lent);
    for (size_t i = 0; i < c.ineqs.size(); ++i)
      if (k++ % j.parts == j.part)
        check_term(c, c.ineqs[i], nullptr, p.getIneqConstraints()[i].get(), x, lent);
  }
  if (sim::chance(alone && world.mover >= 0 ? 3 : 2, 4, "evaluator"))
    check_evaluator(c, p, seen);
}
void evaluate_in_thread(void* j) { evaluate(*(Job*)j); }
void construct_in_thread(void* a)
{
  Case& c = *(Case*)a;
  auto p = construct(c);
  if (p)
    evaluate(Job{ &c, p.get(), 0, 1 });
}
void optimise(const Case& c, const TrajOptProb::Ptr& p)
{
  qpstub::solver = qpstub::solve_numerically;
  auto res = OptimizeProblem(p, nullptr);
  sim::cover("op.optimised");
  if (res->traj.rows() != c.n || res->traj.cols() != c.dof || res->cost_vals.size() != c.costs.size() || res->cnt_viols.size() != c.ineqs.size())
    sim::fail("result", "the result has a trajectory of %ld x %ld, %zu costs and %zu constraints", (long)res->traj.rows(), (long)res->traj.cols(), res->cost_vals.size(), res->cnt_viols.size());
  VectorXd x((Idx)c.n * c.dof);
  for (int i = 0; i < c.n; ++i)
    for (int j = 0; j < c.dof; ++j)
      x[(Idx)i * c.dof + j] = res->traj(i, j);
  for (size_t k = 0; k < c.costs.size() + c.ineqs.size(); ++k)
  {
    const bool cost = k < c.costs.size();
    const size_t i = cost ? k : k - c.costs.size();
    const Rows r = rows_of(c, cost ? c.costs[i] : c.ineqs[i], x);
    double w = 0;
    for (size_t m = 0; m < r.coeff.size(); ++m)
      w += r.coeff[m] * std::max(0.0, r.f.contacts[m].err);
    const double h = cost ? res->cost_vals[i] : res->cnt_viols[i];
    if (!r.f.unsure && !near(h, w, 1e-6))
      sim::fail("result", "%s '%s' is reported as %.9g; at the resulting trajectory it is %.9g", cost ? "cost" : "constraint", (cost ? c.costs[i] : c.ineqs[i]).name.c_str(), h, w);
  }
}
}  // namespace

SIM_WORLD(trajopt_collision)
{
  set_up();
  draw_scene(sim::chance(1, 2, "revolute-ok"));
  {
    auto s = std::make_shared<Scene>(*world.scene);
    for (auto& j : s->joints)
      j.lower = -sim::real(2, 4, "lower"), j.upper = sim::real(2, 4, "upper");
    s->on_kin = [] {
      int& t = kin_in[sim::self() & 3];
      if (t >= 0 && t-- == 0)
        throw TestError{ "fault.kinematics_throws" };
    };
    world.env = std::make_shared<tesseract::environment::Environment>(s);
    world.manip = std::make_shared<tesseract::kinematics::JointGroup>(s);
    world.scene = s;
  }
  const uint64_t threads = sim::choose(4, "threads");  // 2: terms of one problem in two threads, 3: two problems
  alone = threads < 2;
  Case c = draw_case();
  if (threads == 3)
  {
    Case d = draw_case();
    sim::cover("op.two_problems");
    const int t = sim::spawn(construct_in_thread, &d);
    construct_in_thread(&c);
    sim::join(t);
    world = Shared();
    return;
  }
  auto p = construct(c);
  if (p)
  {
    Job a{ &c, p.get(), 0, threads == 2 ? 2 : 1 }, b{ &c, p.get(), 1, 2 };
    int t = -1;
    if (threads == 2)
    {
      sim::cover("op.two_threads");
      t = sim::spawn(evaluate_in_thread, &b);
    }
    evaluate(a);
    if (t >= 0)
      sim::join(t);
    if ((size_t)c.n * (size_t)c.dof <= 8 && sim::chance(1, 8, "optimise"))
      optimise(c, p);
  }
  p.reset();
  world = Shared();
}
