// Shared by the worlds of trajopt (sco) terms: convex approximations evaluated, models lent to a thread, faults around a call.
#pragma once
#include <json/json.h>
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/modeling_utils.hpp>
#include <console_bridge/console.h>
#include <cstdio>
#include <locale>
#include <map>
#include <new>
#include "coll_scene.hpp"
using Eigen::MatrixXd;
typedef std::vector<double> Dbl;
namespace
{
int kin_in[4] = { -1, -1, -1, -1 };  // steps of the kinematics until they throw, for each simulated thread
bool near(double a, double b, double tol) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }

Json::Value arr(const Dbl& v)
{
  Json::Value a(Json::arrayValue);
  for (double x : v)
    a.append(x);
  return a;
}
Json::Value arr(const std::vector<int>& v)
{
  Json::Value a(Json::arrayValue);
  for (int x : v)
    a.append(x);
  return a;
}
double objective(sco::ConvexObjective& o, const Dbl& at_x)  // the least value for these variables of the problem
{
  Dbl x = at_x;
  std::map<size_t, bool> aux;
  for (const auto& v : o.vars_)
  {
    aux[v.var_rep->index] = true;
    if (v.var_rep->index < at_x.size())
      sim::fail("convex", "a slack variable takes the place of a variable of the problem");
    x.resize(std::max(x.size(), (size_t)v.var_rep->index + 1), 0.0);
  }
  for (const auto& e : o.eqs_)
  {
    double rest = e.constant;
    for (size_t k = 0; k < e.vars.size(); ++k)
      if (!aux.count(e.vars[k].var_rep->index))
        rest += e.coeffs[k] * x[e.vars[k].var_rep->index];
    for (size_t k = 0; k < e.vars.size(); ++k)
      if (aux.count(e.vars[k].var_rep->index))
        x[e.vars[k].var_rep->index] = std::max(0.0, -rest / e.coeffs[k]);
  }
  for (const auto& e : o.ineqs_)
  {
    double rest = e.constant;
    for (size_t k = 0; k < e.vars.size(); ++k)
      if (!aux.count(e.vars[k].var_rep->index))
        rest += e.coeffs[k] * x[e.vars[k].var_rep->index];
    for (size_t k = 0; k < e.vars.size(); ++k)
      if (aux.count(e.vars[k].var_rep->index) && e.coeffs[k] < 0)
        x[e.vars[k].var_rep->index] = std::max(0.0, -rest / e.coeffs[k]);
  }
  return o.quad_.value(x);
}
struct Lent  // a model for the slack variables of one thread
{
  sco::Model::Ptr model;
  size_t n;
  explicit Lent(size_t vars) : n(vars) { fresh(); }
  void fresh()
  {
    model = sco::createModel(sco::ModelType::OSQP);
    for (size_t k = 0; k < n; ++k)
      model->addVar("v" + std::to_string(k));
    model->update();
  }
};
template <class F>
bool guarded(F fn)  // with faults; false: the call failed
{
  const int me = sim::self() & 3;
  const int fault = sim::faults_on() ? (int)sim::choose(8, "fault") : 0;
  if (fault == 1)
    kin_in[me] = (int)sim::logchoose(40, "kin"), throw_in[me] = (int)sim::logchoose(6, "test");
  if (fault == 3)
    throw_done_in[me] = (int)sim::logchoose(6, "test");
  if (fault == 2 && alone)
    sim::alloc_fail_in(1 + (long)sim::logchoose(400, "alloc"));
  bool ok = true;
  try
  {
    fn();
  }
  catch (const TestError& e)
  {
    ok = false;
    sim::cover(e.fault);
  }
  catch (const std::bad_alloc&)
  {
    ok = false;
    sim::cover("fault.alloc_failure");
  }
  kin_in[me] = throw_in[me] = throw_done_in[me] = -1;
  sim::alloc_fail_in(-1);
  return ok;
}
bool match(std::vector<VectorXd> have, std::vector<VectorXd> want, const std::vector<double>& tol, std::string& how)
{
  if (have.size() != want.size())
  {
    how = std::to_string(have.size()) + " rows, not " + std::to_string(want.size());
    return false;
  }
  for (size_t w = 0; w < want.size(); ++w)
  {
    size_t best = 0;
    double least = INFINITY;
    for (size_t h = 0; h < have.size(); ++h)
    {
      double d = 0;
      for (Idx k = 0; k < want[w].size(); ++k)
        d = std::max(d, std::abs(have[h][k] - want[w][k]) / (tol[w] * (1 + std::abs(want[w][k]))));
      if (!(d >= least))
        least = d, best = h;
    }
    if (!(least <= 1))
    {
      char b[160];
      snprintf(b, sizeof b, "no row has the value %.9g (nearest %.9g)", want[w][0], have.empty() ? 0.0 : have[best][0]);
      how = b;
      return false;
    }
    have.erase(have.begin() + (long)best);
  }
  return true;
}
void set_up()
{
  console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  trajopt_common::gLogLevel = trajopt_common::LevelFatal;
  // the standard library fills this table when it is first asked, which is harmless in any order
  for (int ch = 1; ch < 128; ++ch)
    std::use_facet<std::ctype<char>>(std::locale()).narrow((char)ch, '*');
  sim::set_racecheck(true);
  sim::set_uafcheck(true);
  sim::set_step_limit(400000000);
}
}  // namespace
