// P23: whole planning runs: a description with joint, pose, collision and user's terms, the optimizer (serial or with any number of
// threads), the QP back ends and the callbacks, over the stand-in for Tesseract. A plan made on its own is compared with plans of
// the same description made by several threads, next to another planner, watched by callbacks whose output fails, again on the same
// problem, and again after a plan that was broken off by an exception.
#include <trajopt/file_write_callback.hpp>
#include <trajopt/plot_callback.hpp>
#include <trajopt/problem_description.hpp>
#include <trajopt/utils.hpp>
#include <trajopt_sco/optimizers.hpp>
#include <tesseract/visualization/visualization.h>
#include <qp/canon.h>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <sstream>
#include "traj_util.hpp"

using namespace trajopt;
namespace
{
struct Plan
{
  std::shared_ptr<ProblemConstructionInfo> pci;
  sco::BasicTrustRegionSQPParameters par;
  int n = 0, dof = 0, cols = 0;
  bool time = false;
  std::vector<int> fixed;
  std::vector<long> broken;  // solves that fail, by the content of the problem
};
struct Point
{
  Dbl x, cost, viol;
};
struct Ended
{
  bool threw = false;
  sco::OptStatus status = sco::INVALID;
  Dbl x, cost, viol;
  double total = 0;
  int evals = 0, solves = 0;
  std::vector<Point> its;
};
long fuse_kin = -1, fuse_test = -1, fuse_tested = -1, fuse_user = -1;  // steps until they throw, whoever takes them
bool fired;
bool burn(long& f)
{
  sim::Quiet q;
  if (f < 0 || f-- != 0)
    return false;
  return fired = true;
}
void defuse() { fuse_kin = fuse_test = fuse_tested = fuse_user = -1, fired = false; }

// ---- a description ---------------------------------------------------------------------------------------------------
std::string some_link(bool active)
{
  std::vector<std::string> v;
  for (const auto& l : world.scene->links)
    if (world.scene->active(l) == active)
      v.push_back(l.name);
  return v.empty() ? "" : v[sim::choose(v.size(), "link")];
}
VectorXd draw_state(double r)
{
  VectorXd q(world.dof);
  for (Idx j = 0; j < q.size(); ++j)
    q[j] = sim::real(-r, r, "q");
  return q;
}
Dbl dbl(const VectorXd& v) { return Dbl(v.data(), v.data() + v.size()); }
void add(Plan& p, const TermInfo::Ptr& t, bool cost, bool time, const std::string& name)
{
  t->term_type = (cost ? TermType::TT_COST : TermType::TT_CNT) | (time ? TermType::TT_USE_TIME : TermType::TT_INVALID);
  t->name = name;
  (cost ? p.pci->cost_infos : p.pci->cnt_infos).push_back(t);
}
Plan draw_plan()
{
  Plan p;
  p.n = 2 + (int)sim::choose(2 + sim::chance(1, 4, "longer"), "steps"), p.dof = (int)world.dof;
  p.pci = std::make_shared<ProblemConstructionInfo>(world.env);
  p.pci->kin = world.manip;
  auto& b = p.pci->basic_info;
  b.n_steps = p.n, b.manip = "manip";
  b.convex_solver = sim::chance(1, 3, "qpoases") ? sco::ModelType::QPOASES : sco::ModelType::OSQP;
  p.time = sim::chance(1, 4, "time");
  b.use_time = p.time;
  p.cols = p.dof + (p.time ? 1 : 0);
  if (p.time)
    b.dt_lower_lim = 0.5, b.dt_upper_lim = 3;
  if (sim::chance(2, 3, "start-fixed"))
    p.fixed.push_back(0);
  if (p.n > 2 && sim::chance(1, 4, "end-fixed"))
    p.fixed.push_back(p.n - 1);
  b.fixed_timesteps = p.fixed;
  auto& init = p.pci->init_info;
  init.dt = p.time ? sim::real(0.6, 2, "dt") : 1;
  if (sim::chance(1, 2, "interpolated"))
  {
    init.type = InitInfo::JOINT_INTERPOLATED;
    init.data = draw_state(1.2);
  }
  else
  {
    init.type = InitInfo::GIVEN_TRAJ;
    init.data.resize(p.n, p.dof);
    for (int i = 0; i < p.n; ++i)
      init.data.row(i) = draw_state(1.2).transpose();
  }
  {
    auto t = std::make_shared<JointVelTermInfo>();
    t->targets = Dbl((size_t)p.dof, 0), t->coeffs = Dbl((size_t)p.dof, sim::real(0.1, 5, "smooth"));
    t->first_step = 0, t->last_step = p.n - 1;
    if (p.time && sim::chance(1, 2, "speed-limit"))
      t->upper_tols = Dbl((size_t)p.dof, 1), t->lower_tols = Dbl((size_t)p.dof, -1);
    add(p, t, true, p.time, "smooth");
  }
  if (p.time && sim::chance(1, 2, "total-time"))
  {
    auto t = std::make_shared<TotalTimeTermInfo>();
    t->coeff = sim::real(0.1, 2, "coeff");
    add(p, t, true, true, "duration");
  }
  if (sim::chance(1, 2, "goal"))
  {
    auto t = std::make_shared<JointPosTermInfo>();
    t->targets = dbl(draw_state(1.2)), t->coeffs = Dbl((size_t)p.dof, sim::real(0.5, 5, "coeff"));
    t->first_step = t->last_step = p.n - 1;
    if (sim::chance(1, 2, "tolerance"))
      t->upper_tols = Dbl((size_t)p.dof, 0.2), t->lower_tols = Dbl((size_t)p.dof, -0.2);
    add(p, t, sim::chance(1, 2, "cost"), false, "goal");
  }
  if (sim::chance(1, 2, "pose"))
  {
    const std::string target = some_link(false), source = some_link(true);
    if (!source.empty() && !target.empty())
    {
      auto t = std::make_shared<CartPoseTermInfo>();
      t->timestep = (int)sim::choose((uint64_t)p.n, "step");
      t->source_frame = source, t->target_frame = target;
      t->pos_coeffs = Eigen::Vector3d::Constant(sim::real(0.5, 3, "coeff"));
      t->rot_coeffs = Eigen::Vector3d::Constant(sim::chance(1, 2, "rotation") ? 0.5 : 0);
      t->target_frame_offset.translation() = draw_point(0.5);
      add(p, t, sim::chance(1, 2, "cost"), false, "pose");
    }
  }
  for (int k = (int)sim::choose(3, "collisions"); k > 0; --k)
  {
    static const CollisionEvaluatorType kinds[4] = { CollisionEvaluatorType::DISCRETE, CollisionEvaluatorType::LVS_DISCRETE, CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS };
    auto t = std::make_shared<CollisionTermInfo>();
    t->config = draw_settings(kinds[sim::choose(4, "kind")]).config;
    if (t->config.collision_check_config.longest_valid_segment_length < 0.6)
      t->config.collision_check_config.longest_valid_segment_length = 0.6;
    t->first_step = 0, t->last_step = p.n - 1;
    if (!p.fixed.empty() && sim::chance(1, 2, "fixed-given"))
      t->fixed_steps = { 0 };
    add(p, t, sim::chance(1, 2, "cost"), false, "clear" + std::to_string(k));
  }
  if (sim::chance(1, 3, "user's"))
  {
    auto t = std::make_shared<UserDefinedTermInfo>();
    const double a = sim::real(0.5, 2, "a");
    t->error_function = [a](const VectorXd& q) {
      if (burn(fuse_user))
        throw TestError{ "fault.function_throws" };
      VectorXd e(2);
      e << std::sin(a * q[0]) - 0.3, 0.2 * q.sum();
      return e;
    };
    t->first_step = 0, t->last_step = p.n - 1;
    t->coeff = VectorXd::Ones(2);
    t->cost_penalty_type = sim::chance(1, 2, "abs") ? sco::PenaltyType::ABS : sco::PenaltyType::SQUARED;
    t->constraint_type = sco::ConstraintType::INEQ;
    add(p, t, sim::chance(2, 3, "cost"), false, "own");
  }
  auto& o = p.par;
  o.max_iter = 1 + (int)sim::choose(4, "iterations");
  o.max_merit_coeff_increases = 1 + (int)sim::choose(3, "increases");
  o.trust_box_size = sim::real(0.05, 1, "box");
  o.min_trust_box_size = 0.02;
  o.min_approx_improve_frac = 1e-3;
  o.improve_ratio_threshold = sim::real(0, 0.4, "ratio");
  o.initial_merit_error_coeff = sim::real(1, 50, "penalty");
  o.inflate_constraints_individually = sim::chance(1, 2, "individually");
  o.max_qp_solver_failures = 1 + (int)sim::choose(3, "failures");
  if (sim::chance(1, 3, "failing-solver"))
    for (int k = 1 + (int)sim::choose(2, "broken"); k > 0; --k)
      p.broken.push_back((long)sim::choose(8, "which"));
  return p;
}

// ---- the numerical solver: its answer depends on the problem only, not on the order in which slack variables were made ----
const Plan* watched;
std::map<uint64_t, qpstub::Answer> solved;  // by the signature of the problem
// the order in which terms are added up may differ between plans: without the last digits
double rounded(double v)
{
  if (!(std::abs(v) < 1e30))
    return v;
  double q = 68719476736.0;  // 2^36
  for (double a = std::abs(v); a >= 2; a /= 2)
    q /= 2;
  return std::nearbyint(v * q) / q;
}
void in_order(const qpstub::Canon& c, qpstub::Answer& a)
{
  std::vector<int> to((size_t)c.n, -1), from;
  const int first = watched->n * watched->cols;
  auto place = [&](int k) {
    if (to[(size_t)k] < 0)
      to[(size_t)k] = (int)from.size(), from.push_back(k);
  };
  for (int k = 0; k < std::min(first, c.n); ++k)
    place(k);
  for (const auto& r : c.rows)
    for (const auto& e : r.a)
      place(e.first);
  for (int k = 0; k < c.n; ++k)
    place(k);
  qpstub::Canon d;
  d.n = c.n;
  for (int k : from)
    d.lb.push_back(c.lb[(size_t)k]), d.ub.push_back(c.ub[(size_t)k]), d.lin.push_back(c.lin[(size_t)k]);
  for (const auto& e : c.quad)
    d.quad[std::minmax(to[(size_t)e.first.first], to[(size_t)e.first.second])] += e.second;
  for (const auto& r : c.rows)
  {
    qpstub::Row w{ {}, r.lo, r.hi };
    for (const auto& e : r.a)
      w.a[to[(size_t)e.first]] = e.second;
    d.rows.push_back(w);
  }
  for (auto* v : { &d.lb, &d.ub, &d.lin })
    for (double& x : *v)
      x = rounded(x);
  for (auto& e : d.quad)
    e.second = rounded(e.second);
  for (auto& r : d.rows)
  {
    r.lo = rounded(r.lo), r.hi = rounded(r.hi);
    for (auto& e : r.a)
      e.second = rounded(e.second);
  }
  a.x.assign((size_t)c.n, 0);
  const uint64_t s = qpstub::signature(d);
  for (long b : watched->broken)
    if ((long)(s % 8) == b)
    {
      sim::cover("fault.qp_failure");
      a.outcome = s & 64 ? qpstub::GAVE_UP : qpstub::PRIMAL_INFEASIBLE;
      return;
    }
  if (d.n > 120 || d.rows.size() > 160)  // too large for the stand-in
  {
    sim::cover("qp_too_large");
    a.outcome = qpstub::GAVE_UP;
    return;
  }
  auto it = solved.find(s);  // all plans of a run have the same subproblems
  if (it == solved.end())
  {
    it = solved.emplace(s, qpstub::Answer()).first;
    qpstub::solve_numerically(d, it->second);
  }
  const qpstub::Answer& e = it->second;
  a.outcome = e.outcome;
  if (e.x.size() == (size_t)c.n)
    for (int k = 0; k < c.n; ++k)
      a.x[(size_t)k] = e.x[(size_t)to[(size_t)k]];
}

// ---- what is written ---------------------------------------------------------------------------------------------------
struct Disk : std::streambuf  // loses everything after some number of bytes
{
  std::string data;
  long room = -1;
  unsigned syncs = 0;
  bool full = false;
  std::streamsize xsputn(const char* s, std::streamsize n) override
  {
    sim::Quiet q;
    std::streamsize m = n;
    if (room >= 0)
      m = std::min<std::streamsize>(n, room), room -= (long)m;
    data.append(s, (size_t)m);
    if (m < n && !full)
      full = true, sim::cover("fault.disk_full");
    return m;
  }
  int overflow(int c) override
  {
    const char ch = (char)c;
    return xsputn(&ch, 1) == 1 ? c : EOF;
  }
  int sync() override
  {
    ++syncs;
    return full ? -1 : 0;
  }
};
std::vector<std::string> split(const std::string& s, char c)
{
  std::vector<std::string> v;
  std::string f;
  for (char k : s)
    if (k == c)
      v.push_back(f), f.clear();
    else
      f += k;
  v.push_back(f);
  return v;
}
bool close6(double a, double b) { return std::abs(a - b) <= 2e-5 * std::max(1e-3, std::max(std::abs(a), std::abs(b))) || (std::isnan(a) && std::isnan(b)); }
bool number(const char*& s, double& v)
{
  char* e;
  v = std::strtod(s, &e);
  if (e == s)
    return false;
  s = e;
  return true;
}
// one row: joint values, link: pose ..., costs, violations. Empty: as it should be
std::string row_flaw(const Plan& p, const std::string& text, const Point& at, int i, const std::vector<std::string>& links)
{
  std::string t = text;
  for (char& c : t)
    if (c == ',')
      c = ' ';
  const char* s = t.c_str();
  double v;
  char b[200];
  for (int j = 0; j < p.cols; ++j)
    if (!number(s, v) || !close6(v, at.x[(size_t)(i * p.cols + j)]))
    {
      snprintf(b, sizeof b, "column %d is not %.6g", j, at.x[(size_t)(i * p.cols + j)]);
      return b;
    }
  const VectorXd q = Eigen::Map<const VectorXd>(&at.x[(size_t)(i * p.cols)], p.dof);
  const auto state = poses(*world.scene, q);
  std::vector<std::string> seen;
  while (true)
  {
    while (*s == ' ')
      ++s;
    const char* e = std::strchr(s, ':');
    if (!e)
      break;
    const std::string name(s, e);
    if (!state.count(name))
      return "there is no link '" + name + "'";
    seen.push_back(name);
    s = e + 1;
    const auto& pose = state.at(name);
    Eigen::Quaterniond r(pose.rotation());
    const double want[7] = { pose.translation()[0], pose.translation()[1], pose.translation()[2], r.w(), r.x(), r.y(), r.z() };
    double have[7];
    for (double& h : have)
      if (!number(s, h))
        return "the pose of '" + name + "' has too few values";
    const double sign = r.w() * have[3] + r.x() * have[4] + r.y() * have[5] + r.z() * have[6] < 0 ? -1 : 1;
    for (int k = 0; k < 7; ++k)
      if (std::abs((k < 3 ? 1 : sign) * have[k] - want[k]) > 2e-5)
      {
        snprintf(b, sizeof b, "value %d of the pose of '%s' is %.6g, not %.6g", k, name.c_str(), have[k], want[k]);
        return b;
      }
  }
  std::sort(seen.begin(), seen.end());
  if (seen != links)
    return "not every link is there once";
  for (const Dbl* l : { &at.cost, &at.viol })
    for (size_t k = 0; k < l->size(); ++k)
      if (!number(s, v) || !close6(v, (*l)[k]))
      {
        snprintf(b, sizeof b, "%s %zu is not %.6g", l == &at.cost ? "cost" : "violation", k, (*l)[k]);
        return b;
      }
  while (*s == ' ')
    ++s;
  return *s ? "something follows the violations" : "";
}
void check_file(const Plan& p, const TrajOptProb& prob, const Disk& d, const std::vector<Point>& its)
{
  sim::Quiet q;
  std::vector<std::string> names, links;
  for (int j : world.scene->group())
    names.push_back(world.scene->joints[(size_t)j].name);
  for (const auto& l : world.scene->links)
    links.push_back(l.name);
  std::sort(links.begin(), links.end());
  std::vector<std::string> lines = split(d.data, '\n');
  const std::string rest = lines.back();  // not ended by a line break
  lines.pop_back();
  if (!d.full && !rest.empty())
    sim::fail("file", "the last line of the file is cut off");
  const size_t rows = (size_t)p.n + 1;
  if (!d.full && lines.size() != 1 + rows * its.size())
    sim::fail("file", "the file has %zu lines for %zu calls of %d steps", lines.size(), its.size(), p.n);
  if (lines.empty())
    return;
  std::vector<std::string> h = split(lines[0], ','), want = names;
  if (p.time && h.size() > names.size() && h[names.size()] == "dt")
    want.push_back("dt");
  for (const char* s : { "x", "y", "z", "q_w", "q_x", "q_y", "q_z" })
    want.push_back(s);
  for (const auto& c : const_cast<TrajOptProb&>(prob).getCosts())
    want.push_back(c->name());
  for (const auto& c : const_cast<TrajOptProb&>(prob).getConstraints())
    want.push_back(c->name());
  if (h != want)
    sim::fail("file", "the file begins with '%s'", lines[0].c_str());
  for (size_t k = 1; k < lines.size() && (k - 1) / rows < its.size(); ++k)
  {
    const size_t i = (k - 1) % rows;
    const std::string flaw = i == (size_t)p.n ? (lines[k].empty() ? "" : "an empty line was expected") : row_flaw(p, lines[k], its[(k - 1) / rows], (int)i, links);
    if (!flaw.empty())
      sim::fail("file", "call %zu, step %zu: %s: '%s'", (k - 1) / rows, i, flaw.c_str(), lines[k].c_str());
  }
  if (lines.size() > 1 + rows * its.size())
    sim::fail("file", "the file has lines beyond the last call");
  sim::cover("op.file_checked");
}

// ---- a planning run ----------------------------------------------------------------------------------------------------
struct Watch  // callbacks, and what fails in them
{
  bool plot = false, plot_prob = false, file = false;
  long room = -1;       // bytes on the disk
  bool file_throws = false;
  long show_throws = -1;
  Disk disk;
};
Ended run(const Plan& p, const TrajOptProb::Ptr& prob, int threads, Watch* w = nullptr, bool alone = true)
{
  Ended e;
  {
    sim::Quiet q;
    watched = &p;
    qpstub::solver = in_order;
  }
  std::unique_ptr<sco::BasicTrustRegionSQP> opt;
  if (threads)
    opt = std::make_unique<sco::BasicTrustRegionSQPMultiThreaded>(prob);
  else
    opt = std::make_unique<sco::BasicTrustRegionSQP>(prob);
  opt->getParameters() = p.par;
  opt->getParameters().num_threads = threads;
  opt->addCallback([&](sco::OptProb*, sco::OptResults& r) {
    sim::Quiet q;
    e.its.push_back({ r.x, r.cost_vals, r.cnt_viols });
  });
  const auto names = world.manip->getJointNames();
  tesseract::scene_graph::StateSolver solver;
  size_t shown = 0;
  if (w)
  {
    auto vis = std::make_shared<tesseract::visualization::Visualization>();
    vis->on_show = [&](const tesseract::common::JointTrajectory* t) {
      if (burn(w->show_throws))
        throw TestError{ "fault.plotter_throws" };
      if (!t)
        return;
      ++shown;
      if ((int)t->states.size() != p.n)
        sim::fail("shown", "a trajectory of %zu states is shown, not %d", t->states.size(), p.n);
      for (int i = 0; i < p.n; ++i)
      {
        const auto& s = t->states[(size_t)i];
        if (s.joint_names != names || s.position.size() != p.dof)
          sim::fail("shown", "state %d that is shown has %zu names and %ld values for %d joints", i, s.joint_names.size(), (long)s.position.size(), p.dof);
        for (int j = 0; j < p.dof; ++j)
          if (s.position[j] != e.its.back().x[(size_t)(i * p.cols + j)])
            sim::fail("shown", "state %d that is shown has %.9g for joint %d, not %.9g", i, s.position[j], j, e.its.back().x[(size_t)(i * p.cols + j)]);
      }
    };
    if (w->plot)
      opt->addCallback(PlotCallback(vis));
    if (w->plot_prob)
      opt->addCallback(PlotProbCallback(vis, solver, names));
    if (w->file)
    {
      w->disk.room = w->room;
      auto f = std::make_shared<std::ofstream>();
      static_cast<std::ios&>(*f).rdbuf(&w->disk);
      if (w->file_throws)
        f->exceptions(std::ios::badbit);
      try
      {
        opt->addCallback(WriteCallback(f, prob));
      }
      catch (const std::ios_base::failure&)
      {
        w->file = false;  // not even the heading
      }
    }
  }
  try
  {
    opt->initialize(trajToDblVec(prob->GetInitTraj()));
    e.status = opt->optimize();
  }
  catch (const TestError& t)
  {
    e.threw = true;
    sim::cover(t.fault);
  }
  catch (const std::ios_base::failure&)
  {
    if (!w || !w->disk.full)
      throw;
    e.threw = true;
    sim::cover("fault.disk_full_throws");
  }
  {
    sim::Quiet q;
    if (alone && fired && !e.threw)
      sim::fail("exception", "an exception does not reach the caller of the optimizer");
  }
  const auto& r = opt->results();
  e.x = r.x, e.cost = r.cost_vals, e.viol = r.cnt_viols, e.total = r.total_cost, e.evals = r.n_func_evals, e.solves = r.n_qp_solves;
  if (!e.threw && e.status != r.status)
    sim::fail("status", "optimize() returns %s, the results say %s", sco::toString(e.status).c_str(), sco::toString(r.status).c_str());
  if (w)
  {
    if (w->file && !e.threw)
      check_file(p, *prob, w->disk, e.its);
    if (!e.threw && shown != e.its.size() * (size_t)((w->plot ? 1 : 0) + (w->plot_prob ? 1 : 0)))
      sim::fail("shown", "%zu trajectories are shown in %zu calls", shown, e.its.size());
    opt.reset();
  }
  sim::cover(threads ? "op.planned_in_parallel" : "op.planned");
  if (!e.threw)
    sim::cover(("end." + sco::toString(e.status)).c_str());
  return e;
}
bool same(const Dbl& a, const Dbl& b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
std::string show(const Dbl& v)
{
  std::string s;
  char b[40];
  for (double d : v)
    snprintf(b, sizeof b, " %.17g", d), s += b;
  return s;
}
void compare(const Ended& a, const Ended& b, const char* how)
{
  for (size_t k = 0; k < std::min(a.its.size(), b.its.size()); ++k)
    if (!same(a.its[k].x, b.its[k].x) || !same(a.its[k].cost, b.its[k].cost) || !same(a.its[k].viol, b.its[k].viol))
      sim::fail("differs", "%s: iterate %zu is at%s costs%s violations%s, on its own at%s costs%s violations%s", how, k, show(b.its[k].x).c_str(), show(b.its[k].cost).c_str(), show(b.its[k].viol).c_str(),
                show(a.its[k].x).c_str(), show(a.its[k].cost).c_str(), show(a.its[k].viol).c_str());
  if (b.threw)
    return;
  if (a.its.size() != b.its.size() || a.status != b.status || !same(a.x, b.x) || !same(a.cost, b.cost) || !same(a.viol, b.viol) || a.evals != b.evals || a.solves != b.solves ||
      (a.total != b.total && !std::isnan(a.total)))
    sim::fail("differs", "%s: %s after %zu iterations at%s, on its own %s after %zu at%s", how, sco::toString(b.status).c_str(), b.its.size(), show(b.x).c_str(), sco::toString(a.status).c_str(), a.its.size(),
              show(a.x).c_str());
}
// what is reported of a plan, against terms that have seen nothing else
void check_truth(const Plan& p, const Ended& e)
{
  auto fresh = [&](const Point& at, const char* where) {
    auto prob = ConstructProblem(*p.pci);
    const auto& costs = prob->getCosts();
    const auto cnts = prob->getConstraints();
    if (at.cost.size() != costs.size() || at.viol.size() != cnts.size())
      sim::fail("reported", "%s, %zu costs and %zu violations are reported for %zu and %zu", where, at.cost.size(), at.viol.size(), costs.size(), cnts.size());
    for (size_t k = 0; k < costs.size(); ++k)
      if (!near(at.cost[k], costs[k]->value(at.x), 1e-9))
        sim::fail("reported", "%s, cost '%s' is reported as %.9g; there it is %.9g", where, costs[k]->name().c_str(), at.cost[k], costs[k]->value(at.x));
    for (size_t k = 0; k < cnts.size(); ++k)
      if (!near(at.viol[k], cnts[k]->violation(at.x), 1e-9))
        sim::fail("reported", "%s, constraint '%s' is reported as violated by %.9g; there it is by %.9g", where, cnts[k]->name().c_str(), at.viol[k], cnts[k]->violation(at.x));
    for (int i = 0; i < p.n; ++i)
      for (int j = 0; j < p.cols; ++j)
      {
        const size_t v = (size_t)(i * p.cols + j);
        if (at.x[v] < prob->getLowerBounds()[v] - 1e-4 || at.x[v] > prob->getUpperBounds()[v] + 1e-4)
          sim::fail("limits", "%s, column %d of step %d is %.9g, outside [%g, %g]", where, j, i, at.x[v], prob->getLowerBounds()[v], prob->getUpperBounds()[v]);
        if (j < p.dof && std::find(p.fixed.begin(), p.fixed.end(), i) != p.fixed.end() && std::abs(at.x[v] - prob->GetInitTraj()(i, j)) > 1e-4)
          sim::fail("fixed", "%s, joint %d of step %d is %.9g, but fixed at %.9g", where, j, i, at.x[v], prob->GetInitTraj()(i, j));
      }
  };
  if (e.its.empty() || !same(e.its.back().x, e.x))
    sim::fail("callbacks", "the last call does not see the result");
  fresh(e.its[sim::choose(e.its.size(), "iterate")], "at an iterate");
  fresh({ e.x, e.cost, e.viol }, "at the end");
  double t = 0;
  for (double c : e.cost)
    t += c;
  if (!near(t, e.total, 1e-12))
    sim::fail("reported", "the total cost is reported as %.9g, and the costs add up to %.9g", e.total, t);
  if (e.status == sco::OPT_CONVERGED)
    for (double v : e.viol)
      if (v > p.par.cnt_tolerance)
        sim::fail("converged", "converged is reported with a violation of %.9g", v);
}
void set_fuse()
{
  switch (sim::choose(4, "fuse"))
  {
    case 0: fuse_kin = (long)sim::logchoose(2000, "kin"); break;
    case 1: fuse_test = (long)sim::logchoose(200, "test"); break;
    case 2: fuse_tested = (long)sim::logchoose(200, "tested"); break;
    default: fuse_user = (long)sim::logchoose(200, "user");
  }
}
Watch draw_watch()
{
  Watch w;
  w.plot = sim::chance(1, 2, "plot"), w.plot_prob = sim::chance(1, 3, "plot-problem"), w.file = sim::chance(2, 3, "file");
  return w;
}
struct Planner
{
  const Plan* p;
  TrajOptProb::Ptr prob;
  const Ended* ref;
  int threads;
  Watch* watch;
};
void plan_next_to_another(void* a)
{
  const Planner& me = *(Planner*)a;
  const Ended e = run(*me.p, me.prob, me.threads, me.watch, false);
  if (e.threw)
    sim::fail("exception", "a planner throws for no reason");
  compare(*me.ref, e, "next to another planner");
}
}  // namespace

SIM_WORLD(planning)
{
  set_up();
  sim::set_step_limit(2000000000);
  draw_scene(sim::chance(1, 2, "revolute-ok"));
  {
    auto s = std::make_shared<Scene>(*world.scene);
    for (auto& j : s->joints)
      j.lower = -sim::real(1.2, 3, "lower"), j.upper = sim::real(1.2, 3, "upper");
    s->on_kin = [] {
      if (burn(fuse_kin))
        throw TestError{ "fault.kinematics_throws" };
    };
    s->on_test = [] {
      sim::cover("op.contact_test");
      if (burn(fuse_test))
        throw TestError{ "fault.contact_test_throws" };
    };
    s->on_tested = [] {
      if (burn(fuse_tested))
        throw TestError{ "fault.contact_test_throws_late" };
    };
    world.env = std::make_shared<tesseract::environment::Environment>(s);
    world.manip = std::make_shared<tesseract::kinematics::JointGroup>(s);
    world.scene = s;
  }
  defuse();
  const Plan p = draw_plan();
  auto prob = ConstructProblem(*p.pci);
  const Ended ref = run(p, prob, 0);
  check_truth(p, ref);
  if (ref.solves > 0)
    sim::nontrivial();
  sim::cover("qp_solves", (uint64_t)ref.solves);
  for (int k = 1 + (int)sim::choose(3, "more"); k > 0; --k)
    switch (sim::choose(5, "what"))
    {
      case 0:
        compare(ref, run(p, ConstructProblem(*p.pci), 1 + (int)sim::choose(4, "threads")), "with several threads");
        break;
      case 1:  // the same problem once more
        compare(ref, run(p, prob, (int)sim::choose(4, "threads")), "planned again");
        sim::cover("op.planned_again");
        break;
      case 2:  // watched
      {
        auto mine = sim::chance(1, 2, "same-problem") ? prob : ConstructProblem(*p.pci);
        for (int m = 1 + (int)sim::choose(2, "times"); m > 0; --m)
        {
          Watch w = draw_watch();
          const int threads = (int)sim::choose(3, "threads");
          defuse();
          if (sim::faults_on())
          {
            if (sim::chance(1, 3, "disk-full"))
              w.room = (long)sim::logchoose(4000, "room"), w.file_throws = sim::chance(1, 3, "file-throws");
            if (sim::chance(1, 6, "plotter-throws"))
              w.show_throws = (long)sim::logchoose(20, "show");
            if (sim::chance(1, 3, "fuse"))
              set_fuse();
          }
          const Ended e = run(p, mine, threads, &w);
          defuse();
          compare(ref, e, "watched by callbacks");
          if (e.threw)
          {
            Watch v = draw_watch();
            compare(ref, run(p, mine, 0, &v), "after a callback has failed");
          }
        }
        sim::cover("op.watched");
        break;
      }
      case 3:  // broken off, and planned again
      {
        if (!sim::faults_on())
          break;
        const int threads = (int)sim::choose(4, "threads");
        auto mine = sim::chance(1, 2, "same-problem") ? prob : ConstructProblem(*p.pci);
        for (int m = 1 + (int)sim::choose(2, "times"); m > 0; --m)
        {
          set_fuse();
          const Ended e = run(p, mine, threads);
          defuse();
          compare(ref, e, "with a fault");
        }
        compare(ref, run(p, mine, (int)sim::choose(3, "threads")), "after a plan that was broken off");
        sim::cover("op.planned_after_fault");
        break;
      }
      case 4:  // next to another planner
      {
        Watch w[2] = { draw_watch(), draw_watch() };
        const bool seen = sim::chance(1, 3, "watched");
        Planner a{ &p, ConstructProblem(*p.pci), &ref, (int)sim::choose(3, "threads"), seen ? w : nullptr }, b{ &p, ConstructProblem(*p.pci), &ref, (int)sim::choose(3, "threads"), seen ? w + 1 : nullptr };
        const int t = sim::spawn(plan_next_to_another, &b);
        plan_next_to_another(&a);
        sim::join(t);
        sim::cover("op.two_planners");
        break;
      }
    }
  prob.reset();
  world = Shared();
}
