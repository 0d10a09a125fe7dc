// P20: the problem that trajopt constructs from a description (structures or JSON), against an independent reading of that
// description. Terms are evaluated and convexified at sequences of trajectories in one or two simulated threads, while
// kinematics and allocations fail.
#include <json/json.h>
#include <trajopt/problem_description.hpp>
#include <trajopt/utils.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/modeling_utils.hpp>
#include <trajopt_sco/optimizers.hpp>
#include <tesseract/visualization/visualization.h>
#include <Eigen/SVD>
#include <cstring>
#include <functional>
#include <map>
#include <new>
#include <qp/canon.h>
#include "traj_util.hpp"

using namespace trajopt;
typedef std::shared_ptr<const tesseract::kinematics::JointGroup> Kin;
namespace
{
enum Pen { SQ, ABSOLUTE, HINGED, EQUAL, LESS, SQUARE_EQUAL };
const char* pen_name[] = { "squares", "absolute values", "hinges", "equality", "inequality", "equality" };
struct Ref  // a cost or constraint, as the description defines it
{
  std::string name, what;
  Pen pen;
  std::function<VectorXd(const VectorXd&)> err;  // of the whole trajectory
  VectorXd coeff;
  bool linear = false;
  double tol = 1e-6;                              // of the derivative
  std::function<bool(const VectorXd&)> smooth;    // is there a derivative, as far as this check goes?
  bool any_name = false;
};
struct Case
{
  bool json = false;
  int n = 0, dof = 0, cols = 0;
  bool time = false, reject = false, read_first = false;
  const char* why = "";
  Json::Value root;
  std::shared_ptr<ProblemConstructionInfo> pci;
  MatrixXd init;
  double dt_lo = 1, dt_hi = 1;
  std::vector<int> fixed_steps, fixed_dofs;
  std::vector<Ref> costs, eqs, ineqs;
};
double at(const Case& c, const VectorXd& x, int i, int j) { return x[(Idx)i * c.cols + j]; }
VectorXd row(const Case& c, const VectorXd& x, int i) { return x.segment((Idx)i * c.cols, c.dof); }
void refuse(Case& c, const char* why)
{
  if (!c.reject)
    c.reject = true, c.why = why;
}
void add(Case& c, bool cost, Ref r)
{
  if (cost)
    c.costs.push_back(std::move(r));
  else
    (r.pen == LESS ? c.ineqs : c.eqs).push_back(std::move(r));
}
struct Term  // one entry of the description
{
  bool cost, time = false;
  std::string name;
  TermInfo::Ptr info;
  Json::Value json;
};
void put(Case& c, Term& t, const char* type)
{
  if (c.json)
  {
    t.json["type"] = type;
    if (!t.name.empty())
      t.json["name"] = t.name;
    if (t.time)
      t.json["use_time"] = true;
    if (!t.json.isMember("params"))
      t.json["params"] = Json::Value(Json::objectValue);
    c.root[t.cost ? "costs" : "constraints"].append(t.json);
    return;
  }
  t.info->term_type = (t.cost ? TermType::TT_COST : TermType::TT_CNT) | (t.time ? TermType::TT_USE_TIME : TermType::TT_INVALID);
  t.info->name = t.name;
  (t.cost ? c.pci->cost_infos : c.pci->cnt_infos).push_back(t.info);
}
std::string name_of(const Term& t, const Case& c, const char* type) { return t.name.empty() && c.json ? type : t.name; }

// ---- joint positions and their differences --------------------------------------------------------------------------
Dbl some(size_t n, double lo, double hi, const char* l)
{
  Dbl v(n);
  for (double& x : v)
    x = sim::real(lo, hi, l);
  return v;
}
Dbl spread(const Dbl& v, int n, double def)
{
  if (v.empty())
    return Dbl((size_t)n, def);
  return v.size() == 1 ? Dbl((size_t)n, v[0]) : v;
}
template <class T>
void joint_term(Case& c, Term& t, int order, const char* type)
{
  auto info = std::make_shared<T>();
  const size_t dof = (size_t)c.dof;
  auto size = [&](bool may_be_empty) -> size_t { return sim::chance(1, 3, "one-value") ? 1 : may_be_empty && sim::chance(1, 3, "default") ? 0 : dof; };
  Dbl targets = some(size(false), -1, 1, "target"), coeffs = some(size(true), 0.1, 5, "coeff"), up, lo;
  if (!coeffs.empty() && sim::chance(1, 6, "zero-coeff"))
    coeffs[sim::choose(coeffs.size(), "which")] = 0;
  if (sim::chance(1, 2, "tolerance"))
    up = some(size(true), 0, 0.5, "upper"), lo = some(size(true), -0.5, 0, "lower");
  else if (sim::chance(1, 3, "zeros"))
    up = Dbl(dof, 0.0), lo = Dbl(1, 0.0);
  if (sim::chance(1, 40, "wrong-size"))
  {
    targets.resize(dof + 2, 0.1);
    refuse(c, "a list of targets of the wrong size");
  }
  int first = 0, last = -1;
  bool given = true;
  switch (sim::choose(5, "range"))
  {
    case 0: given = false; break;
    case 1:
      first = (int)sim::choose((uint64_t)c.n, "first"), last = first + (int)sim::choose((uint64_t)(c.n - first), "last");
      if (last - first < order && !sim::chance(1, 8, "too-short"))
        first = 0, last = c.n - 1;
      break;
    case 2:
      first = last = (int)sim::choose((uint64_t)c.n, "step");
      if (order == 3 && !sim::chance(1, 8, "too-short"))
        last = c.n - 1, first = 0;
      break;
    case 3:
      if (!sim::chance(1, 3, "any"))
        first = (int)sim::choose((uint64_t)std::max(1, c.n - order), "first"), last = std::min(c.n - 1, first + order + (int)sim::choose(3, "more"));
      else
        first = (int)sim::choose((uint64_t)c.n + 2, "first"), last = (int)sim::choose((uint64_t)c.n + 2, "last");
      break;
    case 4: last = order + (int)sim::choose(3, "more"); break;
  }
  if (c.json)
  {
    Json::Value& p = t.json["params"];
    p["targets"] = arr(targets);
    if (!coeffs.empty())
      p["coeffs"] = arr(coeffs);
    if (!up.empty())
      p["upper_tols"] = arr(up);
    if (!lo.empty())
      p["lower_tols"] = arr(lo);
    if (given)
      p["first_step"] = first, p["last_step"] = last;
  }
  else
  {
    info->targets = targets, info->coeffs = coeffs, info->upper_tols = up, info->lower_tols = lo;
    info->first_step = first, info->last_step = last;
    t.info = info;
  }
  put(c, t, type);
  // the steps it covers
  if (last < 0)
    last = c.n - 1;
  first = std::min(first, c.n - 1 - order), last = std::min(last, c.n - 1);
  if (order && last == first)
    last += order == 3 ? 4 : order;
  if (last < first)
    std::swap(first, last);
  if (first < 0 || last > c.n - 1 || last - first < order)
    return refuse(c, "a trajectory too short for the differences");
  if (c.reject)
    return;
  const Dbl tg = spread(targets, c.dof, 0), co = spread(coeffs, c.dof, 1), u = spread(up, c.dof, 0), l = spread(lo, c.dof, 0);
  bool zero = true;
  for (int j = 0; j < c.dof; ++j)
    zero = zero && std::abs(u[(size_t)j]) < 1e-5 && std::abs(l[(size_t)j]) < 1e-5;
  const std::string name = name_of(t, c, type);
  auto copy = std::make_shared<Case>();
  copy->cols = c.cols, copy->dof = c.dof;
  const int dofs = c.dof;
  if (t.time && order == 1)
  {
    for (int j = 0; j < dofs; ++j)
    {
      Ref r;
      r.name = name + "_j" + std::to_string(j);
      r.what = "joint velocity with time";
      r.pen = t.cost ? zero ? SQ : HINGED : zero ? EQUAL : LESS;
      const int m = last - first;
      r.coeff = VectorXd::Constant(2 * m, co[(size_t)j]);
      const double tj = tg[(size_t)j], uj = u[(size_t)j], lj = l[(size_t)j];
      r.err = [=](const VectorXd& x) {
        VectorXd e(2 * m);
        for (int i = 0; i < m; ++i)
        {
          const double v = (at(*copy, x, first + i + 1, j) - at(*copy, x, first + i, j)) * at(*copy, x, first + i + 1, dofs);
          e[i] = v - tj - uj, e[m + i] = lj - (v - tj);
        }
        return e;
      };
      add(c, t.cost, r);
    }
    return;
  }
  Ref r;
  r.name = name;
  r.what = order == 0 ? "joint position" : order == 1 ? "joint velocity" : order == 2 ? "joint acceleration" : "joint jerk";
  r.linear = true;
  r.pen = t.cost ? zero ? SQ : HINGED : zero ? SQUARE_EQUAL : LESS;
  const int m = last - first - order + 1;
  r.coeff.resize((Idx)m * dofs * (zero ? 1 : 2));
  for (int i = 0; i < m; ++i)
    for (int j = 0; j < dofs; ++j)
      for (int s = 0; s < (zero ? 1 : 2); ++s)
        r.coeff[((Idx)s * m + i) * dofs + j] = co[(size_t)j];
  r.err = [=](const VectorXd& x) {
    static const double bin[4][4] = { { 1 }, { -1, 1 }, { 1, -2, 1 }, { -1, 3, -3, 1 } };
    VectorXd e((Idx)m * dofs * (zero ? 1 : 2));
    for (int i = 0; i < m; ++i)
      for (int j = 0; j < dofs; ++j)
      {
        double d = -tg[(size_t)j];
        for (int k = 0; k <= order; ++k)
          d += bin[order][k] * at(*copy, x, first + i + k, j);
        e[(Idx)i * dofs + j] = zero ? d : d - u[(size_t)j];
        if (!zero)
          e[((Idx)m + i) * dofs + j] = l[(size_t)j] - d;
      }
    return e;
  };
  add(c, t.cost, r);
}
void total_time(Case& c, Term& t)
{
  auto info = std::make_shared<TotalTimeTermInfo>();
  double coeff = sim::real(0.1, 5, "coeff"), limit = sim::chance(1, 2, "no-limit") ? 0 : sim::real(0.1, 10, "limit");
  t.time = true;
  if (c.json)
  {
    if (sim::chance(2, 3, "coeff-given"))
      t.json["params"]["coeff"] = coeff;
    else
      coeff = 1;
    if (sim::chance(2, 3, "limit-given"))
      t.json["params"]["limit"] = limit;
    else
      limit = 1;
  }
  else
  {
    info->coeff = coeff, info->limit = limit;
    t.info = info;
  }
  put(c, t, "total_time");
  Ref r;
  r.name = name_of(t, c, "total_time");
  r.what = "total time";
  r.pen = t.cost ? limit == 0 ? SQ : HINGED : limit == 0 ? EQUAL : LESS;
  r.coeff = VectorXd::Constant(1, coeff);
  r.tol = 1e-5;
  const int n = c.n, cols = c.cols;
  r.err = [=](const VectorXd& x) {
    double s = -limit;
    for (int i = 1; i < n; ++i)
      s += 1 / x[(Idx)i * cols + cols - 1];
    return VectorXd::Constant(1, s).eval();
  };
  add(c, t.cost, r);
}

// ---- Cartesian terms ------------------------------------------------------------------------------------------------
std::string link(bool active, const std::string& but = "")
{
  std::vector<std::string> v;
  for (const auto& l : world.scene->links)
    if (world.scene->active(l) == active && l.name != but)
      v.push_back(l.name);
  return v.empty() ? "" : v[sim::choose(v.size(), "link")];
}
Eigen::Isometry3d pose_of(const std::string& l, const VectorXd& q) { return world.scene->pose(*world.scene->find(l), world.scene->full(q)); }
struct Offset
{
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  Dbl xyz, wxyz;
  void draw()
  {
    if (sim::chance(1, 2, "offset"))
    {
      const Eigen::Vector3d p = draw_point(0.5);
      xyz = { p[0], p[1], p[2] };
      t.translation() = p;
    }
    if (sim::chance(1, 2, "turned"))
    {
      Eigen::Quaterniond q(sim::real(0.2, 1, "w"), sim::real(-1, 1, "x"), sim::real(-1, 1, "y"), sim::real(-1, 1, "z"));
      q.normalize();
      wxyz = { q.w(), q.x(), q.y(), q.z() };
      t.linear() = q.toRotationMatrix();
    }
  }
};
Eigen::VectorXd pose_error(const Eigen::Isometry3d& a, const Eigen::Isometry3d& b)  // of b, seen from a
{
  const Eigen::Isometry3d e = a.inverse() * b;
  const Eigen::AngleAxisd r(e.rotation());
  VectorXd v(6);
  v << e.translation(), r.axis() * r.angle();
  return v;
}
template <class T>
bool cart_pose(Case& c, Term& t, bool dynamic, const char* type)
{
  auto info = std::make_shared<T>();
  const bool target_moves = dynamic || sim::chance(1, 2, "target-moves");
  std::string target = link(target_moves), source = link(dynamic || !target_moves, target);
  if (source.empty() || target.empty())
    return false;
  if (c.json && sim::chance(1, 30, "bad-frame"))
  {
    if (sim::chance(1, 2, "unknown"))
      source = "nothing";
    else
      target = source;
    if (!dynamic || source == "nothing")
      refuse(c, "a pose between frames that are unknown or do not move against each other");
  }
  int step = (int)sim::choose((uint64_t)c.n, "step");
  const bool given = sim::chance(2, 3, "step-given");
  if (sim::chance(1, 40, "step-outside"))
  {
    step = c.n + (int)sim::choose(3, "outside");
    if (given)
      refuse(c, "a step outside the trajectory");
  }
  Offset so, to;
  so.draw(), to.draw();
  Dbl pc, rc;
  if (sim::chance(2, 3, "position-coeffs"))
    pc = some(3, 0.1, 5, "coeff");
  if (sim::chance(2, 3, "rotation-coeffs"))
    rc = some(3, 0.1, 5, "coeff");
  for (auto* v : { &pc, &rc })
    for (double& x : *v)
      if (sim::chance(1, 4, "dropped"))
        x = sim::chance(1, 3, "tiny") ? 1e-6 : 0;
  VectorXd lower, upper;
  if (c.json)
  {
    Json::Value& p = t.json["params"];
    p["source_frame"] = source, p["target_frame"] = target;
    if (given)
      p["timestep"] = step;
    if (!pc.empty())
      p["pos_coeffs"] = arr(pc);
    if (!rc.empty())
      p["rot_coeffs"] = arr(rc);
    if (!so.xyz.empty())
      p["source_frame_offset_xyz"] = arr(so.xyz);
    if (!so.wxyz.empty())
      p["source_frame_offset_wxyz"] = arr(so.wxyz);
    if (!to.xyz.empty())
      p["target_frame_offset_xyz"] = arr(to.xyz);
    if (!to.wxyz.empty())
      p["target_frame_offset_wxyz"] = arr(to.wxyz);
    if (!given)
      step = c.n - 1;
  }
  else
  {
    if (given)
      info->timestep = step;
    else
      step = 0;
    info->source_frame = source, info->target_frame = target;
    info->source_frame_offset = so.t, info->target_frame_offset = to.t;
    if (!pc.empty())
      info->pos_coeffs = Eigen::Vector3d(pc[0], pc[1], pc[2]);
    if (!rc.empty())
      info->rot_coeffs = Eigen::Vector3d(rc[0], rc[1], rc[2]);
    if (sim::chance(1, 2, "tolerance"))
    {
      lower.resize(6), upper.resize(6);
      for (int k = 0; k < 6; ++k)
      {
        lower[k] = sim::chance(1, 4, "none") ? 0 : -sim::real(0.01, 0.5, "lower");
        upper[k] = sim::chance(1, 4, "none") ? 0 : sim::real(0.01, 0.5, "upper");
      }
      if (sim::chance(1, 20, "bad-tolerance"))
      {
        if (sim::chance(1, 2, "size"))
          lower.resize(5), lower.setConstant(-1);
        else
          upper[2] = lower[2] - 0.1;
        refuse(c, "tolerances that do not fit together");
      }
      info->lower_tolerance = lower, info->upper_tolerance = upper;
    }
    t.info = info;
  }
  put(c, t, type);
  if (c.reject)
    return true;
  std::vector<int> ind;
  Dbl co;
  for (int k = 0; k < 6; ++k)
  {
    const Dbl& v = k < 3 ? pc : rc;
    const double x = v.empty() ? 1 : v[(size_t)k % 3];
    if (std::abs(x) > 1e-5)
      ind.push_back(k), co.push_back(x);
  }
  Ref r;
  r.name = name_of(t, c, type);
  r.what = dynamic ? "pose of moving frames" : target_moves ? "pose with a moving target" : "pose with a fixed target";
  r.pen = t.cost ? ABSOLUTE : EQUAL;
  r.coeff = Eigen::Map<VectorXd>(co.data(), (Idx)co.size());
  const bool swap = !dynamic && target_moves, tol = lower.size() && (lower - upper).cwiseAbs().maxCoeff() > 1e-6;
  const int cols = c.cols, dofs = c.dof;
  auto full = [=](const VectorXd& x) {
    const VectorXd q = x.segment((Idx)step * cols, dofs);
    const Eigen::Isometry3d s = pose_of(source, q) * so.t, g = pose_of(target, q) * to.t;
    return swap ? pose_error(s, g) : pose_error(g, s);
  };
  r.err = [=](const VectorXd& x) {
    VectorXd e = full(x), out((Idx)ind.size());
    for (size_t k = 0; k < ind.size(); ++k)
    {
      double v = e[ind[k]];
      if (tol)
        v = v < lower[ind[k]] ? v - lower[ind[k]] : v > upper[ind[k]] ? v - upper[ind[k]] : 0;
      out[(Idx)k] = v;
    }
    return out;
  };
  r.tol = 5e-4;
  r.smooth = [=](const VectorXd& x) {
    const VectorXd e = full(x);
    if (e.tail<3>().norm() > 2.6)
      return false;
    for (int k = 0; tol && k < 6; ++k)
      if (std::abs(e[k] - lower[k]) < 1e-3 || std::abs(e[k] - upper[k]) < 1e-3)
        return false;
    return true;
  };
  add(c, t.cost, r);
  return true;
}
bool cart_vel(Case& c, Term& t)
{
  if (c.n < 3)
    return false;
  auto info = std::make_shared<CartVelTermInfo>();
  std::string l = link(true);
  const int first = (int)sim::choose((uint64_t)c.n - 2, "first");
  int last = first + 1 + (int)sim::choose((uint64_t)(c.n - 2 - first), "last");
  const double limit = sim::real(0, 0.5, "limit");
  if (c.json)
  {
    if (sim::chance(1, 30, "bad-link"))
      l = link(false), refuse(c, "the velocity of a link that does not move");
    else if (sim::chance(1, 30, "bad-step"))
      last = first, refuse(c, "a last step that is not after the first one");
    Json::Value& p = t.json["params"];
    p["first_step"] = first, p["last_step"] = last, p["max_displacement"] = limit, p["link"] = l;
  }
  else
  {
    info->first_step = first, info->last_step = last, info->link = l, info->max_displacement = limit;
    t.info = info;
  }
  put(c, t, "cart_vel");
  if (c.reject)
    return true;
  const int cols = c.cols, dofs = c.dof;
  for (int i = first; i <= last; ++i)
  {
    Ref r;
    r.name = t.cost ? name_of(t, c, "cart_vel") : "CartVel";
    r.any_name = !t.cost;
    r.what = "Cartesian velocity";
    r.pen = t.cost ? ABSOLUTE : LESS;
    r.coeff = VectorXd::Ones(6);
    r.err = [=](const VectorXd& x) {
      const Eigen::Vector3d d = pose_of(l, x.segment((Idx)(i + 1) * cols, dofs)).translation() - pose_of(l, x.segment((Idx)i * cols, dofs)).translation();
      VectorXd e(6);
      for (int k = 0; k < 3; ++k)
        e[k] = d[k] - limit, e[3 + k] = -d[k] - limit;
      return e;
    };
    add(c, t.cost, r);
  }
  return true;
}
bool singularity(Case& c, Term& t)
{
  const std::string l = link(true);
  Kin subset;
  const double lambda = sim::chance(1, 2, "lambda") ? sim::real(0.05, 1, "lambda") : 0.1;
  auto scene = std::make_shared<Scene>(*world.scene);
  std::vector<int> mine;  // of the group's joints, those of the subset
  if (c.dof > 1 && sim::chance(1, 2, "subset"))
  {
    const auto g = world.scene->group();
    const size_t off = sim::choose(g.size(), "without");
    scene->joints[(size_t)g[off]].manip = false;
    for (size_t k = 0; k < g.size(); ++k)
      if (k != off)
        mine.push_back((int)k);
    subset = std::make_shared<tesseract::kinematics::JointGroup>(scene);
  }
  else
    for (int k = 0; k < c.dof; ++k)
      mine.push_back(k);
  auto info = std::make_shared<AvoidSingularityTermInfo>(subset, lambda);
  const int first = (int)sim::choose((uint64_t)c.n, "first"), last = first + (int)sim::choose((uint64_t)(c.n - first), "last");
  Dbl co;
  if (sim::chance(1, 2, "coeff"))
    co = some(1, 0.1, 5, "coeff");
  info->link = l, info->first_step = first, info->last_step = last, info->coeffs = co;
  t.info = info;
  put(c, t, "avoid_singularity");
  if (c.reject)
    return true;
  const int cols = c.cols, dofs = c.dof;
  for (int i = first; i <= last; ++i)
  {
    Ref r;
    r.name = t.name + "_" + std::to_string(i);
    r.what = subset ? "singularity of a part of the joints" : "singularity";
    r.pen = t.cost ? ABSOLUTE : LESS;
    r.coeff = VectorXd::Constant(1, co.empty() ? 1 : co[0]);
    auto values = [=](const VectorXd& x) {
      const VectorXd q = x.segment((Idx)i * cols, dofs);
      VectorXd s((Idx)mine.size());
      for (size_t k = 0; k < mine.size(); ++k)
        s[(Idx)k] = q[mine[k]];
      return VectorXd(Eigen::JacobiSVD<MatrixXd>(scene->jacobian(*scene->find(l), scene->full(s))).singularValues());
    };
    r.err = [=](const VectorXd& x) { return VectorXd::Constant(1, 1 / (values(x).tail(1)(0) + lambda) - 1 / (0.1 + lambda)).eval(); };
    r.tol = 5e-2;
    r.smooth = [=](const VectorXd& x) {
      const VectorXd s = values(x);
      return s.tail(1)(0) > 0.05 && (s.size() < 2 || s[s.size() - 2] - s[s.size() - 1] > 0.1);
    };
    add(c, t.cost, r);
  }
  return true;
}
void user_defined(Case& c, Term& t)
{
  auto info = std::make_shared<UserDefinedTermInfo>();
  const double a = sim::real(0.5, 2, "a"), b = sim::real(-1, 1, "b");
  const int rows = 1 + (int)sim::choose(3, "rows"), dofs = c.dof, cols = c.cols;
  auto f = [=](const VectorXd& q) {
    VectorXd e(rows);
    for (int k = 0; k < rows; ++k)
      e[k] = std::sin(a * q[k % dofs]) + b * q.sum() + 0.3 * k;
    return e;
  };
  auto counted = [=](const VectorXd& q) {
    if (world.scene->on_kin)
      world.scene->on_kin();
    return f(q);
  };
  info->error_function = counted;
  if (sim::chance(1, 2, "jacobian"))
    info->jacobian_function = [=](const VectorXd& q) {
      MatrixXd j(rows, dofs);
      for (int k = 0; k < rows; ++k)
        for (int m = 0; m < dofs; ++m)
          j(k, m) = b + (m == k % dofs ? a * std::cos(a * q[m]) : 0);
      return j;
    };
  const int pt = (int)sim::choose(3, "penalty"), ct = (int)sim::choose(2, "type");
  info->cost_penalty_type = pt == 0 ? sco::PenaltyType::SQUARED : pt == 1 ? sco::PenaltyType::ABS : sco::PenaltyType::HINGE;
  info->constraint_type = ct ? sco::ConstraintType::INEQ : sco::ConstraintType::EQ;
  VectorXd co(rows);
  for (int k = 0; k < rows; ++k)
    co[k] = sim::chance(1, 6, "zero-coeff") ? 0 : sim::real(0.1, 5, "coeff");
  if (sim::chance(1, 4, "no-coeffs"))
    co.resize(0);
  const int first = (int)sim::choose((uint64_t)c.n, "first"), last = first + (int)sim::choose((uint64_t)(c.n - first), "last");
  std::vector<int> fixed;
  for (int i = 0; i < c.n; ++i)
    if (sim::chance(1, 4, "fixed"))
      fixed.push_back(i);
  info->first_step = first, info->last_step = last, info->coeff = co, info->fixed_steps = fixed;
  std::string name = "UserDefined";
  if (sim::chance(1, 2, "named"))
    name = info->name = "own";
  t.info = info;
  put(c, t, "");
  for (int i = first; i <= last; ++i)
  {
    if (std::find(fixed.begin(), fixed.end(), i) != fixed.end())
      continue;
    Ref r;
    static const char* pn[] = { "SQUARED", "ABS", "HING" };
    r.name = name + "_" + (t.cost ? pn[pt] : ct ? "INEQ" : "EQ") + "_" + std::to_string(i);
    r.what = "user's function";
    r.pen = t.cost ? pt == 0 ? SQ : pt == 1 ? ABSOLUTE : HINGED : ct ? LESS : EQUAL;
    r.coeff = co.size() ? co : VectorXd::Ones(rows);
    r.tol = 1e-4;
    r.err = [=](const VectorXd& x) { return f(x.segment((Idx)i * cols, dofs)); };
    add(c, t.cost, r);
  }
}

// ---- the settings of the optimizer, in JSON ---------------------------------------------------------------------------
double opt_field(const sco::BasicTrustRegionSQPParameters& p, int k)
{
  switch (k)
  {
    case 0: return p.improve_ratio_threshold;
    case 1: return p.min_trust_box_size;
    case 2: return p.min_approx_improve;
    case 3: return p.min_approx_improve_frac;
    case 4: return p.trust_shrink_ratio;
    case 5: return p.trust_expand_ratio;
    case 6: return p.cnt_tolerance;
    case 7: return p.merit_coeff_increase_ratio;
    case 8: return p.max_time;
    case 9: return p.trust_box_size;
    case 10: return p.initial_merit_error_coeff;
    case 11: return p.max_iter;
    case 12: return p.max_merit_coeff_increases;
    default: return p.inflate_constraints_individually;
  }
}
const char* opt_name[] = { "improve_ratio_threshold", "min_trust_box_size", "min_approx_improve", "min_approx_improve_frac", "trust_shrink_ratio", "trust_expand_ratio", "cnt_tolerance", "merit_coeff_increase_ratio", "max_time", "trust_box_size", "initial_merit_error_coeff", "max_iter", "max_merit_coeff_increases", "inflate_constraints_individually" };
void draw_opt_info(Case& c)
{
  for (int k = 0; k < 14; ++k)
    if (sim::chance(1, 2, "opt"))
    {
      Json::Value& v = c.root["opt_info"][opt_name[k]];
      if (k == 13)
        v = sim::chance(1, 2, "truth");
      else if (k > 10)
        v = (int)sim::choose(100, "whole");
      else
        v = sim::real(0.001, 20, "value");
    }
}
void check_opt_info(const Case& c, const ProblemConstructionInfo& pci)
{
  const sco::BasicTrustRegionSQPParameters def;
  for (int k = 0; k < 14; ++k)
  {
    const Json::Value& o = c.root["opt_info"];
    const double want = !o.isMember(opt_name[k]) ? opt_field(def, k) : k == 13 ? o[opt_name[k]].asBool() : o[opt_name[k]].asDouble();
    if (!near(opt_field(pci.opt_info, k), want, 1e-12))
      sim::fail("opt_info", "%s is %g, and should be %g", opt_name[k], opt_field(pci.opt_info, k), want);
  }
}

// ---- the description ------------------------------------------------------------------------------------------------
struct OnlyCost : JointPosTermInfo
{
  struct Base : TermInfo
  {
    Base() : TermInfo(TermType::TT_COST) {}
    void fromJson(ProblemConstructionInfo&, const Json::Value&) override {}
    void hatch(TrajOptProb&) override {}
  };
};
void draw_terms(Case& c, bool cost)
{
  for (int i = (int)sim::choose(4, cost ? "costs" : "constraints"); i > 0; --i)
  {
    Term t;
    t.cost = cost;
    static const char* names[] = { "", "term", "x y", "a" };
    t.name = names[sim::choose(4, "name")];
    if (!c.json && t.name.empty())
      t.name = "n" + std::to_string(i);
    const uint64_t kind = sim::choose(c.json ? 8 : 10, "kind");
    t.time = c.time && kind < 2 && sim::chance(1, 2, "timed");
    sim::cover("op.term");
    switch (kind)
    {
      case 0: joint_term<JointPosTermInfo>(c, t, 0, "joint_pos"); break;
      case 1: joint_term<JointVelTermInfo>(c, t, 1, "joint_vel"); break;
      case 2: joint_term<JointAccTermInfo>(c, t, 2, "joint_acc"); break;
      case 3: joint_term<JointJerkTermInfo>(c, t, 3, "joint_jerk"); break;
      case 4:
        if (c.time)
          total_time(c, t);
        break;
      case 5: cart_pose<CartPoseTermInfo>(c, t, false, "cart_pose"); break;
      case 6: cart_pose<DynamicCartPoseTermInfo>(c, t, true, "dynamic_cart_pose"); break;
      case 7: cart_vel(c, t); break;
      case 8: singularity(c, t); break;
      case 9: user_defined(c, t); break;
    }
  }
}
Case draw_case()
{
  Case c;
  c.json = sim::chance(1, 2, "json");
  c.n = sim::chance(1, 6, "short") ? 1 + (int)sim::choose(4, "steps") : 4 + (int)sim::choose(5, "steps");
  c.dof = (int)world.dof;
  c.time = sim::chance(1, 3, "time");
  c.cols = c.dof + (c.time ? 1 : 0);
  c.pci = std::make_shared<ProblemConstructionInfo>(world.env);
  if (sim::chance(1, 2, "time-limits") || c.time)
    c.dt_lo = sim::real(0.05, 1, "dt-lower"), c.dt_hi = c.dt_lo + sim::real(0, 2, "dt-upper");
  for (int i = 0; i < c.n; ++i)
    if (sim::chance(1, 6, "fixed-step"))
      c.fixed_steps.push_back(i);
  for (int j = 0; j < c.dof; ++j)
    if (sim::chance(1, 8, "fixed-dof"))
      c.fixed_dofs.push_back(j);
  if (c.fixed_steps.size() > 1 && sim::chance(1, 2, "unordered"))
    std::swap(c.fixed_steps.front(), c.fixed_steps.back());
  const bool qpoases = sim::chance(1, 2, "qpoases");
  const double dt = c.time || sim::chance(1, 2, "dt") ? sim::real(0.1, 2, "dt") : 1.0;
  // the initial trajectory
  const auto g = world.scene->group();
  VectorXd start(c.dof), end(c.dof);
  for (int j = 0; j < c.dof; ++j)
    start[j] = world.scene->joints[(size_t)g[(size_t)j]].state, end[j] = sim::real(-2, 2, "end");
  const uint64_t how = sim::choose(3, "init");
  c.init.resize(c.n, c.cols);
  MatrixXd data;
  for (int i = 0; i < c.n; ++i)
    for (int j = 0; j < c.dof; ++j)
      c.init(i, j) = how == 0 ? start[j] : how == 1 ? c.n == 1 ? end[j] : start[j] + (end[j] - start[j]) * i / (c.n - 1) : sim::real(-2, 2, "init");
  if (c.time)
    c.init.col(c.dof).setConstant(dt);
  if (how == 1)
    data = sim::chance(1, 2, "column") ? MatrixXd(end) : MatrixXd(end.transpose());
  if (how == 2)
    data = c.init.leftCols(c.dof);
  if (how && sim::chance(1, 40, "bad-init"))
  {
    if (how == 2)
      data.conservativeResize(data.rows() + 1, Eigen::NoChange), data.row(data.rows() - 1).setConstant(0.5);
    else
      data = MatrixXd::Constant(c.dof + 1, 1, 0.5);
    refuse(c, "an initial trajectory of the wrong size");
  }
  static const char* bad[] = { "n_steps", "manip", "init_info", "basic_info", "dt" };
  const char* flaw = c.json && sim::chance(1, 20, "flaw") ? bad[sim::choose(5, "flaw")] : "";
  if (c.json)
  {
    Json::Value b;
    b["n_steps"] = c.n;
    b["manip"] = "manip";
    if (!c.fixed_steps.empty() || sim::chance(1, 2, "empty-list"))
      b["fixed_timesteps"] = arr(c.fixed_steps);
    if (!c.fixed_dofs.empty())
      b["fixed_dofs"] = arr(c.fixed_dofs);
    b["convex_solver"] = qpoases ? "QPOASES" : "OSQP";
    if (c.dt_lo != 1 || c.dt_hi != 1)
      b["dt_lower_lim"] = c.dt_lo, b["dt_upper_lim"] = c.dt_hi;
    if (c.time && sim::chance(1, 2, "use-time"))
      b["use_time"] = true;
    if (*flaw)
      refuse(c, flaw);
    if (!strcmp(flaw, "n_steps"))
      b.removeMember("n_steps");
    if (!strcmp(flaw, "manip"))
      b["manip"] = "nobody";
    if (!strcmp(flaw, "dt"))
      b["dt_lower_lim"] = 2, b["dt_upper_lim"] = 1.5;
    if (strcmp(flaw, "basic_info"))
      c.root["basic_info"] = b;
    c.read_first = sim::chance(1, 2, "read-first");
    if (c.read_first && sim::chance(2, 3, "opt-info"))
      draw_opt_info(c);
    Json::Value i;
    static const char* types[] = { "stationary", "joint_interpolated", "given_traj" };
    i["type"] = types[how];
    if (dt != 1)
      i["dt"] = dt;
    if (how == 1)
      i["endpoint"] = arr(Dbl(data.data(), data.data() + data.size()));
    if (how == 2)
    {
      i["data"] = Json::Value(Json::arrayValue);
      for (Idx r = 0; r < data.rows(); ++r)
      {
        const VectorXd v = data.row(r).transpose();
        i["data"].append(arr(Dbl(v.data(), v.data() + v.size())));
      }
    }
    if (strcmp(flaw, "init_info"))
      c.root["init_info"] = i;
    else if (sim::chance(1, 2, "unknown-type"))
      i["type"] = "somehow", c.root["init_info"] = i;
  }
  else
  {
    auto& b = c.pci->basic_info;
    b.n_steps = c.n, b.manip = "manip", b.fixed_timesteps = c.fixed_steps, b.fixed_dofs = c.fixed_dofs;
    b.convex_solver = qpoases ? sco::ModelType::QPOASES : sco::ModelType::OSQP;
    b.use_time = c.time, b.dt_lower_lim = c.dt_lo, b.dt_upper_lim = c.dt_hi;
    c.pci->kin = world.manip;
    c.pci->init_info.type = how == 0 ? InitInfo::STATIONARY : how == 1 ? InitInfo::JOINT_INTERPOLATED : InitInfo::GIVEN_TRAJ;
    c.pci->init_info.data = data;
    c.pci->init_info.dt = dt;
  }
  draw_terms(c, true);
  draw_terms(c, false);
  if (c.time)
  {
    Term t;
    t.cost = sim::chance(1, 2, "time-cost"), t.name = "time";
    total_time(c, t);
  }
  // descriptions that contradict themselves
  if (!c.reject && sim::chance(1, 12, "contradiction"))
  {
    auto make = [&](bool cost) {
      Json::Value v;
      v["type"] = "joint_acc";
      v["params"]["targets"] = arr(Dbl{ 0 });
      c.root[cost ? "costs" : "constraints"].append(v);
      return &c.root[cost ? "costs" : "constraints"][c.root[cost ? "costs" : "constraints"].size() - 1];
    };
    if (c.json)
    {
      const uint64_t k = sim::choose(8, "which");
      if (k == 6)
        c.root["basic_info"]["fixed_timesteps"].append(sim::chance(1, 3, "negative") ? -1 : c.n + (int)sim::choose(3, "outside")), refuse(c, "a fixed step outside the trajectory");
      if (k == 7)
        c.root["basic_info"]["fixed_dofs"].append(sim::chance(1, 3, "negative") ? -1 : c.cols + (int)sim::choose(3, "outside")), refuse(c, "a fixed joint that does not exist");
      if (k >= 6)
        return c;
      Json::Value* v = make(sim::chance(1, 2, "in-costs"));
      if (k == 0)
        (*v)["type"] = "joint_snap", refuse(c, "an unknown type of term");
      if (k == 1)
        v->removeMember("params"), refuse(c, "a term without parameters");
      if (k == 2)
        (*v)["params"]["targts"] = 1, refuse(c, "a parameter that does not exist");
      if (k == 3)
        (*v)["params"].removeMember("targets"), refuse(c, "a parameter that is missing");
      if (k == 4)
        (*v)["params"]["targets"] = arr(Dbl((size_t)c.dof + 2, 0.5)), refuse(c, "a list of targets of the wrong size");
      if (k == 5)
        (*v)["use_time"] = true, refuse(c, "a term with time that has no such version");
    }
    else
    {
      const uint64_t k = sim::choose(6, "which");
      auto only = std::make_shared<OnlyCost::Base>();
      only->name = "only";
      if (k == 0)
        only->term_type = TermType::TT_CNT, c.pci->cnt_infos.push_back(only), refuse(c, "a cost used as a constraint");
      if (k == 1)
        only->term_type = TermType::TT_COST | TermType::TT_USE_TIME, c.pci->cost_infos.push_back(only), refuse(c, "a term with time that has no such version");
      if (k == 2)
        c.pci->basic_info.use_time = !c.time, refuse(c, "terms and problem that differ about time");
      if (k == 3)
        c.pci->basic_info.fixed_timesteps.push_back(sim::chance(1, 3, "negative") ? -1 : c.n + (int)sim::choose(3, "outside")), refuse(c, "a fixed step outside the trajectory");
      if (k == 4)
        c.pci->basic_info.fixed_dofs.push_back(sim::chance(1, 3, "negative") ? -1 : c.cols + (int)sim::choose(3, "outside")), refuse(c, "a fixed joint that does not exist");
      if (k == 5)
      {
        auto acc = std::make_shared<JointAccTermInfo>();
        acc->term_type = TermType::TT_CNT, acc->name = "acc", acc->targets = Dbl((size_t)c.dof + 2, 0.5);
        c.pci->cnt_infos.push_back(acc), refuse(c, "a list of targets of the wrong size");
      }
    }
  }
  return c;
}

// ---- what was constructed -------------------------------------------------------------------------------------------
TrajOptProb::Ptr construct(Case& c)
{
  TrajOptProb::Ptr p;
  std::string said;
  try
  {
    if (c.json && c.read_first)
    {
      ProblemConstructionInfo pci(world.env);
      pci.fromJson(c.root);
      check_opt_info(c, pci);
      p = ConstructProblem(pci);
    }
    else
      p = c.json ? ConstructProblem(c.root, world.env) : ConstructProblem(*c.pci);
  }
  catch (const std::exception& e)
  {
    said = e.what();
    if (!c.reject)
      sim::fail("refused", "a sound description is refused: %s", e.what());
  }
  if (c.reject)
  {
    if (p)
      sim::fail("accepted", "a description with %s is accepted", c.why);
    sim::cover("op.rejected");
  }
  return p;
}
void zero_solver(const qpstub::Canon& c, qpstub::Answer& a)
{
  a.outcome = qpstub::SOLVED;
  a.x.assign((size_t)c.n, 0);
}
double unclamp(double v) { return std::abs(v) >= 1e19 ? std::copysign(INFINITY, v) : v; }
void check_frame(const Case& c, TrajOptProb& p)
{
  const size_t total = (size_t)c.n * (size_t)c.cols;
  if (p.getVars().size() != total || p.GetNumSteps() != c.n || p.GetNumDOF() != c.cols || p.GetHasTime() != c.time)
    sim::fail("variables", "%zu variables, %d steps of %d, time %d where %zu, %d of %d, time %d are described", p.getVars().size(), p.GetNumSteps(), p.GetNumDOF(), p.GetHasTime(), total, c.n, c.cols, c.time);
  const auto g = world.scene->group();
  for (int i = 0; i < c.n; ++i)
    for (int j = 0; j < c.cols; ++j)
    {
      const size_t k = (size_t)i * (size_t)c.cols + (size_t)j;
      const std::string want = j < c.dof ? "j_" + std::to_string(i) + "_" + std::to_string(j) : "dt_" + std::to_string(i);
      const auto* rep = p.getVars()[k].var_rep.get();
      if (rep->name != want || rep->index != k || p.GetVar(i, j).var_rep.get() != rep)
        sim::fail("variables", "variable %zu is '%s' (number %ld), not '%s'", k, rep->name.c_str(), (long)rep->index, want.c_str());
      const double lo = j < c.dof ? world.scene->joints[(size_t)g[(size_t)j]].lower : c.dt_lo, hi = j < c.dof ? world.scene->joints[(size_t)g[(size_t)j]].upper : c.dt_hi;
      if (p.getLowerBounds()[k] != lo || p.getUpperBounds()[k] != hi)
        sim::fail("bounds", "variable %s has bounds [%g, %g], not [%g, %g]", want.c_str(), p.getLowerBounds()[k], p.getUpperBounds()[k], lo, hi);
      if (!near(p.GetInitTraj()(i, j), c.init(i, j), 1e-12))
        sim::fail("initial", "the initial trajectory has %.9g at step %d, column %d, not %.9g", p.GetInitTraj()(i, j), i, j, c.init(i, j));
    }
  if (p.GetInitTraj().rows() != c.n || p.GetInitTraj().cols() != c.cols)
    sim::fail("initial", "the initial trajectory is %ld x %ld", (long)p.GetInitTraj().rows(), (long)p.GetInitTraj().cols());
  // what is fixed: the equalities that the QP solver is given
  qpstub::solver = zero_solver;
  p.getClosestFeasiblePointQP(Dbl(total, 0.0));
  std::map<int, double> want, have;
  for (int i : c.fixed_steps)
    for (int j = 0; j < c.dof; ++j)
      want[i * c.cols + j] = c.init(i, j);
  for (int j : c.fixed_dofs)
    for (int i = 0; i < c.n; ++i)
      want[i * c.cols + j] = c.init(i, j);
  const qpstub::Canon& q = qpstub::last;
  if (q.n != (int)total)
    sim::fail("variables", "the QP has %d variables", q.n);
  for (const auto& r : q.rows)
  {
    if (r.a.size() == 1 && r.lo == r.hi && r.a.begin()->second != 0)
      have[r.a.begin()->first] = r.lo / r.a.begin()->second;
    else
      sim::fail("fixed", "the problem has a linear constraint that fixes no variable");
  }
  for (int k = 0; k < q.n; ++k)
    if (q.lb[(size_t)k] == q.ub[(size_t)k] && p.getLowerBounds()[(size_t)k] != p.getUpperBounds()[(size_t)k])
      have[k] = q.lb[(size_t)k];
  if (q.rows.size() > want.size() && sim::tracing())
    sim::log("%zu rows for %zu fixed variables", q.rows.size(), want.size());
  for (auto& w : want)
    if (!have.count(w.first) || !near(have[w.first], w.second, 1e-9))
      sim::fail("fixed", "%s should be fixed at %g, but is %s", p.getVars()[(size_t)w.first].var_rep->name.c_str(), w.second, have.count(w.first) ? ("fixed at " + std::to_string(have[w.first])).c_str() : "free");
  for (auto& h : have)
    if (!want.count(h.first))
      sim::fail("fixed", "%s is fixed, and should be free", p.getVars()[(size_t)h.first].var_rep->name.c_str());
  // terms
  struct
  {
    const char* what;
    size_t n;
    const std::vector<Ref>* refs;
  } lists[] = { { "costs", p.getCosts().size(), &c.costs }, { "equality constraints", p.getEqConstraints().size(), &c.eqs }, { "inequality constraints", p.getIneqConstraints().size(), &c.ineqs } };
  for (auto& l : lists)
    if (l.n != l.refs->size())
      sim::fail("terms", "%zu %s where %zu are described", l.n, l.what, l.refs->size());
  for (int w = 0; w < 3; ++w)
    for (size_t k = 0; k < lists[w].n; ++k)
    {
      const Ref& r = (*lists[w].refs)[k];
      const std::string name = w == 0 ? p.getCosts()[k]->name() : w == 1 ? p.getEqConstraints()[k]->name() : p.getIneqConstraints()[k]->name();
      if (name != r.name && !r.any_name)
        sim::fail("names", "a %s is called '%s', not '%s'", r.what.c_str(), name.c_str(), r.name.c_str());
    }
}

// ---- a term at a trajectory -----------------------------------------------------------------------------------------
VectorXd penalised(const Ref& r, VectorXd e)
{
  if (r.pen == SQ || r.pen == SQUARE_EQUAL)
    e = e.array().square();
  else if (r.pen == ABSOLUTE)
    e = e.array().abs();
  else if (r.pen == HINGED)
    e = e.array().max(0.0);
  return e.cwiseProduct(r.coeff);
}
MatrixXd numeric(const Ref& r, const VectorXd& x)
{
  const double h = 1e-6;
  MatrixXd j(r.coeff.size(), x.size());
  VectorXd y = x;
  for (Idx k = 0; k < x.size(); ++k)
  {
    y[k] = x[k] + h;
    const VectorXd a = r.err(y);
    y[k] = x[k] - h;
    j.col(k) = (a - r.err(y)) / (2 * h);
    y[k] = x[k];
  }
  return j;
}
void check_term(const Ref& r, sco::Cost* cost, sco::Constraint* cnt, const VectorXd& xv, Lent& lent)
{
  const Dbl x(xv.data(), xv.data() + xv.size());
  const VectorXd e = r.err(xv), want = penalised(r, e);
  sim::cover("op.evaluation");
  sim::cover(((cost ? "cost." : "constraint.") + r.what).c_str());
  std::string how;
  double v = 0;
  Dbl values;
  if (guarded([&] { cost ? (void)(v = cost->value(x)) : (void)(values = cnt->value(x)); }))
  {
    if (cost && !near(v, want.sum(), 1e-8))
      sim::fail("value", "%s (%s): the cost is %.12g, not %.12g", r.what.c_str(), pen_name[r.pen], v, want.sum());
    if (cnt)
    {
      std::vector<VectorXd> h, w;
      for (double d : values)  // what is satisfied may be shown as zero
        h.push_back(VectorXd::Constant(1, r.pen == LESS && d < 0 ? 0 : d));
      for (Idx k = 0; k < want.size(); ++k)
        w.push_back(VectorXd::Constant(1, r.pen == LESS ? std::max(want[k], 0.0) : want[k]));
      if (!match(h, w, std::vector<double>(w.size(), 1e-8), how))
        sim::fail("value", "%s (%s): the constraint: %s", r.what.c_str(), pen_name[r.pen], how.c_str());
    }
  }
  if (!sim::chance(1, 2, "convex"))
    return;
  // where the approximation is compared
  std::vector<VectorXd> ys{ xv };
  for (int k = 0; k < 3; ++k)
  {
    VectorXd y = xv;
    for (Idx i = 0; i < y.size(); ++i)
      y[i] += sim::real(-0.5, 0.5, "away");
    ys.push_back(y);
  }
  const bool smooth = r.linear || !r.smooth || r.smooth(xv);
  if (!smooth)
    ys.resize(1), sim::cover("skip.no_derivative");
  MatrixXd jac;
  if (!r.linear && smooth)
    jac = numeric(r, xv);
  auto approx = [&](const VectorXd& y) -> VectorXd { return r.linear ? r.err(y) : smooth ? VectorXd(e + jac * (y - xv)) : e; };
  sco::ConvexObjective::Ptr obj;
  sco::ConvexConstraints::Ptr con;
  if (!guarded([&] { cost ? (void)(obj = cost->convex(x, lent.model.get())) : (void)(con = cnt->convex(x, lent.model.get())); }))
    return lent.fresh();  // a model in which adding a variable failed half-way
  sim::cover("op.convex");
  if (obj)
  {
    for (const auto& y : ys)
    {
      const VectorXd ae = approx(y), w = penalised(r, ae);
      double slack = 1e-8 * (1 + std::abs(w.sum()));
      if (!r.linear)
        for (Idx k = 0; k < w.size(); ++k)
        {
          const double de = r.tol * (1 + ae.cwiseAbs().maxCoeff());
          slack += r.coeff[k] * (r.pen == SQ ? 2 * std::abs(ae[k]) * de + de * de : de);
        }
      const double h = objective(*obj, Dbl(y.data(), y.data() + y.size()));
      if (!(std::abs(h - w.sum()) <= slack))
        sim::fail("convex", "%s (%s): the convex cost is %.9g, not %.9g, %s", r.what.c_str(), pen_name[r.pen], h, w.sum(), &y == &ys[0] ? "where it was made" : "away from where it was made");
    }
    obj.reset();
  }
  if (con)
  {
    const auto& rows = r.pen == LESS ? con->ineqs_ : con->eqs_;
    if (!(r.pen == LESS ? con->eqs_ : con->ineqs_).empty())
      sim::fail("convex", "%s (%s): the convex constraint is of the other type", r.what.c_str(), pen_name[r.pen]);
    std::vector<VectorXd> h, w;
    std::vector<double> tol;
    for (const auto& a : rows)
    {
      bool zero = a.constant == 0;
      for (double k : a.coeffs)
        zero = zero && k == 0;
      if (zero)
        continue;
      VectorXd vals((Idx)ys.size());
      for (size_t k = 0; k < ys.size(); ++k)
        vals[(Idx)k] = a.value(Dbl(ys[k].data(), ys[k].data() + ys[k].size()));
      h.push_back(vals);
    }
    for (Idx k = 0; k < e.size(); ++k)
    {
      if (r.coeff[k] == 0)
        continue;
      VectorXd vals((Idx)ys.size());
      for (size_t m = 0; m < ys.size(); ++m)
        vals[(Idx)m] = approx(ys[m])[k] * r.coeff[k];
      if (vals.cwiseAbs().maxCoeff() == 0)
        continue;
      w.push_back(vals);
      tol.push_back(r.linear ? 1e-8 : r.tol * (1 + r.coeff[k]));
    }
    // rows that vanish everywhere say nothing
    if (h.size() > w.size())
      for (size_t k = h.size(); k-- > 0;)
        if (h[k].cwiseAbs().maxCoeff() < 1e-9)
          h.erase(h.begin() + (long)k);
    while (h.size() < w.size())
      h.push_back(VectorXd::Zero((Idx)ys.size()));
    if (!match(h, w, tol, how))
      sim::fail("convex", "%s (%s): the convex constraint: %s", r.what.c_str(), pen_name[r.pen], how.c_str());
    con.reset();
  }
  lent.model->update();
}
VectorXd draw_traj(const Case& c)
{
  VectorXd x((Idx)c.n * c.cols);
  for (int i = 0; i < c.n; ++i)
    for (int j = 0; j < c.cols; ++j)
      x[(Idx)i * c.cols + j] = j < c.dof ? sim::real(-1.5, 1.5, "x") : sim::real(0.8, 2.5, "dt");
  return x;
}
struct Job
{
  Case* c;
  TrajOptProb* p;
  int part, parts;
};
void evaluate(const Job& j)
{
  Case& c = *j.c;
  TrajOptProb& p = *j.p;
  Lent lent((size_t)c.n * (size_t)c.cols);
  std::vector<VectorXd> seen;
  for (int u = 0, m = 1 + (int)sim::choose(4, "updates"); u < m; ++u)
  {
    VectorXd x = draw_traj(c);
    if (!seen.empty() && sim::chance(1, 3, "again"))
      x = seen[sim::choose(seen.size(), "which")], sim::cover("op.revisit");
    else if (u == 0 && sim::chance(1, 4, "initial"))
      for (int i = 0; i < c.n; ++i)
        x.segment((Idx)i * c.cols, c.cols) = c.init.row(i).transpose();
    seen.push_back(x);
    int k = 0;
    for (size_t i = 0; i < c.costs.size(); ++i)
      if (k++ % j.parts == j.part)
        check_term(c.costs[i], p.getCosts()[i].get(), nullptr, x, lent);
    for (size_t i = 0; i < c.eqs.size(); ++i)
      if (k++ % j.parts == j.part)
        check_term(c.eqs[i], nullptr, p.getEqConstraints()[i].get(), x, lent);
    for (size_t i = 0; i < c.ineqs.size(); ++i)
      if (k++ % j.parts == j.part)
        check_term(c.ineqs[i], nullptr, p.getIneqConstraints()[i].get(), x, lent);
  }
}
void evaluate_in_thread(void* j) { evaluate(*(Job*)j); }
void construct_in_thread(void* a)
{
  Case& c = *(Case*)a;
  auto p = construct(c);
  if (p)
    evaluate(Job{ &c, p.get(), 0, 1 });
}
void optimise(const Case& c, const TrajOptProb::Ptr& p)
{
  qpstub::solver = qpstub::solve_numerically;
  std::shared_ptr<tesseract::visualization::Visualization> plotter;
  if (sim::chance(1, 4, "plotter"))
    plotter = std::make_shared<tesseract::visualization::Visualization>();
  auto res = OptimizeProblem(p, plotter);
  sim::cover("op.optimised");
  if (res->traj.rows() != c.n || res->traj.cols() != c.cols || res->cost_vals.size() != c.costs.size() || res->cnt_viols.size() != c.eqs.size() + c.ineqs.size() || res->cost_names.size() != c.costs.size() ||
      res->cnt_names.size() != res->cnt_viols.size())
    sim::fail("result", "the result has a trajectory of %ld x %ld, %zu costs (%zu names) and %zu constraints (%zu names)", (long)res->traj.rows(), (long)res->traj.cols(), res->cost_vals.size(), res->cost_names.size(),
              res->cnt_viols.size(), res->cnt_names.size());
  VectorXd x((Idx)c.n * c.cols);
  for (int i = 0; i < c.n; ++i)
    for (int j = 0; j < c.cols; ++j)
      x[(Idx)i * c.cols + j] = res->traj(i, j);
  for (size_t k = 0; k < c.costs.size(); ++k)
  {
    const double w = penalised(c.costs[k], c.costs[k].err(x)).sum();
    if ((res->cost_names[k] != c.costs[k].name && !c.costs[k].any_name) || !near(res->cost_vals[k], w, 1e-6))
      sim::fail("result", "cost '%s' is reported as '%s', %.9g; at the resulting trajectory it is %.9g", c.costs[k].name.c_str(), res->cost_names[k].c_str(), res->cost_vals[k], w);
  }
  for (size_t k = 0; k < res->cnt_viols.size(); ++k)
  {
    const Ref& r = k < c.eqs.size() ? c.eqs[k] : c.ineqs[k - c.eqs.size()];
    const VectorXd e = penalised(r, r.err(x));
    const double w = r.pen == LESS ? e.cwiseMax(0.0).sum() : e.cwiseAbs().sum();
    if ((res->cnt_names[k] != r.name && !r.any_name) || !near(res->cnt_viols[k], w, 1e-6))
      sim::fail("result", "constraint '%s' is reported as '%s', violated by %.9g; at the resulting trajectory it is %.9g", r.name.c_str(), res->cnt_names[k].c_str(), res->cnt_viols[k], w);
  }
}
}  // namespace

SIM_WORLD(problem_description)
{
  set_up();
  draw_scene(sim::chance(3, 4, "revolute-ok"));
  {
    auto s = std::make_shared<Scene>(*world.scene);
    for (auto& j : s->joints)
      j.lower = -sim::real(2, 4, "lower"), j.upper = sim::real(2, 4, "upper");
    s->on_kin = [] {
      int& t = kin_in[sim::self() & 3];
      if (t >= 0 && t-- == 0)
        throw TestError{ "fault.kinematics_throws" };
    };
    world.env = std::make_shared<tesseract::environment::Environment>(s);
    world.manip = std::make_shared<tesseract::kinematics::JointGroup>(s);
    world.scene = s;
  }
  const uint64_t threads = sim::choose(4, "threads");  // 2: terms of one problem in two threads, 3: two problems
  alone = threads < 2;
  Case c = draw_case();
  if (threads == 3)
  {
    Case d = draw_case();
    sim::cover("op.two_problems");
    const int t = sim::spawn(construct_in_thread, &d);
    construct_in_thread(&c);
    sim::join(t);
    sim::nontrivial();
    world = Shared();
    return;
  }
  auto p = construct(c);
  if (p && sim::chance(1, 4, "construct-again"))
    p = construct(c);
  if (p)
  {
    check_frame(c, *p);
    if (c.costs.size() + c.eqs.size() + c.ineqs.size())
      sim::nontrivial();
    Job a{ &c, p.get(), 0, threads == 2 ? 2 : 1 }, b{ &c, p.get(), 1, 2 };
    int t = -1;
    if (threads == 2)
    {
      sim::cover("op.two_threads");
      t = sim::spawn(evaluate_in_thread, &b);
    }
    evaluate(a);
    if (t >= 0)
      sim::join(t);
    if ((size_t)c.n * (size_t)c.cols <= 10 && sim::chance(1, 8, "optimise"))
      optimise(c, p);
  }
  p.reset();
  world = Shared();
}
