// The scenes of the worlds that stand on the stand-in for Tesseract, the settings of collision terms, and the contacts as they are
// defined: recomputed from the poses, with the derivatives.
#pragma once
#include <tesseract/environment/environment.h>
#include <trajopt_common/collision_types.h>
#include <cmath>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#include "rt/sim.h"
using Eigen::VectorXd;
typedef Eigen::Index Idx;
namespace tc = tesseract::collision;
using tc::CollisionEvaluatorType;
using tesseract::Scene;
namespace
{
struct TestError
{
  const char* fault;
};
struct Shared
{
  std::shared_ptr<Scene> scene;
  std::shared_ptr<const tesseract::environment::Environment> env;
  std::shared_ptr<const tesseract::kinematics::JointGroup> manip;
  Idx dof = 0;
  int mover = -1;  // a joint that the environment may move at any time
};
Shared world;
bool alone;  // allocation failures are not told apart by thread
int throw_in[4] = { -1, -1, -1, -1 };  // contact tests of each simulated thread
int throw_done_in[4] = { -1, -1, -1, -1 };  // the same, once the contacts were found

Eigen::Vector3d draw_point(double r)
{
  Eigen::Vector3d p;
  for (int i = 0; i < 3; ++i)
    p[i] = sim::real(-r, r, "point");
  return p;
}
void draw_scene(bool revolute_ok)
{
  auto s = std::make_shared<Scene>();
  const int joints = 1 + (int)sim::choose(4, "joints"), fixed = 1 + (int)sim::choose(3, "obstacles");
  std::vector<std::string> names = { "a", "b", "c", "d", "e", "f", "g", "h" };
  auto name = [&] {
    const size_t k = sim::choose(names.size(), "name");
    std::string n = names[k];
    names.erase(names.begin() + (long)k);
    return n;
  };
  auto shape = [&](tesseract::SceneLink& l) {
    const int n = 1 + (int)sim::choose(3, "spheres");
    const bool sub = sim::chance(1, 3, "sub-shapes"), merge = sim::chance(1, 3, "merge");
    for (int i = 0; i < n; ++i)
      l.spheres.push_back({ draw_point(0.4), sim::real(0.1, 0.4, "radius"), merge ? 0 : i / 2, sub ? (merge ? 0 : i % 2) : -1 });
    if (!sub && !merge)
      for (int i = 0; i < n; ++i)
        l.spheres[(size_t)i].shape = i;
  };
  const int odd = sim::chance(1, 2, "other-mover") ? (int)sim::choose((uint64_t)joints, "which") : -1;
  const bool apart = odd >= 0 && joints > 1 && sim::chance(2, 3, "apart");  // and moves nothing else
  for (int j = 0; j < joints; ++j)
  {
    tesseract::SceneJoint jt;
    jt.name = std::string("j") + (char)('z' - j);
    jt.parent = j ? (int)sim::choose((uint64_t)j + 1, "parent") - 1 : -1;
    if (apart && (j == odd || jt.parent == odd))
      jt.parent = -1;
    jt.revolute = revolute_ok && sim::chance(1, 2, "revolute");
    do
      jt.axis = draw_point(1);
    while (jt.axis.norm() < 0.1);
    jt.axis.normalize();
    if (sim::chance(1, 2, "axis-aligned"))
      jt.axis = Eigen::Vector3d::Unit((Idx)sim::choose(3, "axis"));
    jt.origin = draw_point(0.7);
    jt.state = sim::real(-1, 1, "state");
    jt.manip = joints == 1 || j != odd;
    s->joints.push_back(jt);
    tesseract::SceneLink l;
    l.name = name();
    l.joint = j;
    l.origin = draw_point(0.3);
    shape(l);
    s->links.push_back(l);
  }
  for (int i = 0; i < fixed; ++i)
  {
    tesseract::SceneLink l;
    l.name = name();
    l.origin = draw_point(1);
    shape(l);
    s->links.push_back(l);
  }
  s->per_pair = sim::chance(1, 2, "per-pair");
  s->on_test = [] {
    int& t = throw_in[sim::self() & 3];
    if (t >= 0 && t-- == 0)
      throw TestError{ "fault.contact_test_throws" };
    sim::cover("op.contact_test");
  };
  s->on_tested = [] {
    int& t = throw_done_in[sim::self() & 3];
    if (t >= 0 && t-- == 0)
      throw TestError{ "fault.contact_test_throws_late" };
  };
  world.dof = (Idx)s->group().size();
  world.env = std::make_shared<tesseract::environment::Environment>(s);
  world.manip = std::make_shared<tesseract::kinematics::JointGroup>(s);
  world.scene = s;
  world.mover = apart ? odd : -1;
  if (apart)
  {
    s->live = std::make_shared<std::vector<double>>();
    for (const auto& j : s->joints)
      s->live->push_back(j.state);
  }
}
void move_environment()
{
  (*world.scene->live)[(size_t)world.mover] = sim::real(-1, 1, "moved");
  sim::log("the environment moves: joint %d to %.6g", world.mover, (*world.scene->live)[(size_t)world.mover]);
  sim::cover("op.environment_moves");
}

struct Settings
{
  CollisionEvaluatorType type;
  trajopt_common::TrajOptCollisionConfig config;
  double margin, buffer, lvs;
  std::vector<std::tuple<std::string, std::string, double>> margins, coeffs;
  double coeff;
  bool closest, dynamic;
  std::vector<double> made;  // the state of the environment when the checker was made
  template <class T>
  static double find(const T& v, const std::string& a, const std::string& b, double def)
  {
    for (auto& p : v)  // the last one counts
      if ((std::get<0>(p) == a && std::get<1>(p) == b) || (std::get<0>(p) == b && std::get<1>(p) == a))
        def = std::get<2>(p);
    return def;
  }
  double margin_of(const std::string& a, const std::string& b) const { return find(margins, a, b, margin); }
  double coeff_of(const std::string& a, const std::string& b) const { return find(coeffs, a, b, coeff); }
};
Settings draw_settings(CollisionEvaluatorType type)
{
  Settings s;
  s.type = type;
  s.margin = sim::real(-0.1, 0.5, "margin");
  s.buffer = sim::chance(1, 8, "no-buffer") ? 0 : sim::real(0.01, 0.3, "buffer");
  s.lvs = sim::real(0.15, 1, "segment");
  s.coeff = sim::real(0.5, 20, "coeff");
  s.closest = sim::chance(1, 3, "closest");
  s.dynamic = sim::chance(world.scene->live ? 2 : 1, 3, "dynamic");
  if (world.scene->live)
    s.made = *world.scene->live;
  s.config = trajopt_common::TrajOptCollisionConfig(s.margin, s.coeff, tc::ContactRequest(s.closest ? tc::ContactTestType::CLOSEST : tc::ContactTestType::ALL), type, s.lvs);
  s.config.collision_margin_buffer = s.buffer;
  const auto& links = world.scene->links;
  for (int i = (int)sim::choose(4, "margins"); i > 0; --i)
  {
    const auto &a = links[sim::choose(links.size(), "a")].name, &b = links[sim::choose(links.size(), "b")].name;
    s.margins.emplace_back(a, b, sim::real(-0.1, 0.6, "pair-margin"));
    s.config.contact_manager_config.pair_margin_data.setCollisionMargin(a, b, std::get<2>(s.margins.back()));
    s.config.contact_manager_config.pair_margin_override_type = tc::CollisionMarginPairOverrideType::MODIFY;
  }
  for (int i = (int)sim::choose(5, "coeffs"); i > 0; --i)
  {
    std::string a = links[sim::choose(links.size(), "a")].name, b = links[sim::choose(links.size(), "b")].name;
    if (!s.coeffs.empty() && sim::chance(1, 3, "same-pair"))
      a = std::get<1>(s.coeffs.back()), b = std::get<0>(s.coeffs.back());
    s.coeffs.emplace_back(a, b, sim::chance(1, 2, "zero") ? 0.0 : sim::real(0.5, 20, "pair-coeff"));
    s.config.collision_coeff_data.setCollisionCoeff(a, b, std::get<2>(s.coeffs.back()));
  }
  return s;
}

// ---- the contacts as they are defined -------------------------------------------------------------------------------
struct Contact
{
  std::tuple<std::string, std::string, int, int, int, int> key;
  double err, s = 0;  // s: where between the two states
  int type = -1;      // 0 at the first state, 1 at the second, 2 between; -1 a single state
  std::vector<VectorXd> g;  // derivative of the error by the joints at the contact, for every moving side
  bool flat = false;        // its time is not settled: no numerical derivative
};
struct Found
{
  std::vector<Contact> contacts;
  bool unsure = false;    // rounding decides what counts
  bool num_ok = true;     // numerical derivatives are meaningful
  long tests = 0;
};
struct Probe : tc::ManagerBase
{
  using ManagerBase::ManagerBase;
  void set(const tesseract::common::TransformMap& a, const tesseract::common::TransformMap& b) { pose0_ = a, pose1_ = b; }
  void run(tc::ContactResultMap& m, const tc::ContactRequest& r, bool cast) const { test(m, r, cast); }
};
tesseract::common::TransformMap poses(const Scene& scene, const VectorXd& q)
{
  tesseract::common::TransformMap t;
  const VectorXd f = scene.full(q);
  for (const auto& l : scene.links)
    t[l.name] = scene.pose(l, f);
  return t;
}
VectorXd side_gradient(const Scene& scene, const tc::ContactResult& r, size_t i, const VectorXd& q)
{
  const auto& l = *scene.find(r.link_names[i]);
  const VectorXd f = scene.full(q);
  const Eigen::MatrixXd jac = scene.jacobian(l, f);
  const Eigen::Vector3d arm = r.nearest_points[i] - scene.pose(l, f).translation();
  VectorXd g(jac.cols());
  for (Idx k = 0; k < jac.cols(); ++k)
  {
    const Eigen::Vector3d v = jac.col(k).head<3>(), w = jac.col(k).tail<3>();
    g[k] = (i ? -1.0 : 1.0) * r.normal.dot(v + w.cross(arm));  // of the error: minus that of the distance
  }
  return g;
}
Found find_contacts(const Settings& s, const VectorXd& q0, const VectorXd& q1, bool fixed0, bool fixed1, double edge)
{
  Found f;
  std::shared_ptr<Scene> quiet = std::make_shared<Scene>(*world.scene);
  quiet->on_test = [&] { ++f.tests; }, quiet->on_tested = nullptr;
  if (quiet->live)
  {
    const std::vector<double> now = s.dynamic || s.made.empty() ? *quiet->live : s.made;
    for (size_t j = 0; j < now.size(); ++j)
      quiet->joints[j].state = now[j];
  }
  auto poses_at = [&](const VectorXd& q) { return poses(*quiet, q); };
  Probe probe(quiet, poses_at(q0));
  std::vector<std::string> active;
  for (const auto& l : world.scene->links)
    if (world.scene->active(l))
      active.push_back(l.name);
  probe.setActiveCollisionObjects(active);
  tc::ContactManagerConfig c(s.margin);
  for (auto& m : s.margins)
    c.pair_margin_data.setCollisionMargin(std::get<0>(m), std::get<1>(m), std::get<2>(m));
  c.pair_margin_override_type = tc::CollisionMarginPairOverrideType::MODIFY;
  probe.applyContactManagerConfig(c);
  probe.incrementCollisionMargin(s.buffer + 1e-4);  // what is just outside makes the case unsure
  const bool two = s.type != CollisionEvaluatorType::DISCRETE;
  const bool cast = s.type == CollisionEvaluatorType::CONTINUOUS || s.type == CollisionEvaluatorType::LVS_CONTINUOUS;
  long segments = 1;
  if (two && s.type != CollisionEvaluatorType::CONTINUOUS)
  {
    const double n = (q1 - q0).norm() / s.lvs;
    if (n > 1)
      segments = (long)std::ceil(n);
    if (std::abs(n - std::round(n)) < 1e-6 && n > 0.5)
      f.unsure = true;
  }
  auto at = [&](double t) { return VectorXd(q0 + t * (q1 - q0)); };
  for (long i = 0; i < (two && !cast ? segments + 1 : segments); ++i)
  {
    const double t0 = two ? (double)i / (double)segments : 0, t1 = cast ? (double)(i + 1) / (double)segments : t0;
    const auto p0 = poses_at(at(t0)), p1 = poses_at(at(t1));
    probe.set(p0, p1);
    tc::ContactResultMap m;
    // CLOSEST with the true margins, everything with slightly larger ones
    probe.run(m, tc::ContactRequest(s.closest ? tc::ContactTestType::CLOSEST : tc::ContactTestType::ALL), cast);
    for (const auto& pair : m)
      for (const auto& r : pair.second)
      {
        Contact k;
        k.key = { r.link_names[0], r.link_names[1], r.shape_id[0], r.shape_id[1], r.subshape_id[0], r.subshape_id[1] };
        k.err = s.margin_of(r.link_names[0], r.link_names[1]) - r.distance;
        if (s.coeff_of(r.link_names[0], r.link_names[1]) == 0)
          continue;
        if (std::abs(k.err + s.buffer) < edge)
          f.unsure = true;
        if (k.err + s.buffer < 0)
          continue;
        double local = 0;
        if (cast)
        {
          for (int a = 0; a < 2; ++a)
            if (r.cc_type[(size_t)a] != tc::ContinuousCollisionType::CCType_None)
              local = r.cc_time[(size_t)a];
          // is the time of the contact settled?
          const Eigen::Vector3d v = (p1.at(r.link_names[1]).translation() - p1.at(r.link_names[0]).translation()) - (p0.at(r.link_names[1]).translation() - p0.at(r.link_names[0]).translation());
          if (v.norm() < 1e-3)
            k.flat = true;
          if ((local > 0 && local < 1e-4) || (local < 1 && local > 1 - 1e-4))
            k.flat = true;
        }
        k.s = t0 + local * (t1 - t0);
        if (two)
        {
          const bool first = cast ? i == 0 && local <= 0 : i == 0, last = cast ? i == segments - 1 && local >= 1 : i == segments;
          k.type = first ? 0 : last ? 1 : 2;
          if (cast && segments > 1 && last)
          {
            if (fixed1)
              f.unsure = true;
            k.type = 2;
          }
          if ((fixed0 && k.type == 0) || (fixed1 && k.type == 1))
            continue;
        }
        if (r.distance < -0.95 * 0.2)
          if ((r.nearest_points[1] - r.nearest_points[0]).norm() == 0)
            f.unsure = true;
        for (size_t a = 0; a < 2; ++a)
          if (world.scene->active(*world.scene->find(r.link_names[a])))
            k.g.push_back(side_gradient(*quiet, r, a, at(k.s)));
        f.contacts.push_back(k);
      }
  }
  return f;
}
}  // namespace
