// Stand-ins for the contact managers: exact distances of spheres at given poses, or along a linear motion between two.
#pragma once
#include <tesseract/collision/types.h>
#include <tesseract/scene.h>
#include <algorithm>
#include <memory>
#include <set>
namespace tesseract::collision
{
class ManagerBase
{
public:
  ManagerBase(std::shared_ptr<const Scene> s, common::TransformMap poses) : s_(std::move(s)), pose0_(poses), pose1_(std::move(poses)) {}
  void setActiveCollisionObjects(const std::vector<std::string>& names) { active_ = std::set<std::string>(names.begin(), names.end()); }
  void applyContactManagerConfig(const ContactManagerConfig& c)
  {
    if (c.default_margin)
      margin_.setDefaultCollisionMargin(*c.default_margin);
    if (c.pair_margin_override_type != CollisionMarginPairOverrideType::NONE)
      for (const auto& p : c.pair_margin_data.pairs)
        margin_.setCollisionMargin(p.first.first, p.first.second, p.second);
  }
  const common::CollisionMarginData& getCollisionMarginData() const { return margin_; }
  void incrementCollisionMargin(double d) { margin_.incrementMargins(d); }
  void setCollisionObjectsTransform(const std::string& n, const Eigen::Isometry3d& p) { pose0_[n] = pose1_[n] = p; }
  void setCollisionObjectsTransform(const common::TransformMap& m)
  {
    for (const auto& p : m)
      setCollisionObjectsTransform(p.first, p.second);
  }

protected:
  void test(ContactResultMap& out, const ContactRequest& req, bool cast) const
  {
    if (s_->on_test)
      s_->on_test();
    const auto& links = s_->links;
    for (size_t a = 0; a < links.size(); ++a)
      for (size_t b = 0; b < links.size(); ++b)
      {
        if (!(links[a].name < links[b].name))
          continue;
        const bool act[2] = { active_.count(links[a].name) != 0, active_.count(links[b].name) != 0 };
        if (!act[0] && !act[1])
          continue;
        if (links[a].joint >= 0 && links[b].joint >= 0 && (s_->parent_joint(links[a].joint) == links[b].joint || s_->parent_joint(links[b].joint) == links[a].joint || links[a].joint == links[b].joint))
          continue;  // adjacent links are allowed to touch
        const double limit = s_->per_pair ? margin_.getCollisionMargin(links[a].name, links[b].name) : margin_.getMaxCollisionMargin();
        const ContactResult* best = nullptr;
        ContactResultVector found;
        for (const auto& sa : links[a].spheres)
          for (const auto& sb : links[b].spheres)
          {
            ContactResult r = contact(links[a], sa, links[b], sb, act, cast);
            if (r.distance <= limit)
              found.push_back(r);
          }
        for (const auto& r : found)
          if (!best || r.distance < best->distance)
            best = &r;
        const ContactResultMap::KeyType key(links[a].name, links[b].name);
        if (req.type == ContactTestType::CLOSEST)
        {
          if (best)
            out.addContactResult(key, *best);
        }
        else
          for (const auto& r : found)
            out.addContactResult(key, r);
      }
    if (s_->on_tested)
      s_->on_tested();
  }
  ContactResult contact(const SceneLink& a, const Sphere& sa, const SceneLink& b, const Sphere& sb, const bool act[2], bool cast) const
  {
    const SceneLink* l[2] = { &a, &b };
    const Sphere* s[2] = { &sa, &sb };
    Eigen::Isometry3d p0[2], p1[2];
    Eigen::Vector3d c0[2], c1[2], c[2];
    for (int i = 0; i < 2; ++i)
    {
      p0[i] = pose0_.at(l[i]->name), p1[i] = pose1_.at(l[i]->name);
      c0[i] = p0[i] * s[i]->at, c1[i] = p1[i] * s[i]->at;
    }
    double t = 0;
    const Eigen::Vector3d d0 = c0[1] - c0[0], v = (c1[1] - c1[0]) - d0;
    if (cast && v.norm() > 1e-9)
      t = std::min(1.0, std::max(0.0, -d0.dot(v) / v.squaredNorm()));
    ContactResult r;
    for (int i = 0; i < 2; ++i)
      c[i] = c0[i] + t * (c1[i] - c0[i]);
    const Eigen::Vector3d d = c[1] - c[0];
    const double n = d.norm();
    r.distance = n - sa.r - sb.r;
    r.normal = n > 0 ? Eigen::Vector3d(d / n) : Eigen::Vector3d(1, 0, 0);
    for (int i = 0; i < 2; ++i)
    {
      r.link_names[(size_t)i] = l[i]->name;
      r.shape_id[(size_t)i] = s[i]->shape, r.subshape_id[(size_t)i] = s[i]->sub;
      r.transform[(size_t)i] = p0[i], r.cc_transform[(size_t)i] = p1[i];
      const Eigen::Vector3d p = c[i] + (i ? -1.0 : 1.0) * s[i]->r * r.normal;
      r.nearest_points[(size_t)i] = p;
      Eigen::Isometry3d at = p0[i];
      at.translation() += t * (p1[i].translation() - p0[i].translation());
      if (cast && !(p0[i].linear() == p1[i].linear()))
        at.linear() = Eigen::Quaterniond(p0[i].linear()).slerp(t, Eigen::Quaterniond(p1[i].linear())).toRotationMatrix();
      r.nearest_points_local[(size_t)i] = at.inverse() * p;
      if (cast && act[i])
      {
        r.cc_time[(size_t)i] = t;
        r.cc_type[(size_t)i] = t <= 0 ? ContinuousCollisionType::CCType_Time0 : t >= 1 ? ContinuousCollisionType::CCType_Time1 : ContinuousCollisionType::CCType_Between;
      }
    }
    return r;
  }
  std::shared_ptr<const Scene> s_;
  std::set<std::string> active_;
  common::CollisionMarginData margin_;
  common::TransformMap pose0_, pose1_;
};
class DiscreteContactManager : public ManagerBase
{
public:
  using ManagerBase::ManagerBase;
  void contactTest(ContactResultMap& out, const ContactRequest& req) { test(out, req, false); }
};
class ContinuousContactManager : public ManagerBase
{
public:
  using ManagerBase::ManagerBase;
  using ManagerBase::setCollisionObjectsTransform;
  void setCollisionObjectsTransform(const std::string& n, const Eigen::Isometry3d& p0, const Eigen::Isometry3d& p1) { pose0_[n] = p0, pose1_[n] = p1; }
  void setCollisionObjectsTransform(const common::TransformMap& m0, const common::TransformMap& m1)
  {
    for (const auto& p : m0)
      pose0_[p.first] = p.second;
    for (const auto& p : m1)
      pose1_[p.first] = p.second;
  }
  void contactTest(ContactResultMap& out, const ContactRequest& req) { test(out, req, true); }
};
}  // namespace tesseract::collision
