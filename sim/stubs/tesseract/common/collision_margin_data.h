// Stand-in for tesseract_common.
#pragma once
#include <tesseract/common/types.h>
#include <map>
namespace tesseract::common
{
struct CollisionMarginPairData
{
  void setCollisionMargin(const std::string& a, const std::string& b, double m) { pairs[makeOrderedLinkPair(a, b)] = m; }
  bool operator==(const CollisionMarginPairData& r) const { return pairs == r.pairs; }
  std::map<LinkNamesPair, double> pairs;
};
class CollisionMarginData
{
public:
  CollisionMarginData(double def = 0) : default_(def) {}
  double getDefaultCollisionMargin() const { return default_; }
  void setDefaultCollisionMargin(double m) { default_ = m; }
  void setCollisionMargin(const std::string& a, const std::string& b, double m) { pairs_[makeOrderedLinkPair(a, b)] = m; }
  double getCollisionMargin(const std::string& a, const std::string& b) const
  {
    auto it = pairs_.find(makeOrderedLinkPair(a, b));
    return it == pairs_.end() ? default_ : it->second;
  }
  double getMaxCollisionMargin() const
  {
    double m = default_;
    for (const auto& p : pairs_)
      m = p.second > m ? p.second : m;
    return m;
  }
  void incrementMargins(double d)
  {
    default_ += d;
    for (auto& p : pairs_)
      p.second += d;
  }
  bool operator==(const CollisionMarginData& r) const { return default_ == r.default_ && pairs_ == r.pairs_; }

private:
  double default_;
  std::map<LinkNamesPair, double> pairs_;
};
}  // namespace tesseract::common
