// Stand-in for tesseract_collision: the types, and the map of contacts with the behaviour of the real one (clearing keeps the keys).
#pragma once
#include <tesseract/common/collision_margin_data.h>
#include <tesseract/common/eigen_types.h>
#include <tesseract/common/types.h>
#include <algorithm>
#include <array>
#include <cassert>
#include <functional>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
namespace tesseract::collision
{
enum class ContinuousCollisionType
{
  CCType_None,
  CCType_Time0,
  CCType_Time1,
  CCType_Between
};
enum class ContactTestType
{
  FIRST,
  CLOSEST,
  ALL,
  LIMITED
};
enum class CollisionEvaluatorType
{
  NONE,
  DISCRETE,
  LVS_DISCRETE,
  CONTINUOUS,
  LVS_CONTINUOUS
};
enum class CollisionCheckProgramType
{
  ALL,
  ALL_EXCEPT_START,
  ALL_EXCEPT_END
};
enum class CollisionMarginPairOverrideType
{
  NONE,
  MODIFY,
  REPLACE
};
struct ContactRequest
{
  ContactTestType type = ContactTestType::ALL;
  ContactRequest(ContactTestType t = ContactTestType::ALL) : type(t) {}
  bool operator==(const ContactRequest& r) const { return type == r.type; }
};
struct ContactResult
{
  double distance = 1e300;
  std::array<int, 2> type_id{ 0, 0 };
  std::array<std::string, 2> link_names;
  std::array<int, 2> shape_id{ -1, -1 };
  std::array<int, 2> subshape_id{ -1, -1 };
  std::array<Eigen::Vector3d, 2> nearest_points;
  std::array<Eigen::Vector3d, 2> nearest_points_local;
  std::array<Eigen::Isometry3d, 2> transform;
  Eigen::Vector3d normal = Eigen::Vector3d::Zero();
  std::array<double, 2> cc_time{ -1, -1 };
  std::array<ContinuousCollisionType, 2> cc_type{ ContinuousCollisionType::CCType_None, ContinuousCollisionType::CCType_None };
  std::array<Eigen::Isometry3d, 2> cc_transform;
};
using ContactResultVector = tesseract::common::AlignedVector<ContactResult>;
class ContactResultMap
{
public:
  using KeyType = std::pair<std::string, std::string>;
  using MappedType = ContactResultVector;
  using ContainerType = tesseract::common::AlignedMap<KeyType, MappedType>;
  using PairType = std::pair<const KeyType, MappedType>;
  using FilterFn = std::function<void(PairType&)>;
  ContactResult& addContactResult(const KeyType& key, ContactResult r)
  {
    ++count_;
    auto& v = data_[key];
    return v.emplace_back(std::move(r));
  }
  void addInterpolatedCollisionResults(ContactResultMap& sub, long index, long last, const std::vector<std::string>& active, double dt, bool discrete, const FilterFn& filter)
  {
    for (auto& pair : sub.data_)
    {
      for (auto& r : pair.second)
        for (size_t j = 0; j < 2; ++j)
        {
          if (std::find(active.begin(), active.end(), r.link_names[j]) == active.end())
            continue;
          r.cc_time[j] = r.cc_time[j] < 0 ? (double)index * dt : (double)index * dt + r.cc_time[j] * dt;
          if (index == 0 && (r.cc_type[j] == ContinuousCollisionType::CCType_Time0 || discrete))
            r.cc_type[j] = ContinuousCollisionType::CCType_Time0;
          else if (index == last && (r.cc_type[j] == ContinuousCollisionType::CCType_Time1 || discrete))
            r.cc_type[j] = ContinuousCollisionType::CCType_Time1;
          else
            r.cc_type[j] = ContinuousCollisionType::CCType_Between;
          if (discrete)
            r.cc_transform = r.transform;
        }
      if (filter)
        filter(pair);
      if (!pair.second.empty())
      {
        auto& v = data_[pair.first];
        v.insert(v.end(), pair.second.begin(), pair.second.end());
        count_ += (long)pair.second.size();
      }
    }
  }
  long count() const { return count_; }
  std::size_t size() const
  {
    std::size_t n = 0;
    for (const auto& p : data_)
      n += !p.second.empty();
    return n;
  }
  bool empty() const { return count_ == 0; }
  void clear()
  {
    for (auto& p : data_)
      p.second.clear();
    count_ = 0;
  }
  void filter(const FilterFn& fn)
  {
    long n = 0;
    for (auto& p : data_)
    {
      fn(p);
      n += (long)p.second.size();
    }
    count_ = n;
  }
  void flattenWrapperResults(std::vector<std::reference_wrapper<const ContactResult>>& v) const
  {
    v.clear();
    v.reserve((size_t)count_);
    for (const auto& p : data_)
      v.insert(v.end(), p.second.begin(), p.second.end());
  }
  ContainerType::const_iterator begin() const { return data_.begin(); }
  ContainerType::const_iterator end() const { return data_.end(); }
  ContainerType::const_iterator find(const KeyType& k) const { return data_.find(k); }

private:
  ContainerType data_;
  long count_ = 0;
};
struct ContactManagerConfig
{
  ContactManagerConfig() = default;
  ContactManagerConfig(double margin) : default_margin(margin) {}
  std::optional<double> default_margin;
  tesseract::common::CollisionMarginPairData pair_margin_data;
  CollisionMarginPairOverrideType pair_margin_override_type = CollisionMarginPairOverrideType::NONE;
  bool operator==(const ContactManagerConfig& r) const
  {
    return default_margin == r.default_margin && pair_margin_data == r.pair_margin_data && pair_margin_override_type == r.pair_margin_override_type;
  }
};
struct CollisionCheckConfig
{
  CollisionCheckConfig() = default;
  CollisionCheckConfig(ContactRequest request, CollisionEvaluatorType t, double lvs, CollisionCheckProgramType mode)
    : contact_request(std::move(request)), type(t), longest_valid_segment_length(lvs), check_program_mode(mode)
  {
  }
  ContactRequest contact_request;
  CollisionEvaluatorType type = CollisionEvaluatorType::DISCRETE;
  double longest_valid_segment_length = 0.005;
  CollisionCheckProgramType check_program_mode = CollisionCheckProgramType::ALL;
  bool operator==(const CollisionCheckConfig& r) const
  {
    return contact_request == r.contact_request && type == r.type && longest_valid_segment_length == r.longest_valid_segment_length && check_program_mode == r.check_program_mode;
  }
};
}  // namespace tesseract::collision
