// Stand-in for tesseract_common.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/StdVector>
#include <map>
#include <string>
#include <utility>
#include <vector>
namespace tesseract::common
{
template <typename T>
using AlignedVector = std::vector<T, Eigen::aligned_allocator<T>>;
template <typename Key, typename Value>
using AlignedMap = std::map<Key, Value, std::less<Key>, Eigen::aligned_allocator<std::pair<const Key, Value>>>;
using VectorIsometry3d = AlignedVector<Eigen::Isometry3d>;
using TransformMap = AlignedMap<std::string, Eigen::Isometry3d>;
using TrajArray = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
}  // namespace tesseract::common
