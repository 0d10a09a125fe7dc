// Stand-in for getHash of trajopt_common/src/collision_utils.cpp, which needs tesseract for everything else in that file.
#include <trajopt_common/collision_utils.h>
#include <boost/functional/hash.hpp>
namespace trajopt_common
{
std::size_t getHash(const void* parent, const Eigen::Ref<const Eigen::VectorXd>& v)
{
  std::size_t seed = 0;
  boost::hash_combine(seed, parent);
  for (Eigen::Index i = 0; i < v.rows(); ++i)
    boost::hash_combine(seed, v[i]);
  return seed;
}
}  // namespace trajopt_common
