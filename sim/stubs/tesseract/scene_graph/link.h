#pragma once
#include <Eigen/Core>
#include <memory>
#include <string>
namespace tesseract::scene_graph
{
struct Material
{
  using Ptr = std::shared_ptr<Material>;
  explicit Material(std::string n) : name(std::move(n)) {}
  std::string name;
  Eigen::Vector4d color;
};
}  // namespace tesseract::scene_graph
