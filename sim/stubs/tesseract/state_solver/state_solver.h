// Stand-in for tesseract_state_solver.
#pragma once
#include <map>
#include <string>
namespace tesseract::scene_graph
{
struct SceneState
{
  std::map<std::string, double> joints;
};
class StateSolver
{
};
}  // namespace tesseract::scene_graph
