#pragma once
namespace tesseract::visualization
{
class Visualization;
}  // namespace tesseract::visualization
