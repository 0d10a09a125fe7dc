#pragma once
namespace tesseract::environment
{
class Environment;
}  // namespace tesseract::environment
