#pragma once
namespace tesseract::common
{
struct JointState;
struct JointTrajectory;
}  // namespace tesseract::common
