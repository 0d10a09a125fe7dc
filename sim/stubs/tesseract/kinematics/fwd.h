#pragma once
namespace tesseract::kinematics
{
class JointGroup;
class KinematicGroup;
}  // namespace tesseract::kinematics
