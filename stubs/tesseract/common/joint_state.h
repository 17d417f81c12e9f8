#pragma once
#include <string>
#include <vector>
#include <Eigen/Core>
namespace tesseract::common
{
class JointState
{
public:
  JointState() = default;
  JointState(std::vector<std::string> joint_names, Eigen::VectorXd position) : joint_names(std::move(joint_names)), position(std::move(position)) {}
  std::vector<std::string> joint_names;
  Eigen::VectorXd position, velocity, acceleration, effort;
  double time{ 0 };
};
class JointTrajectory
{
public:
  std::vector<JointState> states;
  std::string description;
  void push_back(const JointState& s) { states.push_back(s); }
  void reserve(std::size_t n) { states.reserve(n); }
};
}  // namespace tesseract::common
