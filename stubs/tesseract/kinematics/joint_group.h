#pragma once
#include <string>
#include <vector>
#include <Eigen/Eigen>
namespace tesseract::kinematics
{
class JointGroup
{
public:
  virtual ~JointGroup() = default;
  virtual Eigen::MatrixXd calcJacobian(const Eigen::VectorXd& joint_angles, const std::string& link_name) const = 0;
  virtual bool isActiveLinkName(const std::string& link_name) const = 0;
};
}  // namespace tesseract::kinematics
