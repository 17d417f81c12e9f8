#pragma once
#include <limits>
#include <cmath>
#include <algorithm>
#include <Eigen/Eigen>
#include <tesseract/common/types.h>
namespace tesseract::common
{
inline bool almostEqualRelativeAndAbs(double a, double b, double max_diff = 1e-6, double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  const double diff = std::fabs(a - b);
  if (diff <= max_diff) return true;
  return diff <= std::max(std::fabs(a), std::fabs(b)) * max_rel_diff;
}
bool almostEqualRelativeAndAbs(const Eigen::Ref<const Eigen::VectorXd>& v1, const Eigen::Ref<const Eigen::VectorXd>& v2,
                               double max_diff = 1e-6, double max_rel_diff = std::numeric_limits<double>::epsilon());
void jacobianChangeRefPoint(Eigen::Ref<Eigen::MatrixXd> jacobian, const Eigen::Ref<const Eigen::Vector3d>& ref_point);
}  // namespace tesseract::common
