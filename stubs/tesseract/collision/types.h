#pragma once
#include <array>
#include <limits>
#include <map>
#include <tesseract/common/types.h>
namespace tesseract::collision
{
enum class ContinuousCollisionType { CCType_None, CCType_Time0, CCType_Time1, CCType_Between };
enum class CollisionEvaluatorType { NONE, DISCRETE, LVS_DISCRETE, CONTINUOUS, LVS_CONTINUOUS };
enum class CollisionCheckProgramType { ALL, ALL_EXCEPT_START, ALL_EXCEPT_END, START_ONLY, END_ONLY, INTERMEDIATE_ONLY };
struct ContactResult
{
  double distance{ std::numeric_limits<double>::max() };
  std::array<int, 2> type_id{ 0, 0 };
  std::array<std::string, 2> link_names;
  std::array<int, 2> shape_id{ -1, -1 };
  std::array<int, 2> subshape_id{ -1, -1 };
  std::array<Eigen::Vector3d, 2> nearest_points;
  std::array<Eigen::Vector3d, 2> nearest_points_local;
  std::array<Eigen::Isometry3d, 2> transform;
  Eigen::Vector3d normal;
  std::array<double, 2> cc_time{ -1, -1 };
  std::array<ContinuousCollisionType, 2> cc_type{ ContinuousCollisionType::CCType_None, ContinuousCollisionType::CCType_None };
  std::array<Eigen::Isometry3d, 2> cc_transform;
  bool single_contact_point{ false };
};
using ContactResultVector = tesseract::common::AlignedVector<ContactResult>;
struct ContactResultMap {};
struct ContactRequest
{
  bool operator==(const ContactRequest&) const { return true; }
};
struct ContactManagerConfig
{
  ContactManagerConfig() = default;
  ContactManagerConfig(double) {}
  bool operator==(const ContactManagerConfig&) const { return true; }
};
struct CollisionCheckConfig
{
  CollisionCheckConfig(ContactRequest = ContactRequest(), CollisionEvaluatorType = CollisionEvaluatorType::DISCRETE, double = 0.005,
                       CollisionCheckProgramType = CollisionCheckProgramType::ALL) {}
  bool operator==(const CollisionCheckConfig&) const { return true; }
};
}  // namespace tesseract::collision
