#pragma once
#include <map>
#include <string>
#include <vector>
#include <Eigen/Eigen>
namespace tesseract::common
{
template <typename T> using AlignedVector = std::vector<T, Eigen::aligned_allocator<T>>;
template <typename K, typename V> using AlignedMap = std::map<K, V>;
using VectorIsometry3d = AlignedVector<Eigen::Isometry3d>;
using VectorVector3d = AlignedVector<Eigen::Vector3d>;
using TransformMap = AlignedMap<std::string, Eigen::Isometry3d>;
using TrajArray = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
}  // namespace tesseract::common
