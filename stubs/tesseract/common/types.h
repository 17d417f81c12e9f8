// Declarations of the tesseract library used by trajopt (it is not installed here); see DESIGN.md, trusted base.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
#include <tesseract/common/eigen_types.h>
namespace tesseract::common
{
using LinkNamesPair = std::pair<std::string, std::string>;
inline LinkNamesPair makeOrderedLinkPair(const std::string& link_name1, const std::string& link_name2)
{
  if (link_name1 <= link_name2)
    return LinkNamesPair(link_name1, link_name2);
  return LinkNamesPair(link_name2, link_name1);
}
}  // namespace tesseract::common
namespace std
{
template <> struct hash<tesseract::common::LinkNamesPair>
{
  std::size_t operator()(const tesseract::common::LinkNamesPair& p) const { return std::hash<std::string>()(p.first + p.second); }
};
}  // namespace std
namespace tesseract::common
{
inline void makeOrderedLinkPair(LinkNamesPair& pair, const std::string& link_name1, const std::string& link_name2)
{
  pair = makeOrderedLinkPair(link_name1, link_name2);
}
template <typename MapType, typename ValueType>
bool isIdenticalMap(const MapType& a, const MapType& b, const std::function<bool(const ValueType&, const ValueType&)>& eq = [](const ValueType& x, const ValueType& y) { return x == y; })
{
  if (a.size() != b.size()) return false;
  for (const auto& e : a)
  {
    auto it = b.find(e.first);
    if (it == b.end() || !eq(e.second, it->second)) return false;
  }
  return true;
}
template <typename SetType> bool isIdenticalSet(const SetType& a, const SetType& b) { return a == b; }
}  // namespace tesseract::common
