// vocabulary shared by the contracts on trajopt_ifopt / trajopt_sqp
#pragma once
#include "spec.h"
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/core/eigen_types.h>
#ifndef VERIF_STATIC
namespace spec
{
template <> struct Gen<trajopt_ifopt::Bounds>
{
  static trajopt_ifopt::Bounds make(Rng& r)
  {
    double a = r.d(), b = r.d();
    if (a > b) std::swap(a, b);
    switch (r.kind >= 0 ? r.kind : r.i(0, 7))
    {
      case 0: return { -static_cast<double>(INFINITY), b };
      case 1: return { a, static_cast<double>(INFINITY) };
      case 2: return { a, a };
      case 3: return { -static_cast<double>(INFINITY), static_cast<double>(INFINITY) };
      default: return { a, b };
    }
  }
};
}  // namespace spec
#endif
namespace trajopt_lemmas
{
using namespace trajopt_ifopt;
using Eigen::Index;
using Eigen::VectorXd;
inline double lo(const Bounds& b) { return b.getLower(); }
inline double hi(const Bounds& b) { return b.getUpper(); }
inline std::size_t U(Index i) { return static_cast<std::size_t>(i); }
inline bool ordered(const std::vector<Bounds>& b)
{
  bool r = true;
  for (std::size_t i = 0; i < b.size(); ++i)
    if (r && lo(b[i]) > hi(b[i])) r = false;
  return r;
}
}  // namespace trajopt_lemmas
