// an arbitrary nonlinear program for the contracts on the SQP layer: variables and constraint sets with arbitrary data
#pragma once
#include "ifopt_spec.h"
#include <trajopt_ifopt/core/component.h>
#include <trajopt_ifopt/core/constraint_set.h>
namespace trajopt_lemmas
{
class AnyVars : public Variables
{
public:
  AnyVars(VectorXd x, std::vector<Bounds> b) : Variables("vars", static_cast<int>(x.size())), x_(std::move(x)), b_(std::move(b)) {}
  void setVariables(const VectorXd& x) override { x_ = x; ++hash_; }
  std::size_t getHash() const override { return hash_; }
  VectorXd getValues() const override { return x_; }
  std::vector<Bounds> getBounds() const override { return b_; }
  VectorXd x_;
  std::vector<Bounds> b_;
  std::size_t hash_{ 0 };
};
/// any constraint: values, bounds, Jacobian and coefficients are arbitrary
class AnySet : public ConstraintSet
{
public:
  AnySet(VectorXd v, std::vector<Bounds> b, Jacobian j, VectorXd c)
    : ConstraintSet("set", static_cast<int>(v.size())), v_(std::move(v)), b_(std::move(b)), j_(std::move(j)), c_(std::move(c))
  {
    non_zeros_ = 0;
  }
  int update() override { return rows_; }
  VectorXd getValues() const override { return v_; }
  VectorXd getCoefficients() const override { return c_; }
  std::vector<Bounds> getBounds() const override { return b_; }
  Jacobian getJacobian() const override { return j_; }
  VectorXd v_;
  std::vector<Bounds> b_;
  Jacobian j_;
  VectorXd c_;
};
inline bool fits(const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w, Index n)
{
  return static_cast<Index>(b.size()) == v.size() && j.rows() == v.size() && j.cols() == n && w.size() == v.size() && v.size() < 1000;
}
/// only bounds a slack variable exists for: no free rows and no two-sided ranges
inline bool one_sided(const std::vector<Bounds>& b)
{
  bool r = true;
  for (std::size_t i = 0; i < b.size(); ++i)
    if (r && !(b[i].getType() == BoundsType::kEquality || b[i].getType() == BoundsType::kLowerBound || b[i].getType() == BoundsType::kUpperBound)) r = false;
  return r;
}
inline bool equalities(const std::vector<Bounds>& b)
{
  bool r = true;
  for (std::size_t i = 0; i < b.size(); ++i)
    if (r && b[i].getType() != BoundsType::kEquality) r = false;
  return r;
}
inline bool same_ends(const std::vector<Bounds>& b)
{
  bool r = true;
  for (std::size_t i = 0; i < b.size(); ++i)
    if (r && lo(b[i]) != hi(b[i])) r = false;
  return r;
}
/// no derivative is so small that the subproblem drops it
inline bool no_tiny(const Jacobian& j)
{
  bool r = true;
  for (Index i = 0; i < j.rows(); ++i)
    for (Index c = 0; c < j.cols(); ++c)
      if (r && j.coeff(i, c) != 0 && std::fabs(j.coeff(i, c)) < 1e-7) r = false;
  return r;
}
inline bool nonneg(const VectorXd& w)
{
  bool r = true;
  for (Index i = 0; i < w.size(); ++i)
    if (r && w(i) < 0) r = false;
  return r;
}
}  // namespace trajopt_lemmas
