// executions only: sets whose rows, values and bounds follow from a number and the variables
#pragma once
#include "qp_spec.h"
namespace trajopt_lemmas
{
/// a cost or constraint (kind: 0 squared, 1 hinge, 2 absolute, 3 constraint), its rows change with the variables if dynamic
class Changing : public AnySet
{
public:
  Changing(std::string name, bool dynamic, int kind, Index n, unsigned seed) : AnySet(VectorXd(0), {}, Jacobian(0, n), VectorXd(0)), kind_(kind), n_(n), seed_(seed)
  {
    name_ = std::move(name);
    dynamic_ = dynamic;
    fill(VectorXd::Zero(n));
  }
  double next(double x)
  {
    state_ = state_ * 1103515245u + 12345u;
    return static_cast<double>((state_ >> 16) % 17) * 0.5 - 4.0 + 0 * x;
  }
  void fill(const VectorXd& x)
  {
    state_ = seed_;
    for (Index c = 0; c < x.size(); ++c) state_ = state_ * 31u + static_cast<unsigned>(static_cast<long>(x(c) * 8));
    if (!dynamic_ && rows0_ < 0) rows0_ = static_cast<int>((seed_ >> 8) % 3 + 1);
    next(0);
    const int m = dynamic_ ? static_cast<int>((state_ >> 16) % 4) : rows0_;
    if (!dynamic_) state_ = seed_;
    rows_ = m;
    v_.resize(m);
    c_.resize(m);
    std::vector<Eigen::Triplet<double>> t;
    b_.clear();
    for (int r = 0; r < m; ++r)
    {
      c_(r) = std::fabs(next(0)) + 0.5;
      const double a = next(0);
      const int k = kind_ == 1 ? 1 + static_cast<int>(std::fabs(next(0)) * 2) % 2 : kind_ == 3 ? static_cast<int>(std::fabs(next(0)) * 2) % 3 : 0;
      if (k == 0) b_.emplace_back(a, a);
      if (k == 1) b_.emplace_back(a, static_cast<double>(INFINITY));
      if (k == 2) b_.emplace_back(-static_cast<double>(INFINITY), a);
    }
    for (int r = 0; r < m; ++r) v_(r) = next(0);
    for (int r = 0; r < m; ++r)
      for (Index c = 0; c < n_; ++c)
        if (const double e = next(0); e > -1) t.emplace_back(r, c, e);
    if (!dynamic_)
      for (int r = 0; r < m; ++r) v_(r) += x.sum();
    j_ = Jacobian(m, n_);
    j_.setFromTriplets(t.begin(), t.end());
    non_zeros_ = static_cast<Index>(t.size());
  }
  int update() override
  {
    fill(getVariables()->getValues());
    return rows_;
  }
  int kind_, rows0_{ -1 };
  Index n_;
  unsigned seed_, state_{ 0 };
};
inline double missed(double v, const Bounds& b) { return v < lo(b) ? lo(b) - v : v > hi(b) ? v - hi(b) : 0; }
inline bool close(double a, double b) { return a == b || std::fabs(a - b) < 1e-6 * (1 + std::fabs(a) + std::fabs(b)); }
}  // namespace trajopt_lemmas
