// C17: numerical differentiation
#include "ifopt_spec.h"
#include <trajopt_sco/num_diff.hpp>
#include <trajopt_ifopt/core/component.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/utils/ifopt_utils.h>
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { r.n = r.i(1, 4); } }
#endif
namespace sco_lemmas
{
using Eigen::Index;
using Eigen::VectorXd;
/// the base point with coordinate i moved by d
inline VectorXd moved(const VectorXd& x, Index i, double d)
{
  VectorXd p = x;
  p(i) = x(i) + d;
  return p;
}
inline Index differing(const VectorXd& a, const VectorXd& b)
{
  Index n = 0;
  for (Index k = 0; k < a.size(); ++k)
    if (a(k) != b(k)) ++n;
  return n;
}
/// arbitrary functions of a vector that check where they are evaluated: `near` of the coordinates may differ from the base point
class AnyScalar : public sco::ScalarOfVector
{
public:
  AnyScalar(VectorXd x, Index near) : x_(std::move(x)), near_(near) {}
  double operator()(const VectorXd& x) const override
  {
    ENSURE("evaluated at points of the right size", x.size() == x_.size());
    ENSURE("evaluated only at the base point or with the perturbed coordinates moved", differing(x, x_) <= near_);
    return spec::oracle(x, 0);
  }
  VectorXd x_;
  Index near_;
};
class AnyVector : public sco::VectorOfVector
{
public:
  AnyVector(VectorXd x, Index m) : x_(std::move(x)), m_(m) {}
  VectorXd operator()(const VectorXd& x) const override
  {
    ENSURE("evaluated at points of the right size", x.size() == x_.size());
    ENSURE("evaluated only at the base point or with one coordinate moved", differing(x, x_) <= 1);
    VectorXd r(m_);
    for (Index j = 0; j < m_; ++j) r(j) = spec::oracle(x, j);
    return r;
  }
  VectorXd x_;
  Index m_;
};
LEMMA(L_forward_gradient, const VectorXd& x, double eps, Index i)
{
  REQUIRE(eps > 0 && 0 <= i && i < x.size());
  const AnyScalar f(x, 1);
  const VectorXd g = sco::calcForwardNumGrad(f, x, eps);
  ENSURE_EQI("one entry per coordinate", g.size(), x.size());
  ENSURE_EQ("forward difference", g(i), (spec::oracle(moved(x, i, eps), 0) - spec::oracle(x, 0)) / eps);
}
LEMMA(L_forward_jacobian, const VectorXd& x, double eps, Index m, Index j, Index i)
{
  REQUIRE(eps > 0 && 0 <= i && i < x.size() && 0 <= j && j < m);
  const AnyVector f(x, m);
  const Eigen::MatrixXd g = sco::calcForwardNumJac(f, x, eps);
  ENSURE("one row per value, one column per coordinate", g.rows() == m && g.cols() == x.size());
  ENSURE_EQ("forward difference", g(j, i), (spec::oracle(moved(x, i, eps), j) - spec::oracle(x, j)) / eps);
}
LEMMA(L_function_objects, const VectorXd& x, double eps, Index m, Index j, Index i)
{
  REQUIRE(eps > 0 && 0 <= i && i < x.size() && 0 <= j && j < m);
  const VectorXd g = sco::forwardNumGrad(std::make_shared<AnyScalar>(x, 1), eps)->call(x);
  ENSURE_EQI("gradient: size", g.size(), x.size());
  ENSURE_EQ("gradient: forward difference", g(i), (spec::oracle(moved(x, i, eps), 0) - spec::oracle(x, 0)) / eps);
  const Eigen::MatrixXd h = sco::forwardNumJac(std::make_shared<AnyVector>(x, m), eps)->call(x);
  ENSURE("Jacobian: size", h.rows() == m && h.cols() == x.size());
  ENSURE_EQ("Jacobian: forward difference", h(j, i), (spec::oracle(moved(x, i, eps), j) - spec::oracle(x, j)) / eps);
}
LEMMA(L_diagonal_hessian, const VectorXd& x, double eps, Index i)
{
  REQUIRE(eps > 0 && 0 <= i && i < x.size());
  const AnyScalar f(x, 1);
  double y = 0;
  VectorXd g, h;
  sco::calcGradAndDiagHess(f, x, eps, y, g, h);
  ENSURE_EQ("value", y, spec::oracle(x, 0));
  ENSURE("one entry per coordinate", g.size() == x.size() && h.size() == x.size());
  const double p = spec::oracle(moved(x, i, eps / 2), 0), q = spec::oracle(moved(x, i, -eps / 2), 0);
  ENSURE_EQ("central difference", g(i), (p - q) / eps);
  ENSURE_EQ("second difference", h(i), (p - 2 * spec::oracle(x, 0) + q) / ((eps / 2) * (eps / 2)));
}
LEMMA(L_hessian, const VectorXd& x, double eps, Index i, Index j)
{
  REQUIRE(eps > 0 && 0 <= i && i < x.size() && 0 <= j && j < x.size());
  double y = 0;
  VectorXd g;
  Eigen::MatrixXd h;
  sco::calcGradHess(std::make_shared<AnyScalar>(x, 2), x, eps, y, g, h);
  ENSURE_EQ("value", y, spec::oracle(x, 0));
  ENSURE_EQI("gradient: size", g.size(), x.size());
  ENSURE_EQ("gradient: forward difference", g(i), (spec::oracle(moved(x, i, eps), 0) - spec::oracle(x, 0)) / eps);
  ENSURE("Hessian: size", h.rows() == x.size() && h.cols() == x.size());
  const double fij = spec::oracle(moved(moved(x, i, eps), j, eps), 0), fji = spec::oracle(moved(moved(x, j, eps), i, eps), 0);
  ENSURE_EQ("Hessian: symmetrised forward differences", h(i, j),
            ((fij + fji) / 2 - spec::oracle(moved(x, i, eps), 0) - spec::oracle(moved(x, j, eps), 0) + spec::oracle(x, 0)) / eps / eps);
}
}  // namespace sco_lemmas
namespace trajopt_lemmas
{
using sco_lemmas::moved;
using sco_lemmas::differing;
/// variables and constraints of a nonlinear program, evaluated on demand
class AnyVars : public Variables
{
public:
  AnyVars(VectorXd x) : Variables("any", static_cast<int>(x.size())), x_(std::move(x)) {}
  void setVariables(const VectorXd& x) override { x_ = x; }
  std::size_t getHash() const override { return 0; }
  VectorXd getValues() const override { return x_; }
  std::vector<Bounds> getBounds() const override { return {}; }
  VectorXd x_;
};
class AnyRows : public ConstraintSet
{
public:
  AnyRows(std::shared_ptr<AnyVars> v, std::vector<Bounds> b) : ConstraintSet("rows", static_cast<int>(b.size())), v_(std::move(v)), b_(std::move(b)), base_(v_->x_), at_(v_->x_) { non_zeros_ = 0; }
  int update() override { at_ = v_->x_; return rows_; }
  VectorXd getValues() const override
  {
    ENSURE("evaluated only at the base point or with one coordinate moved", differing(at_, base_) <= 1);
    VectorXd r(getRows());
    for (Index j = 0; j < getRows(); ++j) r(j) = spec::oracle(at_, j);
    return r;
  }
  VectorXd getCoefficients() const override { return VectorXd::Ones(getRows()); }
  std::vector<Bounds> getBounds() const override { return b_; }
  Jacobian getJacobian() const override { return Jacobian(); }
  std::shared_ptr<AnyVars> v_;
  std::vector<Bounds> b_;
  VectorXd base_, at_;
};
LEMMA(L_constraint_set, const VectorXd& x, const std::vector<Bounds>& b, double eps, Index j, Index i)
{
  REQUIRE(eps > 0 && 0 <= i && i < x.size() && 0 <= j && j < static_cast<Index>(b.size()) && b.size() < 1000 && x.size() < 1000);
  auto v = std::make_shared<AnyVars>(x);
  AnyRows c(v, b);
  const Jacobian g = calcNumericalConstraintGradient(*v, c, eps);
  ENSURE("one row per constraint, one column per variable", g.rows() == static_cast<Index>(b.size()) && g.cols() == x.size());
  ENSURE_EQ("forward difference", g.coeff(j, i), (spec::oracle(moved(x, i, eps), j) - spec::oracle(x, j)) / eps);
  ENSURE_EQI("variables restored: size", v->x_.size(), x.size());
  ENSURE_EQ("variables restored", v->x_(i), x(i));
  ENSURE_EQ("constraints restored", c.at_(i), x(i));
}
class AnyCost : public CostTerm
{
public:
  AnyCost(std::shared_ptr<AnyVars> v) : CostTerm("cost"), v_(std::move(v)), base_(v_->x_), at_(v_->x_) { non_zeros_ = 0; }
  int update() override { at_ = v_->x_; return rows_; }
  double getCost() const override
  {
    ENSURE("evaluated only at the given point or with one coordinate moved", differing(at_, base_) <= 1);
    return spec::oracle(at_, -1);
  }
  VectorXd getCoefficients() const override { return VectorXd::Ones(1); }
  Jacobian getJacobian() const override { return Jacobian(); }
  std::shared_ptr<AnyVars> v_;
  VectorXd base_, at_;
};
LEMMA(L_problem_cost, const VectorXd& start, const VectorXd& x, double eps, Index i)
{
  REQUIRE(eps > 0 && 0 <= i && i < x.size() && start.size() == x.size() && x.size() < 1000);
  auto v = std::make_shared<AnyVars>(start);
  auto c = std::make_shared<AnyCost>(v);
  c->base_ = x;
  Problem p(v);
  p.addCostSet(c);
  const VectorXd g = calcNumericalCostGradient(x.data(), p, eps);
  ENSURE_EQI("one entry per variable", g.size(), x.size());
  ENSURE_EQ("forward difference", g(i), (spec::oracle(moved(x, i, eps), -1) - spec::oracle(x, -1)) / eps);
  ENSURE_EQI("variables restored: size", v->x_.size(), x.size());
  ENSURE_EQ("variables restored", v->x_(i), start(i));
  ENSURE_EQ("cost restored", c->at_(i), start(i));
}
LEMMA(L_problem_own_gradient, const VectorXd& x, double eps, Index i)
{
  REQUIRE(eps > 0 && 0 <= i && i < x.size() && x.size() < 1000);
  auto v = std::make_shared<AnyVars>(x);
  auto c = std::make_shared<AnyCost>(v);
  Problem p(v);
  p.addCostSet(c);
  const VectorXd g = p.evaluateCostFunctionGradient(true, eps);
  ENSURE_EQI("one entry per variable", g.size(), x.size());
  ENSURE_EQ("forward difference", g(i), (spec::oracle(moved(x, i, eps), -1) - spec::oracle(x, -1)) / eps);
  ENSURE_EQ("variables restored", v->x_(i), x(i));
  ENSURE_EQ("cost restored", c->at_(i), x(i));
}
LEMMA(L_problem_constraints, const VectorXd& start, const VectorXd& x, const std::vector<Bounds>& b, double eps, Index j, Index i)
{
  REQUIRE(eps > 0 && 0 <= i && i < x.size() && start.size() == x.size() && x.size() < 1000);
  REQUIRE(0 <= j && j < static_cast<Index>(b.size()) && b.size() < 1000);
  auto v = std::make_shared<AnyVars>(start);
  auto c = std::make_shared<AnyRows>(v, b);
  c->base_ = x;
  Problem p(v);
  p.addConstraintSet(c);
  const Jacobian g = calcNumericalConstraintGradient(x.data(), p, eps);
  ENSURE("one row per constraint, one column per variable", g.rows() == static_cast<Index>(b.size()) && g.cols() == x.size());
  ENSURE_EQ("forward difference", g.coeff(j, i), (spec::oracle(moved(x, i, eps), j) - spec::oracle(x, j)) / eps);
  ENSURE_EQ("variables restored", v->x_(i), start(i));
  ENSURE_EQ("constraints restored", c->at_(i), start(i));
}
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
