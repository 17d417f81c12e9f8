// C13: the SQP subproblem of TrajOptQPProblem represents the linearised problem exactly
#include "qp_spec.h"
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/types.h>
#include <trajopt_ifopt/core/problem.h>
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { r.n = r.i(1, 4); r.sizes_fixed = r.i(0, 3) != 0; } }
#endif
#ifndef VERIF_STATIC
#include "qp_exec.h"
#endif
namespace trajopt_lemmas
{
using trajopt_sqp::TrajOptQPProblem;
inline double cut(double x) { return std::fabs(x) < 1e-7 ? 0.0 : x; }
/// the linearised row at zero
inline double offset(const VectorXd& v, const Jacobian& j, const VectorXd& x, Index r)
{
  double s = v(r);
  for (Index c = 0; c < x.size(); ++c) s -= j.coeff(r, c) * x(c);
  return s;
}
inline Index slacks(const Bounds& b) { return b.getType() == BoundsType::kEquality ? 2 : 1; }
/// slack variables of the rows before row r
inline Index slacks_before(const std::vector<Bounds>& b, Index r)
{
  Index n = 0;
  for (Index k = 0; k < r; ++k) n += slacks(b[U(k)]);
  return n;
}
LEMMA(L_rows, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w,
      double merit, Index r, Index c, Index r2)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= c && c < x.size());
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && one_sided(b) && 0 <= r && r < v.size() && 0 <= r2 && r2 < v.size());
  auto vars = std::make_shared<AnyVars>(x, vb);
  TrajOptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v, b, j, w));
  q.setup();
  VectorXd m(1);
  m(0) = merit;
  q.setConstraintMeritCoeff(m);
  q.convexify();
  const Index n = x.size(), ns = slacks_before(b, v.size());
  ENSURE_EQI("variables and slacks", q.getNumQPVars(), n + ns);
  ENSURE_EQI("one row per constraint row and variable", q.getNumQPConstraints(), v.size() + n + ns);
  const auto& a = q.getConstraintMatrix();
  ENSURE("shape", a.rows() == q.getNumQPConstraints() && a.cols() == q.getNumQPVars());
  ENSURE_EQ("row entry", a.coeff(r, c), cut(j.coeff(r, c)));
  ENSURE_EQ("lower end", q.getBoundsLower()(r), lo(b[U(r)]) - offset(v, j, x, r));
  ENSURE_EQ("upper end", q.getBoundsUpper()(r), hi(b[U(r)]) - offset(v, j, x, r));
  const Index s = n + slacks_before(b, r);
  const bool up = b[U(r)].getType() == BoundsType::kUpperBound;
  ENSURE_EQ("slack entry", a.coeff(r, s), up ? -1 : 1);
  ENSURE_EQ("slack price", q.getGradient()(s), merit * w(r));
  if (b[U(r)].getType() == BoundsType::kEquality)
  {
    ENSURE_EQ("second slack entry", a.coeff(r, s + 1), -1);
    ENSURE_EQ("second slack price", q.getGradient()(s + 1), merit * w(r));
    ENSURE("second slack range", q.getBoundsLower()(v.size() + s + 1) == 0 && q.getBoundsUpper()(v.size() + s + 1) == static_cast<double>(INFINITY));
  }
  if (r2 != r) ENSURE_EQ("slack variables of another row", a.coeff(r, n + slacks_before(b, r2)), 0);
  ENSURE_EQ("bound row", a.coeff(v.size() + c, c), 1);
  ENSURE_EQ("no quadratic part", q.getHessian().coeff(c, c), 0);
  ENSURE_EQ("no price on the variables", q.getGradient()(c), 0);
  ENSURE("slack range", q.getBoundsLower()(v.size() + s) == 0 && q.getBoundsUpper()(v.size() + s) == static_cast<double>(INFINITY));
}
/// a constraint that currently has no rows does not shift the penalties of the others
LEMMA(L_no_rows, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w,
      double merit0, double merit1, Index r, Index c)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= c && c < x.size());
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && equalities(b) && 0 <= r && r < v.size());
  auto vars = std::make_shared<AnyVars>(x, vb);
  TrajOptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(VectorXd(0), std::vector<Bounds>(), Jacobian(0, x.size()), VectorXd(0)));
  q.addConstraintSet(std::make_shared<AnySet>(v, b, j, w));
  q.setup();
  VectorXd m(2);
  m(0) = merit0;
  m(1) = merit1;
  q.setConstraintMeritCoeff(m);
  q.convexify();
  const Index n = x.size();
  ENSURE_EQI("variables and slacks", q.getNumQPVars(), n + 2 * v.size());
  ENSURE_EQ("row entry", q.getConstraintMatrix().coeff(r, c), cut(j.coeff(r, c)));
  ENSURE_EQ("slack price", q.getGradient()(n + 2 * r), merit1 * w(r));
  ENSURE_EQ("second slack price", q.getGradient()(n + 2 * r + 1), merit1 * w(r));
  const VectorXd e = q.getExactConstraintViolations();
  ENSURE("no violation without rows", e.size() == 2 && e(0) == 0);
}
inline bool upper_only(const std::vector<Bounds>& b)
{
  bool r = true;
  for (std::size_t i = 0; i < b.size(); ++i)
    if (r && b[i].getType() != BoundsType::kUpperBound) r = false;
  return r;
}
/// hinge costs are rows ahead of the constraints, charged their own weight
LEMMA(L_hinge_rows, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w,
      const VectorXd& v2, const std::vector<Bounds>& b2, const Jacobian& j2, const VectorXd& w2, double merit, Index r, Index r2, Index c)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= c && c < x.size());
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && upper_only(b) && 0 <= r && r < v.size());
  REQUIRE(v2.size() > 0 && fits(v2, b2, j2, w2, x.size()) && ordered(b2) && equalities(b2) && 0 <= r2 && r2 < v2.size());
  auto vars = std::make_shared<AnyVars>(x, vb);
  TrajOptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v2, b2, j2, w2));
  q.addCostSet(std::make_shared<AnySet>(v, b, j, w), trajopt_sqp::CostPenaltyType::kHinge);
  q.setup();
  VectorXd m(1);
  m(0) = merit;
  q.setConstraintMeritCoeff(m);
  q.convexify();
  const Index n = x.size(), n1 = v.size();
  ENSURE_EQI("variables and slacks", q.getNumQPVars(), n + n1 + 2 * v2.size());
  ENSURE_EQI("one row per penalty row, constraint row and variable", q.getNumQPConstraints(), n1 + v2.size() + n + n1 + 2 * v2.size());
  const auto& a = q.getConstraintMatrix();
  ENSURE_EQ("penalty row entry", a.coeff(r, c), cut(j.coeff(r, c)));
  ENSURE_EQ("constraint row entry", a.coeff(n1 + r2, c), cut(j2.coeff(r2, c)));
  ENSURE_EQ("penalty row limit", q.getBoundsUpper()(r), hi(b[U(r)]) - offset(v, j, x, r));
  ENSURE_EQ("constraint row lower end", q.getBoundsLower()(n1 + r2), lo(b2[U(r2)]) - offset(v2, j2, x, r2));
  ENSURE_EQ("constraint row upper end", q.getBoundsUpper()(n1 + r2), hi(b2[U(r2)]) - offset(v2, j2, x, r2));
  ENSURE_EQ("penalty slack entry", a.coeff(r, n + r), -1);
  ENSURE_EQ("penalty slack price", q.getGradient()(n + r), w(r));
  ENSURE_EQ("constraint slack entries", a.coeff(n1 + r2, n + n1 + 2 * r2), 1);
  ENSURE_EQ("constraint slack entries", a.coeff(n1 + r2, n + n1 + 2 * r2 + 1), -1);
  ENSURE_EQ("constraint slack prices", q.getGradient()(n + n1 + 2 * r2), merit * w2(r2));
  ENSURE_EQ("constraint slack prices", q.getGradient()(n + n1 + 2 * r2 + 1), merit * w2(r2));
  ENSURE_EQ("rows do not share slack variables", a.coeff(r, n + n1 + 2 * r2), 0);
  ENSURE_EQ("rows do not share slack variables", a.coeff(n1 + r2, n + r), 0);
}
/// squared costs: Gauss-Newton model of sum w (v - target)^2
LEMMA(L_squared, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w, Index r, Index c)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= c && c < x.size() && 0 <= r && r < x.size());
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && equalities(b) && ordered(b) && nonneg(w));
  auto vars = std::make_shared<AnyVars>(x, vb);
  TrajOptQPProblem q(vars);
  q.addCostSet(std::make_shared<AnySet>(v, b, j, w), trajopt_sqp::CostPenaltyType::kSquared);
  q.setup();
  q.convexify();
  ENSURE_EQI("no slacks", q.getNumQPVars(), x.size());
  ENSURE_EQI("only variable rows", q.getNumQPConstraints(), x.size());
  double h = 0, g = 0;
  for (Index k = 0; k < v.size(); ++k)
  {
    h += w(k) * j.coeff(k, r) * j.coeff(k, c);
    g += 2 * w(k) * (offset(v, j, x, k) - lo(b[U(k)])) * j.coeff(k, c);
  }
  ENSURE_EQ("second-order part", q.getHessian().coeff(r, c), cut(h));
  ENSURE_EQ("first-order part", q.getGradient()(c), g);
}
/// at the point where it was built the model agrees with the exact values
LEMMA(L_values, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb));
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && one_sided(b) && no_tiny(j));
  auto vars = std::make_shared<AnyVars>(x, vb);
  TrajOptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v, b, j, w));
  q.setup();
  q.convexify();
  VectorXd y = VectorXd::Zero(q.getNumQPVars());
  y.head(x.size()) = x;
  const VectorXd m = q.evaluateConvexConstraintViolations(y), e = q.getExactConstraintViolations();
  ENSURE("one violation per constraint", m.size() == 1 && e.size() == 1);
  double s = 0;
  for (Index k = 0; k < v.size(); ++k) s += v(k) < lo(b[U(k)]) ? lo(b[U(k)]) - v(k) : v(k) > hi(b[U(k)]) ? v(k) - hi(b[U(k)]) : 0;
  ENSURE_EQ("exact violation", e(0), s);
  ENSURE_EQ("model violation at the point", m(0), e(0));
  ENSURE("no costs", q.evaluateConvexCosts(y).size() == 0 && q.getExactCosts().size() == 0);
}
LEMMA(L_hinge_value, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb));
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && upper_only(b) && no_tiny(j));
  auto vars = std::make_shared<AnyVars>(x, vb);
  TrajOptQPProblem q(vars);
  q.addCostSet(std::make_shared<AnySet>(v, b, j, w), trajopt_sqp::CostPenaltyType::kHinge);
  q.setup();
  q.convexify();
  VectorXd y = VectorXd::Zero(q.getNumQPVars());
  y.head(x.size()) = x;
  const VectorXd m = q.evaluateConvexCosts(y), e = q.getExactCosts();
  ENSURE("one value per cost", m.size() == 1 && e.size() == 1);
  double s = 0;
  for (Index k = 0; k < v.size(); ++k) s += v(k) < lo(b[U(k)]) ? lo(b[U(k)]) - v(k) : v(k) > hi(b[U(k)]) ? v(k) - hi(b[U(k)]) : 0;
  ENSURE_EQ("exact hinge cost", e(0), s);
  ENSURE_EQ("model hinge cost at the point", m(0), e(0));
}
LEMMA(L_absolute_value, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb));
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && equalities(b) && no_tiny(j));
  auto vars = std::make_shared<AnyVars>(x, vb);
  TrajOptQPProblem q(vars);
  q.addCostSet(std::make_shared<AnySet>(v, b, j, w), trajopt_sqp::CostPenaltyType::kAbsolute);
  q.setup();
  q.convexify();
  VectorXd y = VectorXd::Zero(q.getNumQPVars());
  y.head(x.size()) = x;
  const VectorXd m = q.evaluateConvexCosts(y), e = q.getExactCosts();
  ENSURE("one value per cost", m.size() == 1 && e.size() == 1);
  double s = 0;
  for (Index k = 0; k < v.size(); ++k) s += v(k) < lo(b[U(k)]) ? lo(b[U(k)]) - v(k) : v(k) > hi(b[U(k)]) ? v(k) - hi(b[U(k)]) : 0;
  ENSURE_EQ("exact absolute cost", e(0), s);
  ENSURE_EQ("model absolute cost at the point", m(0), e(0));
}
LEMMA(L_squared_value, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb));
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && equalities(b) && same_ends(b) && nonneg(w));
  auto vars = std::make_shared<AnyVars>(x, vb);
  TrajOptQPProblem q(vars);
  q.addCostSet(std::make_shared<AnySet>(v, b, j, w), trajopt_sqp::CostPenaltyType::kSquared);
  q.setup();
  const VectorXd e = q.getExactCosts();
  ENSURE("one value per cost", e.size() == 1 && q.getExactConstraintViolations().size() == 0);
  double s = 0;
  for (Index k = 0; k < v.size(); ++k) s += w(k) * (v(k) - lo(b[U(k)])) * (v(k) - lo(b[U(k)]));
  ENSURE_EQ("exact squared cost", e(0), s);
  ENSURE_EQ("total", q.getTotalExactCost(), e(0));
}
/// two constraint sets: rows, slack variables, prices and violations of the second follow those of the first
LEMMA(L_two_sets, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w,
      const VectorXd& v2, const std::vector<Bounds>& b2, const Jacobian& j2, const VectorXd& w2, double merit0, double merit1, Index r, Index r2, Index c)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= c && c < x.size());
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && equalities(b) && 0 <= r && r < v.size());
  REQUIRE(v2.size() > 0 && fits(v2, b2, j2, w2, x.size()) && ordered(b2) && upper_only(b2) && 0 <= r2 && r2 < v2.size());
  auto vars = std::make_shared<AnyVars>(x, vb);
  TrajOptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v, b, j, w));
  q.addConstraintSet(std::make_shared<AnySet>(v2, b2, j2, w2));
  q.setup();
  VectorXd m(2);
  m(0) = merit0;
  m(1) = merit1;
  q.setConstraintMeritCoeff(m);
  q.convexify();
  const Index n = x.size(), n1 = v.size();
  ENSURE_EQI("variables and slacks", q.getNumQPVars(), n + 2 * n1 + v2.size());
  ENSURE_EQI("one row per constraint row and variable", q.getNumQPConstraints(), n1 + v2.size() + n + 2 * n1 + v2.size());
  const auto& a = q.getConstraintMatrix();
  ENSURE_EQ("row entry", a.coeff(r, c), cut(j.coeff(r, c)));
  ENSURE_EQ("row entry of the second", a.coeff(n1 + r2, c), cut(j2.coeff(r2, c)));
  ENSURE_EQ("row end", q.getBoundsUpper()(r), hi(b[U(r)]) - offset(v, j, x, r));
  ENSURE_EQ("row end of the second", q.getBoundsUpper()(n1 + r2), hi(b2[U(r2)]) - offset(v2, j2, x, r2));
  ENSURE_EQ("slack entries", a.coeff(r, n + 2 * r), 1);
  ENSURE_EQ("slack entries", a.coeff(r, n + 2 * r + 1), -1);
  ENSURE_EQ("slack entry of the second", a.coeff(n1 + r2, n + 2 * n1 + r2), -1);
  ENSURE_EQ("slack price", q.getGradient()(n + 2 * r), merit0 * w(r));
  ENSURE_EQ("slack price", q.getGradient()(n + 2 * r + 1), merit0 * w(r));
  ENSURE_EQ("slack price of the second", q.getGradient()(n + 2 * n1 + r2), merit1 * w2(r2));
  ENSURE_EQ("sets do not share slack variables", a.coeff(r, n + 2 * n1 + r2), 0);
  ENSURE_EQ("sets do not share slack variables", a.coeff(n1 + r2, n + 2 * r), 0);
}
LEMMA(L_two_values, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w,
      const VectorXd& v2, const std::vector<Bounds>& b2, const Jacobian& j2, const VectorXd& w2)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb));
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && equalities(b) && no_tiny(j));
  REQUIRE(v2.size() > 0 && fits(v2, b2, j2, w2, x.size()) && ordered(b2) && upper_only(b2) && no_tiny(j2));
  auto vars = std::make_shared<AnyVars>(x, vb);
  TrajOptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v, b, j, w));
  q.addConstraintSet(std::make_shared<AnySet>(v2, b2, j2, w2));
  q.setup();
  q.convexify();
  VectorXd y = VectorXd::Zero(q.getNumQPVars());
  y.head(x.size()) = x;
  const VectorXd m = q.evaluateConvexConstraintViolations(y), e = q.getExactConstraintViolations();
  ENSURE("one violation per constraint", m.size() == 2 && e.size() == 2);
  double s = 0, t = 0;
  for (Index k = 0; k < v.size(); ++k) s += v(k) < lo(b[U(k)]) ? lo(b[U(k)]) - v(k) : v(k) > hi(b[U(k)]) ? v(k) - hi(b[U(k)]) : 0;
  for (Index k = 0; k < v2.size(); ++k) t += v2(k) < lo(b2[U(k)]) ? lo(b2[U(k)]) - v2(k) : v2(k) > hi(b2[U(k)]) ? v2(k) - hi(b2[U(k)]) : 0;
  ENSURE_EQ("exact violation", e(0), s);
  ENSURE_EQ("exact violation of the second", e(1), t);
  ENSURE_EQ("model violation at the point", m(0), e(0));
  ENSURE_EQ("model violation of the second at the point", m(1), e(1));
}
/// bounded: the stored-entry count of a computed matrix decides whether its rows are copied
LEMMA(B_cost_values, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w,
      const VectorXd& v2, const std::vector<Bounds>& b2, const Jacobian& j2, const VectorXd& w2)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb));
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && equalities(b) && same_ends(b) && nonneg(w));
  REQUIRE(v2.size() > 0 && fits(v2, b2, j2, w2, x.size()) && ordered(b2) && upper_only(b2) && no_tiny(j2) && nonneg(w2));
  auto vars = std::make_shared<AnyVars>(x, vb);
  TrajOptQPProblem q(vars);
  q.addCostSet(std::make_shared<AnySet>(v2, b2, j2, w2), trajopt_sqp::CostPenaltyType::kHinge);
  q.addCostSet(std::make_shared<AnySet>(v, b, j, w), trajopt_sqp::CostPenaltyType::kSquared);
  q.setup();
  q.convexify();
  VectorXd y = VectorXd::Zero(q.getNumQPVars());
  y.head(x.size()) = x;
  const VectorXd m = q.evaluateConvexCosts(y), e = q.getExactCosts();
  ENSURE("one value per cost", m.size() == 2 && e.size() == 2);
  double s = 0, h = 0;
  for (Index k = 0; k < v.size(); ++k) s += w(k) * (v(k) - lo(b[U(k)])) * (v(k) - lo(b[U(k)]));
  for (Index k = 0; k < v2.size(); ++k) h += v2(k) < lo(b2[U(k)]) ? lo(b2[U(k)]) - v2(k) : v2(k) > hi(b2[U(k)]) ? v2(k) - hi(b2[U(k)]) : 0;
  ENSURE_EQ("exact squared cost", e(0), s);
  ENSURE_EQ("exact hinge cost", e(1), h);
  ENSURE_EQ("model squared cost at the point", m(0), e(0));
  ENSURE_EQ("model hinge cost at the point", m(1), e(1));
}
#ifndef VERIF_STATIC
inline void whole(TrajOptQPProblem& q, const AnyVars& vars, const std::vector<std::shared_ptr<Changing>>& squared, const std::vector<std::shared_ptr<Changing>>& rows,
                  std::size_t penalties, const VectorXd& merit)
{
  const VectorXd x = vars.getValues();
  const Index n = x.size();
  Index total = 0, slack = 0;
  for (const auto& s : rows)
    for (Index r = 0; r < s->v_.size(); ++r)
    {
      ++total;
      slack += slacks(s->b_[U(r)]);
    }
  ENSURE_EQI("variables and slacks", q.getNumQPVars(), n + slack);
  ENSURE_EQI("one row per penalty row, constraint row and variable", q.getNumQPConstraints(), total + n + slack);
  ENSURE("one name per cost and constraint", q.getNLPCostNames().size() == squared.size() + penalties && q.getNLPConstraintNames().size() == rows.size() - penalties);
  const Eigen::MatrixXd a = q.getConstraintMatrix(), h = q.getHessian();
  const VectorXd g = q.getGradient(), bl = q.getBoundsLower(), bu = q.getBoundsUpper();
  ENSURE("shapes", a.rows() == total + n + slack && a.cols() == n + slack && h.rows() == n + slack && h.cols() == n + slack && g.size() == n + slack &&
                       bl.size() == a.rows() && bu.size() == a.rows());
  Eigen::MatrixXd wa = Eigen::MatrixXd::Zero(a.rows(), a.cols()), wh = Eigen::MatrixXd::Zero(n + slack, n + slack);
  VectorXd wg = VectorXd::Zero(n + slack), wl = VectorXd::Zero(a.rows()), wu = VectorXd::Constant(a.rows(), static_cast<double>(INFINITY));
  Index row = 0, at = n;
  std::vector<double> costs, violations;
  std::size_t name = 0;
  for (const auto& s : squared)
  {
    double e = 0;
    ENSURE("names in order", q.getNLPCostNames()[name++] == s->getName());
    for (Index r = 0; r < s->v_.size(); ++r)
    {
      const VectorXd jr = Eigen::MatrixXd(s->j_).row(r).transpose();
      e += s->c_(r) * (s->v_(r) - lo(s->b_[U(r)])) * (s->v_(r) - lo(s->b_[U(r)]));
      wh.topLeftCorner(n, n) += s->c_(r) * jr * jr.transpose();
      wg.head(n) += 2 * s->c_(r) * (s->v_(r) - jr.dot(x) - lo(s->b_[U(r)])) * jr;
    }
    costs.push_back(e);
  }
  for (std::size_t i = 0; i < rows.size(); ++i)
  {
    const auto& s = rows[i];
    const double price = i < penalties ? 1 : merit(static_cast<Index>(i - penalties));
    ENSURE("names in order", i < penalties ? q.getNLPCostNames()[name++] == s->getName() : q.getNLPConstraintNames()[i - penalties] == s->getName());
    double e = 0;
    for (Index r = 0; r < s->v_.size(); ++r, ++row)
    {
      const VectorXd jr = Eigen::MatrixXd(s->j_).row(r).transpose();
      const double off = s->v_(r) - jr.dot(x);
      wa.row(row).head(n) = jr.transpose();
      wl(row) = lo(s->b_[U(r)]) - off;
      wu(row) = hi(s->b_[U(r)]) - off;
      e += missed(s->v_(r), s->b_[U(r)]);
      if (s->b_[U(r)].getType() != BoundsType::kUpperBound)
      {
        wa(row, at) = 1;
        wg(at++) = price * s->c_(r);
      }
      if (s->b_[U(r)].getType() != BoundsType::kLowerBound)
      {
        wa(row, at) = -1;
        wg(at++) = price * s->c_(r);
      }
    }
    (i < penalties ? costs : violations).push_back(e);
  }
  wa.bottomRows(n + slack).setIdentity();
  const VectorXd box = q.getBoxSize();
  for (Index c = 0; c < n; ++c)
  {
    const double y = std::min(std::max(x(c), lo(vars.b_[U(c)])), hi(vars.b_[U(c)]));
    wl(total + c) = std::max(y - box(c), lo(vars.b_[U(c)]));
    wu(total + c) = std::min(y + box(c), hi(vars.b_[U(c)]));
  }
  auto same_as = [](const auto& p, const auto& o) {
    for (Index r = 0; r < p.rows(); ++r)
      for (Index c = 0; c < p.cols(); ++c)
        if (!close(p(r, c), o(r, c))) return false;
    return true;
  };
  ENSURE("the rows", same_as(a, wa));
  ENSURE("the quadratic part", same_as(h, wh));
  ENSURE("the linear part", same_as(g, wg));
  ENSURE("the lower ends", same_as(bl, wl));
  ENSURE("the upper ends", same_as(bu, wu));
  VectorXd y = VectorXd::Zero(n + slack);
  y.head(n) = x;
  const VectorXd mc = q.evaluateConvexCosts(y), ec = q.getExactCosts(), mv = q.evaluateConvexConstraintViolations(y), ev = q.getExactConstraintViolations();
  ENSURE("one value per cost and constraint", mc.size() == static_cast<Index>(costs.size()) && ec.size() == mc.size() && mv.size() == static_cast<Index>(violations.size()) && ev.size() == mv.size());
  double sum = 0;
  for (std::size_t i = 0; i < costs.size(); ++i)
  {
    ENSURE("exact cost", close(ec(static_cast<Index>(i)), costs[i]));
    ENSURE("model cost at the point", close(mc(static_cast<Index>(i)), costs[i]));
    sum += costs[i];
  }
  ENSURE("total cost", close(q.getTotalExactCost(), sum) && close(q.evaluateTotalConvexCost(y), sum));
  for (std::size_t i = 0; i < violations.size(); ++i)
  {
    ENSURE("exact violation", close(ev(static_cast<Index>(i)), violations[i]));
    ENSURE("model violation at the point", close(mv(static_cast<Index>(i)), violations[i]));
  }
}
LEMMA(B_mixture, const VectorXd& x0, const std::vector<Bounds>& vb, const VectorXd& x1, const VectorXd& x2, unsigned seed, unsigned shape, double size)
{
  REQUIRE(x0.size() > 0 && static_cast<Index>(vb.size()) == x0.size() && x1.size() == x0.size() && x2.size() == x0.size() && ordered(vb));
  const Index n = x0.size();
  auto vars = std::make_shared<AnyVars>(x0, vb);
  TrajOptQPProblem q(vars);
  // by kind: static ones first; squared costs, then hinge, absolute penalties and the constraints
  std::vector<std::shared_ptr<Changing>> group[4][2];
  unsigned code = seed * 2654435761u + shape;
  for (unsigned k = 0; k < 1 + shape % 6; ++k)
  {
    code = code * 1103515245u + 12345u;
    const int kind = static_cast<int>((code >> 16) % 4);
    const bool dynamic = (code >> 20) % 3 == 0;
    auto s = std::make_shared<Changing>("set" + std::to_string(k), dynamic, kind, n, code);
    group[kind][dynamic ? 1 : 0].push_back(s);
    if (kind == 3)
      q.addConstraintSet(s);
    else
      q.addCostSet(s, kind == 0 ? trajopt_sqp::CostPenaltyType::kSquared : kind == 1 ? trajopt_sqp::CostPenaltyType::kHinge : trajopt_sqp::CostPenaltyType::kAbsolute);
  }
  std::vector<std::shared_ptr<Changing>> squared, rows;
  std::size_t penalties = 0;
  for (int kind = 0; kind < 4; ++kind)
    for (auto& g : group[kind])
      for (auto& s : g)
      {
        (kind == 0 ? squared : rows).push_back(s);
        if (kind == 1 || kind == 2) ++penalties;
      }
  q.setup();
  VectorXd merit(static_cast<Index>(rows.size() - penalties));
  for (Index i = 0; i < merit.size(); ++i) merit(i) = 2.0 + static_cast<double>(i);
  q.setConstraintMeritCoeff(merit);
  q.convexify();
  whole(q, *vars, squared, rows, penalties, merit);
  q.setBoxSize(VectorXd::Constant(n, std::fabs(size)));
  q.setVariables(x1.data());
  q.convexify();
  whole(q, *vars, squared, rows, penalties, merit);
  q.setVariables(x2.data());
  for (Index i = 0; i < merit.size(); ++i) merit(i) *= 3;
  q.setConstraintMeritCoeff(merit);
  q.convexify();
  whole(q, *vars, squared, rows, penalties, merit);
  q.setVariables(x1.data());
  q.setVariables(x0.data());
  q.convexify();
  whole(q, *vars, squared, rows, penalties, merit);
  // setting it up again changes nothing but the merit coefficients
  q.setup();
  q.setConstraintMeritCoeff(merit);
  q.convexify();
  whole(q, *vars, squared, rows, penalties, merit);
}
#endif
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
