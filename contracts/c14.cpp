// C14: the QP the generic SQP problem builds at a point represents the linearised problem exactly
#include "qp_spec.h"
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/types.h>
#include <trajopt_ifopt/core/problem.h>
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { r.n = r.i(1, 4); r.sizes_fixed = r.i(0, 3) != 0; } }
#endif
#ifndef VERIF_STATIC
#include "qp_exec.h"
#endif
namespace trajopt_lemmas
{
using trajopt_sqp::IfoptQPProblem;
inline double cut(double x) { return std::fabs(x) < 1e-7 ? 0.0 : x; }
/// the linearised row at zero
inline double offset(const VectorXd& v, const Jacobian& j, const VectorXd& x, Index r)
{
  double s = v(r);
  for (Index c = 0; c < x.size(); ++c) s -= j.coeff(r, c) * x(c);
  return s;
}
inline Index slacks(const Bounds& b) { return b.getType() == BoundsType::kEquality ? 2 : 1; }
inline Index slacks_before(const std::vector<Bounds>& b, Index r)
{
  Index n = 0;
  for (Index k = 0; k < r; ++k) n += slacks(b[U(k)]);
  return n;
}
inline double violation(double v, const Bounds& b) { return v < lo(b) ? lo(b) - v : v > hi(b) ? v - hi(b) : 0; }
LEMMA(L_rows, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w,
      const VectorXd& m, Index r, Index c, Index r2)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= c && c < x.size());
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && one_sided(b) && 0 <= r && r < v.size() && 0 <= r2 && r2 < v.size() && m.size() == v.size());
  auto vars = std::make_shared<AnyVars>(x, vb);
  IfoptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v, b, j, w));
  q.setup();
  q.setConstraintMeritCoeff(m);
  q.convexify();
  const Index n = x.size(), ns = slacks_before(b, v.size());
  ENSURE_EQI("variables and slacks", q.getNumQPVars(), n + ns);
  ENSURE_EQI("one row per constraint row and variable", q.getNumQPConstraints(), v.size() + n + ns);
  const auto& a = q.getConstraintMatrix();
  ENSURE("shape", a.rows() == q.getNumQPConstraints() && a.cols() == q.getNumQPVars());
  ENSURE_EQ("row entry", a.coeff(r, c), cut(j.coeff(r, c)));
  const Index s = n + slacks_before(b, r);
  const bool up = b[U(r)].getType() == BoundsType::kUpperBound;
  ENSURE_EQ("slack entry", a.coeff(r, s), up ? -1 : 1);
  ENSURE_EQ("slack price", q.getGradient()(s), m(r));
  if (b[U(r)].getType() == BoundsType::kEquality)
  {
    ENSURE_EQ("second slack entry", a.coeff(r, s + 1), -1);
    ENSURE_EQ("second slack price", q.getGradient()(s + 1), m(r));
    ENSURE("second slack range", q.getBoundsLower()(v.size() + s + 1) == 0 && q.getBoundsUpper()(v.size() + s + 1) == static_cast<double>(INFINITY));
  }
  if (r2 != r) ENSURE_EQ("slack variables of another row", a.coeff(r, n + slacks_before(b, r2)), 0);
  ENSURE_EQ("bound row", a.coeff(v.size() + c, c), 1);
  ENSURE_EQ("slack bound row", a.coeff(v.size() + s, s), 1);
  ENSURE_EQ("no quadratic part", q.getHessian().coeff(c, c), 0);
  ENSURE_EQ("no price on the variables", q.getGradient()(c), 0);
  ENSURE("slack range", q.getBoundsLower()(v.size() + s) == 0 && q.getBoundsUpper()(v.size() + s) == static_cast<double>(INFINITY));
}
/// the limits of the rows are those of the constraint seen from the linearisation at zero
LEMMA(L_row_limits, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w, Index r, Index c)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= c && c < x.size());
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && one_sided(b) && no_tiny(j) && 0 <= r && r < v.size());
  auto vars = std::make_shared<AnyVars>(x, vb);
  IfoptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v, b, j, w));
  q.setup();
  q.convexify();
  ENSURE_EQI("every limit is set", q.getBoundsLower().size(), q.getNumQPConstraints());
  ENSURE_EQI("every limit is set", q.getBoundsUpper().size(), q.getNumQPConstraints());
  ENSURE_EQ("lower end", q.getBoundsLower()(r), lo(b[U(r)]) - offset(v, j, x, r));
  ENSURE_EQ("upper end", q.getBoundsUpper()(r), hi(b[U(r)]) - offset(v, j, x, r));
  const double in = std::max(lo(vb[U(c)]), std::min(hi(vb[U(c)]), x(c)));
  ENSURE_EQ("variable lower limit", q.getBoundsLower()(v.size() + c), std::max(in - q.getBoxSize()(c), lo(vb[U(c)])));
  ENSURE_EQ("variable upper limit", q.getBoundsUpper()(v.size() + c), std::min(in + q.getBoxSize()(c), hi(vb[U(c)])));
}
LEMMA(L_violations, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w, Index r)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb));
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && one_sided(b) && no_tiny(j) && 0 <= r && r < v.size());
  auto vars = std::make_shared<AnyVars>(x, vb);
  IfoptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v, b, j, w));
  q.setup();
  q.convexify();
  VectorXd y = VectorXd::Zero(q.getNumQPVars());
  y.head(x.size()) = x;
  const VectorXd m = q.evaluateConvexConstraintViolations(y), e = q.getExactConstraintViolations();
  ENSURE("one violation per row", m.size() == v.size() && e.size() == v.size());
  ENSURE_EQ("exact violation", e(r), violation(v(r), b[U(r)]));
  ENSURE_EQ("model violation at the point", m(r), violation(v(r), b[U(r)]));
}
/// several constraint sets keep their rows, slack variables and prices apart
LEMMA(L_two_sets, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w,
      const VectorXd& v2, const std::vector<Bounds>& b2, const Jacobian& j2, const VectorXd& w2, const VectorXd& m, Index r, Index c)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= c && c < x.size());
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && equalities(b));
  REQUIRE(v2.size() > 0 && fits(v2, b2, j2, w2, x.size()) && ordered(b2) && equalities(b2) && 0 <= r && r < v2.size() && m.size() == v.size() + v2.size());
  auto vars = std::make_shared<AnyVars>(x, vb);
  IfoptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v, b, j, w));
  q.addConstraintSet(std::make_shared<AnySet>(v2, b2, j2, w2));
  q.setup();
  q.setConstraintMeritCoeff(m);
  q.convexify();
  const Index n = x.size(), n1 = v.size();
  ENSURE_EQI("variables and slacks", q.getNumQPVars(), n + 2 * n1 + 2 * v2.size());
  const auto& a = q.getConstraintMatrix();
  ENSURE_EQ("row entry of the second set", a.coeff(n1 + r, c), cut(j2.coeff(r, c)));
  ENSURE_EQ("slack entries of the second set", a.coeff(n1 + r, n + 2 * n1 + 2 * r), 1);
  ENSURE_EQ("slack entries of the second set", a.coeff(n1 + r, n + 2 * n1 + 2 * r + 1), -1);
  ENSURE_EQ("slack prices of the second set", q.getGradient()(n + 2 * n1 + 2 * r), m(n1 + r));
  ENSURE_EQ("slack prices of the second set", q.getGradient()(n + 2 * n1 + 2 * r + 1), m(n1 + r));
}
/// squared costs: Gauss-Newton model of sum w (v - target)^2 around the point
LEMMA(L_squared, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w, Index r, Index c)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= c && c < x.size() && 0 <= r && r < x.size());
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && equalities(b) && ordered(b) && nonneg(w));
  auto vars = std::make_shared<AnyVars>(x, vb);
  IfoptQPProblem q(vars);
  q.addCostSet(std::make_shared<AnySet>(v, b, j, w), trajopt_sqp::CostPenaltyType::kSquared);
  q.setup();
  q.convexify();
  ENSURE_EQI("no slacks", q.getNumQPVars(), x.size());
  ENSURE_EQI("only variable rows", q.getNumQPConstraints(), x.size());
  double h = 0;
  for (Index k = 0; k < v.size(); ++k) h += w(k) * j.coeff(k, r) * j.coeff(k, c);
  ENSURE_EQ("Gauss-Newton matrix", q.getHessian().coeff(r, c), cut(h));
}
/// the QP objective's derivative at the point is the derivative of the cost
LEMMA(L_gradient, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w, Index c)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= c && c < x.size());
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && equalities(b) && ordered(b) && nonneg(w));
  auto vars = std::make_shared<AnyVars>(x, vb);
  IfoptQPProblem q(vars);
  q.addCostSet(std::make_shared<AnySet>(v, b, j, w), trajopt_sqp::CostPenaltyType::kSquared);
  q.setup();
  q.convexify();
  double g = 0, d = q.getGradient()(c);
  for (Index k = 0; k < v.size(); ++k)
    g += 2 * w(k) * (v(k) < lo(b[U(k)]) ? v(k) - lo(b[U(k)]) : v(k) > hi(b[U(k)]) ? v(k) - hi(b[U(k)]) : 0) * j.coeff(k, c);
  for (Index k = 0; k < x.size(); ++k) d += 2 * q.getHessian().coeff(c, k) * x(k);
  ENSURE_EQ("derivative at the point", d, g);
}
/// the slack variables of the constraints carry no curvature
LEMMA(L_curvature, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w,
      const VectorXd& v2, const std::vector<Bounds>& b2, const Jacobian& j2, const VectorXd& w2, Index r, Index c, Index s)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= c && c < x.size() && 0 <= r && r < x.size());
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && equalities(b) && ordered(b) && nonneg(w));
  REQUIRE(v2.size() > 0 && fits(v2, b2, j2, w2, x.size()) && ordered(b2) && one_sided(b2) && 0 <= s && s < slacks_before(b2, v2.size()));
  auto vars = std::make_shared<AnyVars>(x, vb);
  IfoptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v2, b2, j2, w2));
  q.addCostSet(std::make_shared<AnySet>(v, b, j, w), trajopt_sqp::CostPenaltyType::kSquared);
  q.setup();
  q.convexify();
  double h = 0;
  for (Index k = 0; k < v.size(); ++k) h += w(k) * j.coeff(k, r) * j.coeff(k, c);
  ENSURE("shape", q.getHessian().rows() == q.getNumQPVars() && q.getHessian().cols() == q.getNumQPVars() && q.getGradient().size() == q.getNumQPVars());
  ENSURE_EQ("Gauss-Newton matrix", q.getHessian().coeff(r, c), cut(h));
  ENSURE_EQ("slack variables carry no curvature", q.getHessian().coeff(x.size() + s, x.size() + s), 0);
  ENSURE_EQ("slack variables carry no curvature", q.getHessian().coeff(x.size() + s, c), 0);
}
/// the model's cost at the point is the exact one
LEMMA(L_cost_value, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb));
  REQUIRE(v.size() > 0 && fits(v, b, j, w, x.size()) && ordered(b) && equalities(b) && same_ends(b) && nonneg(w));
  auto vars = std::make_shared<AnyVars>(x, vb);
  IfoptQPProblem q(vars);
  q.addCostSet(std::make_shared<AnySet>(v, b, j, w), trajopt_sqp::CostPenaltyType::kSquared);
  q.setup();
  q.convexify();
  VectorXd y = VectorXd::Zero(q.getNumQPVars());
  y.head(x.size()) = x;
  const VectorXd m = q.evaluateConvexCosts(y), e = q.getExactCosts();
  ENSURE("one value per cost", m.size() == 1 && e.size() == 1);
  double s = 0;
  for (Index k = 0; k < v.size(); ++k) s += w(k) * (v(k) - lo(b[U(k)])) * (v(k) - lo(b[U(k)]));
  ENSURE_EQ("exact cost", e(0), s);
  ENSURE_EQ("model cost at the point", m(0), e(0));
  ENSURE_EQ("total cost", q.getTotalExactCost(), e(0));
}
#ifndef VERIF_STATIC
/// executions: any number of squared costs and constraints
inline void whole(IfoptQPProblem& q, const AnyVars& vars, const std::vector<std::shared_ptr<Changing>>& costs, const std::vector<std::shared_ptr<Changing>>& sets, const VectorXd& merit)
{
  const VectorXd x = vars.getValues();
  const Index n = x.size();
  Index total = 0, slack = 0;
  for (const auto& s : sets)
    for (Index r = 0; r < s->v_.size(); ++r)
    {
      ++total;
      slack += slacks(s->b_[U(r)]);
    }
  ENSURE_EQI("variables and slacks", q.getNumQPVars(), n + slack);
  ENSURE_EQI("one row per constraint row and variable", q.getNumQPConstraints(), total + n + slack);
  ENSURE_EQI("one name per constraint row", static_cast<Index>(q.getNLPConstraintNames().size()), total);
  const Eigen::MatrixXd a = q.getConstraintMatrix(), h = q.getHessian();
  const VectorXd g = q.getGradient(), bl = q.getBoundsLower(), bu = q.getBoundsUpper();
  ENSURE("shapes", a.rows() == total + n + slack && a.cols() == n + slack && h.rows() == n + slack && h.cols() == n + slack && g.size() == n + slack &&
                       bl.size() == a.rows() && bu.size() == a.rows());
  Eigen::MatrixXd wa = Eigen::MatrixXd::Zero(a.rows(), a.cols()), wh = Eigen::MatrixXd::Zero(n + slack, n + slack);
  VectorXd wg = VectorXd::Zero(n + slack), wl = VectorXd::Zero(a.rows()), wu = VectorXd::Constant(a.rows(), static_cast<double>(INFINITY)), wv(total);
  double sum = 0;
  for (const auto& s : costs)
    for (Index r = 0; r < s->v_.size(); ++r)
    {
      const VectorXd jr = Eigen::MatrixXd(s->j_).row(r).transpose();
      const double e = s->v_(r) - lo(s->b_[U(r)]);
      sum += s->c_(r) * e * e;
      wh.topLeftCorner(n, n) += s->c_(r) * jr * jr.transpose();
      wg.head(n) += 2 * s->c_(r) * (e - jr.dot(x)) * jr;
    }
  Index row = 0, at = n;
  for (const auto& s : sets)
    for (Index r = 0; r < s->v_.size(); ++r, ++row)
    {
      const VectorXd jr = Eigen::MatrixXd(s->j_).row(r).transpose();
      const double off = s->v_(r) - jr.dot(x);
      wa.row(row).head(n) = jr.transpose();
      wl(row) = lo(s->b_[U(r)]) - off;
      wu(row) = hi(s->b_[U(r)]) - off;
      wv(row) = missed(s->v_(r), s->b_[U(r)]);
      if (s->b_[U(r)].getType() != BoundsType::kUpperBound)
      {
        wa(row, at) = 1;
        wg(at++) = merit(row);
      }
      if (s->b_[U(r)].getType() != BoundsType::kLowerBound)
      {
        wa(row, at) = -1;
        wg(at++) = merit(row);
      }
    }
  wa.bottomRows(n + slack).setIdentity();
  const VectorXd box = q.getBoxSize();
  for (Index c = 0; c < n; ++c)
  {
    const double y = std::min(std::max(x(c), lo(vars.b_[U(c)])), hi(vars.b_[U(c)]));
    wl(total + c) = std::max(y - box(c), lo(vars.b_[U(c)]));
    wu(total + c) = std::min(y + box(c), hi(vars.b_[U(c)]));
  }
  auto same_as = [](const auto& p, const auto& o) {
    for (Index r = 0; r < p.rows(); ++r)
      for (Index c = 0; c < p.cols(); ++c)
        if (!close(p(r, c), o(r, c))) return false;
    return true;
  };
  ENSURE("the rows", same_as(a, wa));
  ENSURE("the quadratic part", same_as(h, wh));
  ENSURE("the linear part", same_as(g, wg));
  ENSURE("the lower ends", same_as(bl, wl));
  ENSURE("the upper ends", same_as(bu, wu));
  VectorXd y = VectorXd::Zero(n + slack);
  y.head(n) = x;
  const VectorXd mv = q.evaluateConvexConstraintViolations(y), ev = q.getExactConstraintViolations();
  ENSURE("violations", mv.size() == total && ev.size() == total && same_as(mv, wv) && same_as(ev, wv));
  ENSURE("total cost", close(q.getTotalExactCost(), sum) && close(q.evaluateTotalConvexCost(y), sum));
}
LEMMA(B_mixture, const VectorXd& x0, const std::vector<Bounds>& vb, const VectorXd& x1, const VectorXd& x2, unsigned seed, unsigned shape, double size)
{
  REQUIRE(x0.size() > 0 && static_cast<Index>(vb.size()) == x0.size() && x1.size() == x0.size() && x2.size() == x0.size() && ordered(vb));
  const Index n = x0.size();
  auto vars = std::make_shared<AnyVars>(x0, vb);
  IfoptQPProblem q(vars);
  std::vector<std::shared_ptr<Changing>> costs, sets;
  unsigned code = seed * 2654435761u + shape;
  Index rows = 0;
  for (unsigned k = 0; k < 1 + shape % 6; ++k)
  {
    code = code * 1103515245u + 12345u;
    const int kind = (code >> 16) % 2 ? 3 : 0;
    auto s = std::make_shared<Changing>("set" + std::to_string(k), false, kind, n, code);
    (kind == 3 ? sets : costs).push_back(s);
    if (kind == 3)
    {
      q.addConstraintSet(s);
      rows += s->getRows();
    }
    else
      q.addCostSet(s, trajopt_sqp::CostPenaltyType::kSquared);
  }
  q.setup();
  VectorXd merit(rows);
  for (Index i = 0; i < rows; ++i) merit(i) = 2.0 + static_cast<double>(i);
  q.setConstraintMeritCoeff(merit);
  q.convexify();
  whole(q, *vars, costs, sets, merit);
  q.setBoxSize(VectorXd::Constant(n, std::fabs(size)));
  q.setVariables(x1.data());
  q.convexify();
  whole(q, *vars, costs, sets, merit);
  q.setVariables(x2.data());
  merit *= 3;
  q.setConstraintMeritCoeff(merit);
  q.convexify();
  whole(q, *vars, costs, sets, merit);
}
#endif
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
