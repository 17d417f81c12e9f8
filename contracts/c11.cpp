// C11: weighted squared and absolute costs and their gradients
#include "ifopt_spec.h"
#include <trajopt_ifopt/costs/squared_cost.h>
#include <trajopt_ifopt/costs/absolute_cost.h>
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { r.n = r.i(1, 4); } }
#endif
namespace trajopt_lemmas
{
/// any constraint: values, bounds, Jacobian and coefficients are arbitrary
class AnySet : public ConstraintSet
{
public:
  AnySet(VectorXd v, std::vector<Bounds> b, Jacobian j, VectorXd c)
    : ConstraintSet("any", static_cast<int>(v.size())), v_(std::move(v)), b_(std::move(b)), j_(std::move(j)), c_(std::move(c))
  {
  }
  int update() override { return rows_; }
  VectorXd getValues() const override { return v_; }
  VectorXd getCoefficients() const override { return c_; }
  std::vector<Bounds> getBounds() const override { return b_; }
  Jacobian getJacobian() const override { return j_; }
  VectorXd v_;
  std::vector<Bounds> b_;
  Jacobian j_;
  VectorXd c_;
};
inline double err(const Bounds& b, double v) { return v < lo(b) ? v - lo(b) : v > hi(b) ? v - hi(b) : 0.0; }
inline double mag(double x) { return x < 0 ? -x : x; }
inline double sgn(double e, double tol) { return e > tol ? 1.0 : e < -tol ? -1.0 : 0.0; }
inline double jac_at(const Jacobian& j, Index r, Index c)
{
  return j.coeff(r, c);
}
LEMMA(L_squared, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w, Index col)
{
  REQUIRE(v.size() > 0 && static_cast<Index>(b.size()) == v.size() && ordered(b) && j.rows() == v.size() && w.size() == v.size());
  REQUIRE(0 <= col && col < j.cols());
  SquaredCost c(std::make_shared<AnySet>(v, b, j, w), w);
  double cost = 0, slope = 0;
  for (Index i = 0; i < v.size(); ++i)
  {
    const double e = err(b[U(i)], v(i));
    cost += mag(w(i)) * e * e;
    slope += 2 * mag(w(i)) * e * jac_at(j, i, col);
  }
  ENSURE_EQI("one row", c.getRows(), 1);
  ENSURE_EQI("values: one row", c.getValues().size(), 1);
  ENSURE_EQ("weighted sum of squared bound errors", c.getValues()(0), cost);
  ENSURE_EQ("cost", c.getCost(), cost);
  const Jacobian g = c.getJacobian();
  ENSURE_EQI("gradient: one row", g.rows(), 1);
  ENSURE_EQI("gradient: columns", g.cols(), j.cols());
  ENSURE_EQ("gradient is the derivative", jac_at(g, 0, col), slope);
  ENSURE_EQI("no bound on a cost", c.getBounds().size(), 1);
  ENSURE("unbounded", lo(c.getBounds()[0]) == -static_cast<double>(INFINITY) && hi(c.getBounds()[0]) == static_cast<double>(INFINITY));
}
LEMMA(L_squared_unweighted, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w, Index col)
{
  REQUIRE(v.size() > 0 && static_cast<Index>(b.size()) == v.size() && ordered(b) && j.rows() == v.size());
  REQUIRE(0 <= col && col < j.cols());
  SquaredCost c(std::make_shared<AnySet>(v, b, j, w));
  double cost = 0, slope = 0;
  for (Index i = 0; i < v.size(); ++i)
  {
    const double e = err(b[U(i)], v(i));
    cost += e * e;
    slope += 2 * e * jac_at(j, i, col);
  }
  ENSURE_EQ("sum of squared bound errors", c.getValues()(0), cost);
  ENSURE_EQ("gradient is the derivative", jac_at(c.getJacobian(), 0, col), slope);
}
/// values at or next to their bounds
inline double next_to(int k) { return k == 0 ? 1e-7 : k == 1 ? -1e-7 : k == 2 ? 1e-10 : k == 3 ? -1e-5 : 0.0; }
LEMMA(L_absolute_near, double l, double u, int k, double a, double w)
{
  REQUIRE(l <= u && next_to(k) != 0);
  VectorXd v(1), ws(1);
  v(0) = next_to(k) < 0 ? l + next_to(k) : u + next_to(k);
  ws(0) = w;
  Jacobian j(1, 1);
  j.insert(0, 0) = a;
  AbsoluteCost c(std::make_shared<AnySet>(v, std::vector<Bounds>(1, Bounds(l, u)), j, ws), ws);
  ENSURE_EQ("slope next to the bound", jac_at(c.getJacobian(), 0, 0), (next_to(k) < 0 ? -1 : 1) * mag(w) * a);
}
LEMMA(L_absolute, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w, Index col)
{
  REQUIRE(v.size() > 0 && static_cast<Index>(b.size()) == v.size() && ordered(b) && j.rows() == v.size() && w.size() == v.size());
  REQUIRE(0 <= col && col < j.cols());
  AbsoluteCost c(std::make_shared<AnySet>(v, b, j, w), w);
  double cost = 0, slope = 0;
  bool away = true;                // no error inside the tolerance around the kink, other than zero itself
  for (Index i = 0; i < v.size(); ++i)
  {
    const double e = err(b[U(i)], v(i));
    cost += mag(w(i)) * mag(e);
    slope += mag(w(i)) * sgn(e, 0) * jac_at(j, i, col);
    if (away && e != 0 && mag(e) < 1e-12) away = false;
  }
  ENSURE_EQI("one row", c.getRows(), 1);
  ENSURE_EQI("values: one row", c.getValues().size(), 1);
  ENSURE_EQ("weighted sum of absolute bound errors", c.getValues()(0), cost);
  const Jacobian g = c.getJacobian();
  ENSURE_EQI("gradient: one row", g.rows(), 1);
  ENSURE_EQI("gradient: columns", g.cols(), j.cols());
  REQUIRE(away);
  ENSURE_EQ("gradient is a subgradient", jac_at(g, 0, col), slope);
}
LEMMA(L_absolute_unweighted, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w, Index col)
{
  REQUIRE(v.size() > 0 && static_cast<Index>(b.size()) == v.size() && ordered(b) && j.rows() == v.size());
  REQUIRE(0 <= col && col < j.cols());
  AbsoluteCost c(std::make_shared<AnySet>(v, b, j, w));
  double cost = 0, slope = 0;
  bool away = true;
  for (Index i = 0; i < v.size(); ++i)
  {
    const double e = err(b[U(i)], v(i));
    cost += mag(e);
    slope += sgn(e, 0) * jac_at(j, i, col);
    if (away && e != 0 && mag(e) < 1e-12) away = false;
  }
  ENSURE_EQ("sum of absolute bound errors", c.getValues()(0), cost);
  REQUIRE(away);
  ENSURE_EQ("gradient is a subgradient", jac_at(c.getJacobian(), 0, col), slope);
}
LEMMA(L_coefficients, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& k, Index i)
{
  REQUIRE(v.size() > 0 && static_cast<Index>(b.size()) == v.size() && j.rows() == v.size() && k.size() == v.size() && 0 <= i && i < k.size());
  auto s = std::make_shared<AnySet>(v, b, j, k);
  SquaredCost q(s);
  AbsoluteCost a(s);
  ENSURE_EQI("squared: size", q.getCoefficients().size(), k.size());
  ENSURE_EQ("squared: the constraint's coefficients", q.getCoefficients()(i), k(i));
  ENSURE_EQI("absolute: size", a.getCoefficients().size(), k.size());
  ENSURE_EQ("absolute: the constraint's coefficients", a.getCoefficients()(i), k(i));
  ENSURE("update keeps one row", q.update() == 1 && a.update() == 1 && q.getRows() == 1 && a.getRows() == 1);
}
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
