// C09: bounds, violations, closest valid points, interpolation
#include "ifopt_spec.h"
#include <trajopt_ifopt/utils/ifopt_utils.h>
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng&) {} }
#endif
namespace trajopt_lemmas
{
inline bool fin(double v) { return std::isfinite(v) && v < 1e20 && v > -1e20; }
inline bool classified(const Bounds& b)
{
  const bool l = fin(b.getLower()), u = fin(b.getUpper());
  const double d = b.getUpper() - b.getLower();
  const bool same = d < 1e-8 && d > -1e-8;
  if (l && u) return b.getType() == (same ? BoundsType::kEquality : BoundsType::kRangeBound);
  if (l) return b.getType() == BoundsType::kLowerBound;
  if (u) return b.getType() == BoundsType::kUpperBound;
  return b.getType() == BoundsType::kUnbounded;
}
inline double wild(double x, int sel)
{
  if (sel == 1) return static_cast<double>(INFINITY);
  if (sel == 2) return -static_cast<double>(INFINITY);
  if (sel == 3) return 1e20;
  if (sel == 4) return -1e20;
  if (sel == 5) return 1e21 + x;
  return x;
}
LEMMA(L_bounds_make, double l0, double u0, int sl, int su)
{
  const double l = wild(l0, sl), u = wild(u0, su);
  const Bounds b(l, u);
  ENSURE("lower limit", b.getLower() == l);
  ENSURE("upper limit", b.getUpper() == u);
  ENSURE("classification", classified(b));
  Bounds c;
  ENSURE("default bound is zero", c.getLower() == 0 && c.getUpper() == 0);
  ENSURE("default classification", classified(c));
  c.set(l, u);
  ENSURE("set: limits", c.getLower() == l && c.getUpper() == u);
  ENSURE("set: classification", classified(c));
}
LEMMA(L_bounds_set, const Bounds& b0, double x0, int s)
{
  REQUIRE(classified(b0));
  const double x = wild(x0, s);
  Bounds b = b0;
  b.setLower(x);
  ENSURE("setLower: limits", b.getLower() == x && b.getUpper() == b0.getUpper());
  ENSURE("setLower: classification", classified(b));
  Bounds c = b0;
  c.setUpper(x);
  ENSURE("setUpper: limits", c.getUpper() == x && c.getLower() == b0.getLower());
  ENSURE("setUpper: classification", classified(c));
}
LEMMA(L_bounds_shift, const Bounds& b0, double d0, int s)
{
  const double d = s == 3 ? 1e20 : s == 4 ? -1e20 : s == 5 ? 3e20 + d0 : d0;
  REQUIRE(classified(b0));
  Bounds b = b0;
  b += d;
  ENSURE_EQ("+=: lower", b.getLower(), b0.getLower() + d);
  ENSURE_EQ("+=: upper", b.getUpper(), b0.getUpper() + d);
  ENSURE("+=: classification", classified(b));
  Bounds c = b0;
  c -= d;
  ENSURE_EQ("-=: lower", c.getLower(), b0.getLower() - d);
  ENSURE_EQ("-=: upper", c.getUpper(), b0.getUpper() - d);
  ENSURE("-=: classification", classified(c));
}
LEMMA(L_to_bounds, const Eigen::Matrix<double, Eigen::Dynamic, 2>& m, Index i)
{
  REQUIRE(0 <= i && i < m.rows());
  const std::vector<Bounds> b = toBounds(m);
  ENSURE_EQI("one bound per row", b.size(), m.rows());
  ENSURE("limits of row i", lo(b[U(i)]) == m(i, 0) && hi(b[U(i)]) == m(i, 1));
  ENSURE("classified", classified(b[U(i)]));
}
LEMMA(L_to_bounds_2, const VectorXd& l, const VectorXd& u, Index i)
{
  REQUIRE(l.size() == u.size() && 0 <= i && i < l.size());
  const std::vector<Bounds> b = toBounds(l, u);
  ENSURE_EQI("one bound per entry", b.size(), l.size());
  ENSURE("limits of entry i", lo(b[U(i)]) == l(i) && hi(b[U(i)]) == u(i));
  ENSURE("classified", classified(b[U(i)]));
}
LEMMA(L_interpolate, const VectorXd& a, const VectorXd& b, Index n, Index k, Index j)
{
  REQUIRE(a.size() == b.size() && n >= 2 && 0 <= k && k < n && 0 <= j && j < a.size());
  const std::vector<VectorXd> r = interpolate(a, b, n);
  ENSURE_EQI("number of states", r.size(), n);
  ENSURE_EQI("dimension", r[U(k)].size(), a.size());
  const double s = static_cast<double>(k) / static_cast<double>(n - 1);
  ENSURE_EQ("evenly spaced from the first to the last state", r[U(k)](j), a(j) + s * (b(j) - a(j)));
}
LEMMA(L_closest, const VectorXd& x, const std::vector<Bounds>& b, Index i)
{
  REQUIRE(x.size() == static_cast<Index>(b.size()) && ordered(b) && 0 <= i && i < x.size());
  const VectorXd y = getClosestValidPoint(x, b);
  ENSURE_EQI("dimension", y.size(), x.size());
  const double l = lo(b[U(i)]), u = hi(b[U(i)]);
  ENSURE("inside the limits", l <= y(i) && y(i) <= u);
  ENSURE("unchanged when valid", spec::implies(l <= x(i) && x(i) <= u, y(i) == x(i)));
  ENSURE("on the lower limit when below", spec::implies(x(i) < l, y(i) == l));
  ENSURE("on the upper limit when above", spec::implies(x(i) > u, y(i) == u));
}
LEMMA(L_errors, const VectorXd& x, const std::vector<Bounds>& b, const VectorXd& o, Index i)
{
  REQUIRE(x.size() == static_cast<Index>(b.size()) && o.size() == x.size() && 0 <= i && i < x.size() && ordered(b));
  VectorXd e = o, v = o;
  calcBoundsErrors(e, x, b);
  calcBoundsViolations(v, x, b);
  const double l = lo(b[U(i)]), u = hi(b[U(i)]);
  if (x(i) < l)
  {
    ENSURE_EQ("error below", e(i), x(i) - l);
    ENSURE_EQ("violation below", v(i), l - x(i));
  }
  else if (x(i) > u)
  {
    ENSURE_EQ("error above", e(i), x(i) - u);
    ENSURE_EQ("violation above", v(i), x(i) - u);
  }
  else
  {
    ENSURE("no error inside", e(i) == 0);
    ENSURE("no violation inside", v(i) == 0);
  }
}
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
