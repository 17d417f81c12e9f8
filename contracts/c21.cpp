// C21: array helpers
#include "ifopt_spec.h"
#include <trajopt_common/basic_array.hpp>
#include <trajopt_common/eigen_slicing.hpp>
#include <trajopt_common/interpolation.hpp>
#include <trajopt_common/vector_ops.hpp>
#include <trajopt_common/utils.hpp>
#include <trajopt_common/eigen_conversions.hpp>
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng&) {} }
#endif
namespace trajopt_lemmas
{
using trajopt_common::BasicArray;
using Vec = std::vector<double>;
/// an array with every element named
inline BasicArray<double> grid(int r, int c, const Eigen::VectorXd& v)
{
  BasicArray<double> a(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) a(i, j) = spec::oracle2(v, i, j);
  return a;
}
inline double el(const Eigen::VectorXd& v, int i, int j) { return spec::oracle2(v, i, j); }
inline bool dims(int r, int c) { return 0 <= r && r < 1000 && 0 <= c && c < 1000; }
LEMMA(L_array, int r, int c, const Eigen::VectorXd& v, int i, int j)
{
  REQUIRE(dims(r, c) && 0 <= i && i < r && 0 <= j && j < c);
  BasicArray<double> a = grid(r, c, v);
  ENSURE("shape", a.rows() == r && a.cols() == c && a.size() == r * c);
  ENSURE_EQ("element", a(i, j), el(v, i, j));
  ENSURE_EQ("at", a.at(i, j), el(v, i, j));
  const BasicArray<double> b = a;
  ENSURE("copy: shape", b.rows() == r && b.cols() == c);
  ENSURE_EQ("copy: element", b(i, j), el(v, i, j));
  ENSURE_EQ("copy: at", b.at(i, j), el(v, i, j));
}
LEMMA(L_array_set, int r, int c, const Eigen::VectorXd& v, int i, int j, int k, int l, double d)
{
  REQUIRE(dims(r, c) && 0 <= i && i < r && 0 <= j && j < c && 0 <= k && k < r && 0 <= l && l < c);
  BasicArray<double> a = grid(r, c, v);
  a(i, j) = d;
  ENSURE_EQ("element set", a(i, j), d);
  ENSURE("others unchanged", (k == i && l == j) || a.at(k, l) == el(v, k, l));
  BasicArray<double> b = grid(r, c, v);
  b.at(i, j) = d;
  ENSURE_EQ("at set", b(i, j), d);
  ENSURE("others unchanged (at)", (k == i && l == j) || b(k, l) == el(v, k, l));
}
LEMMA(L_resize, int r, int c, int n, int m, const Eigen::VectorXd& v)
{
  REQUIRE(dims(r, c) && dims(n, m));
  BasicArray<double> a = grid(r, c, v);
  a.resize(n, m);
  ENSURE("shape", a.rows() == n && a.cols() == m && a.size() == n * m);
}
LEMMA(L_from_data, int r, int c, const Vec& d, int i, int j)
{
  REQUIRE(dims(r, c) && 0 <= i && i < r && 0 <= j && j < c && d.size() == static_cast<std::size_t>(r * c));
  BasicArray<double> a(r, c, d.data());
  ENSURE("shape", a.rows() == r && a.cols() == c && a.size() == r * c);
  ENSURE_EQ("rows one after the other", a(i, j), d[static_cast<std::size_t>(i * c + j)]);
  const Vec f = a.flatten();
  ENSURE("flat", f.size() == d.size());
  ENSURE_EQ("flat element", f[static_cast<std::size_t>(i * c + j)], d[static_cast<std::size_t>(i * c + j)]);
}
LEMMA(L_block, int r, int c, const Eigen::VectorXd& v, int r0, int c0, int n, int m, int i, int j)
{
  REQUIRE(dims(r, c) && dims(n, m) && 0 <= r0 && r0 + n <= r && 0 <= c0 && c0 + m <= c && 0 <= i && i < n && 0 <= j && j < m);
  const BasicArray<double> a = grid(r, c, v);
  const BasicArray<double> b = a.block(r0, c0, n, m);
  ENSURE("shape", b.rows() == n && b.cols() == m);
  ENSURE_EQ("element", b(i, j), el(v, r0 + i, c0 + j));
}
LEMMA(L_row_and_column_blocks, int r, int c, const Eigen::VectorXd& v, int r0, int c0, int n, int i)
{
  REQUIRE(dims(r, c) && 0 <= n && 0 <= r0 && r0 < r && 0 <= c0 && c0 < c && 0 <= i && i < n);
  const BasicArray<double> a = grid(r, c, v);
  if (c0 + n <= c)
  {
    const Vec x = a.rblock(r0, c0, n);
    ENSURE("row: size", x.size() == static_cast<std::size_t>(n));
    ENSURE_EQ("row: element", x[static_cast<std::size_t>(i)], el(v, r0, c0 + i));
  }
  if (r0 + n <= r)
  {
    const Vec x = a.cblock(r0, c0, n);
    ENSURE("column: size", x.size() == static_cast<std::size_t>(n));
    ENSURE_EQ("column: element", x[static_cast<std::size_t>(i)], el(v, r0 + i, c0));
  }
}
LEMMA(L_row_and_column, int r, int c, const Eigen::VectorXd& v, int i, int j)
{
  REQUIRE(dims(r, c) && 0 <= i && i < r && 0 <= j && j < c);
  BasicArray<double> a = grid(r, c, v);
  const Vec x = a.row(i), y = a.col(j);
  ENSURE("sizes", x.size() == static_cast<std::size_t>(c) && y.size() == static_cast<std::size_t>(r));
  ENSURE_EQ("row element", x[static_cast<std::size_t>(j)], el(v, i, j));
  ENSURE_EQ("column element", y[static_cast<std::size_t>(i)], el(v, i, j));
}
LEMMA(L_rows, int r, int c, const Eigen::VectorXd& v, int r0, int n, int i, int j)
{
  REQUIRE(dims(r, c) && 0 <= n && 0 <= r0 && r0 + n <= r && 0 <= i && i < n && 0 <= j && j < c);
  BasicArray<double> a = grid(r, c, v);
  const BasicArray<double> b = a.middleRows(r0, n), t = a.topRows(n), u = a.bottomRows(n);
  ENSURE("middle: shape", b.rows() == n && b.cols() == c);
  ENSURE_EQ("middle: element", b(i, j), el(v, r0 + i, j));
  ENSURE("top: shape", t.rows() == n && t.cols() == c);
  ENSURE_EQ("top: element", t(i, j), el(v, i, j));
  ENSURE("bottom: shape", u.rows() == n && u.cols() == c);
  ENSURE_EQ("bottom: element", u(i, j), el(v, r - n + i, j));
}
inline bool inside(const std::vector<int>& k, int n)
{
  bool r = true;
  for (std::size_t i = 0; i < k.size(); ++i)
    if (r && (k[i] < 0 || k[i] >= n)) r = false;
  return r;
}
inline bool known(const std::vector<int>& k, std::size_t i, int n) { return 0 <= k[i] && k[i] < n; }
LEMMA(L_slice, const Eigen::VectorXd& x, const std::vector<int>& k, std::size_t i)
{
  REQUIRE(inside(k, static_cast<int>(x.size())) && i < k.size() && known(k, i, static_cast<int>(x.size())));
  const Eigen::VectorXd s = trajopt_common::fancySlice(x, k);
  ENSURE("size", static_cast<std::size_t>(s.size()) == k.size());
  ENSURE_EQ("element", s(static_cast<Eigen::Index>(i)), x(k[i]));
}
/// how many elements before p are not zero
inline std::size_t rank(const Eigen::VectorXd& x, int p)
{
  std::size_t n = 0;
  for (int i = 0; i < p; ++i)
    if (x(i) != 0) ++n;
  return n;
}
LEMMA(L_nonzeros, const Eigen::VectorXd& x, int p)
{
  REQUIRE(0 <= p && p < x.size() && x(p) != 0);
  const std::vector<int> k = trajopt_common::flatnonzero(x);
  ENSURE("one for each element that is not zero", k.size() == rank(x, static_cast<int>(x.size())));
  ENSURE("in order", k[rank(x, p)] == p);
}
LEMMA(L_range, int n, int i)
{
  REQUIRE(0 <= i && i < n && n < 100000);
  const std::vector<int> r = trajopt_common::arange(n);
  ENSURE("size", r.size() == static_cast<std::size_t>(n));
  ENSURE("element", r[static_cast<std::size_t>(i)] == i);
}
LEMMA(L_close, double x, double y, double e)
{
  ENSURE("nearer than the tolerance", trajopt_common::doubleEquals(x, y, e) == (x - y < e && y - x < e));
  ENSURE("default tolerance", trajopt_common::doubleEquals(x, y) == (x - y < 1e-5 && y - x < 1e-5));
}
LEMMA(L_concat, const Vec& a, const Vec& b, std::size_t i)
{
  const Vec c = trajopt_common::concat(a, b);
  ENSURE("size", c.size() == a.size() + b.size());
  if (i < a.size()) ENSURE_EQ("first part", c[i], a[i]);
  if (i < b.size()) ENSURE_EQ("second part", c[a.size() + i], b[i]);
}
LEMMA(L_conversions, const Vec& a, const Eigen::VectorXd& v, std::size_t i, Eigen::Index j)
{
  const Eigen::VectorXd x = trajopt_common::toVectorXd(a);
  ENSURE("size", static_cast<std::size_t>(x.size()) == a.size());
  if (i < a.size()) ENSURE_EQ("element", x(static_cast<Eigen::Index>(i)), a[i]);
  const Vec y = trajopt_common::toDblVec(v);
  ENSURE("size of the vector", y.size() == static_cast<std::size_t>(v.size()));
  if (0 <= j && j < v.size()) ENSURE_EQ("element of the vector", y[static_cast<std::size_t>(j)], v(j));
}
inline bool sorted(const Eigen::VectorXd& x)
{
  bool r = true;
  for (Eigen::Index i = 1; i < x.size(); ++i)
    if (r && x(i - 1) > x(i)) r = false;
  return r;
}
/// the positions found for the first n query points: each is the first element that is not below its query point
inline bool found(const Eigen::VectorXd& x, const Eigen::VectorXd& y, const Eigen::VectorXi& out, int n)
{
  bool r = true;
  for (int k = 0; k < n; ++k)
    if (r && !(out(k) >= 0 && out(k) <= y.size() && (out(k) == 0 || y(out(k) - 1) < x(k)) && (out(k) == y.size() || x(k) <= y(out(k))))) r = false;
  return r;
}
inline bool inside(const Eigen::VectorXi& out, int n, int m)
{
  bool r = true;
  for (int k = 0; k < n; ++k)
    if (r && (out(k) < 0 || out(k) > m)) r = false;
  return r;
}
/// a query point and the position it belongs to, whatever they are
inline Eigen::Index query = 0, place = 0;
inline bool belongs(const Eigen::VectorXd& x, const Eigen::VectorXd& y)
{
  return 0 <= query && query < x.size() && 0 <= place && place <= y.size() && (place == 0 || y(place - 1) < x(query)) &&
         (place == y.size() || x(query) <= y(place));
}
/// holds at every iteration of both loops of searchsorted
inline void loop_searchsorted(const Eigen::VectorXd& x, const Eigen::VectorXd& y, const Eigen::VectorXi& out, int nX, int nY, int iX, int iY)
{
  INVARIANT("position", 0 <= iY && iY <= nY);
  INVARIANT("query point", 0 <= iX && iX <= nX);
  INVARIANT("everything before the position is below the query point", iY == 0 || iX >= nX || y(iY - 1) < x(iX));
  INVARIANT("everything before the position is below the last query point", iY == 0 || (iX > 0 && y(iY - 1) < x(iX - 1)));
  INVARIANT("size", out.size() == nX);
  INVARIANT("inside", inside(out, iX, nY));
  INVARIANT("found", found(x, y, out, iX));
  INVARIANT("not beyond the place", iX > query || iY <= place);
  INVARIANT("found at its place", iX <= query || out(query) == place);
}
/// no element before position n is above the one at n: x is sorted exactly if this is so for every n
inline bool sorted_up_to(const Eigen::VectorXd& x, Eigen::Index n)
{
  bool r = true;
  for (Eigen::Index k = 0; k < n; ++k)
    if (r && x(k) > x(n)) r = false;
  return r;
}
LEMMA(L_search, const Eigen::VectorXd& x, const Eigen::VectorXd& y, Eigen::Index i)
{
  REQUIRE(0 <= i && i < x.size() && sorted(x) && sorted(y));
  const Eigen::VectorXi k = trajopt_common::searchsorted(x, y);
  ENSURE("size", k.size() == x.size());
  ENSURE("inside", k(i) >= 0 && k(i) <= y.size());
  ENSURE("first element not below the query point", (k(i) == 0 || y(k(i) - 1) < x(i)) && (k(i) == y.size() || x(i) <= y(k(i))));
}
LEMMA(L_search_place, const Eigen::VectorXd& x, const Eigen::VectorXd& y, Eigen::Index i, Eigen::Index m)
{
  REQUIRE(0 <= i && i < x.size() && 0 <= m && m <= y.size() && sorted_up_to(x, i) && (m == 0 || sorted_up_to(y, m - 1)));
  query = i;
  place = m;
  REQUIRE(belongs(x, y));
  const Eigen::VectorXi k = trajopt_common::searchsorted(x, y);
  ENSURE("the only place", k(i) == m);
}
/// m is any position: the one before the axis, behind it, or the one with the query point between its two neighbours
LEMMA(L_interpolation, const Eigen::VectorXd& x, const Eigen::VectorXd& y, const Eigen::MatrixXd& f, Eigen::Index i, Eigen::Index j, Eigen::Index m)
{
  REQUIRE(0 <= i && i < x.size() && y.size() > 0 && f.rows() == y.size() && 0 <= j && j < f.cols());
  REQUIRE(0 <= m && m <= y.size() && sorted_up_to(x, i) && (m == 0 || sorted_up_to(y, m - 1)));
  query = i;
  place = m;
  REQUIRE(belongs(x, y));
  const Eigen::MatrixXd g = trajopt_common::interp2d(x, y, f);
  ENSURE("shape", g.rows() == x.size() && g.cols() == f.cols());
  const double q = x(i);
  if (m == 0) ENSURE_EQ("before the axis", g(i, j), f(0, j));
  else if (m == y.size()) ENSURE_EQ("behind the axis", g(i, j), f(y.size() - 1, j));
  else
  {
    const double t = (q - y(m - 1)) / (y(m) - y(m - 1));
    ENSURE_EQ("on the line between the samples", g(i, j), f(m - 1, j) * (1 - t) + f(m, j) * t);
    if (q == y(m)) ENSURE_EQ("at a sample", g(i, j), f(m, j));
  }
}
#ifndef VERIF_STATIC
inline Eigen::VectorXd axis(const Eigen::VectorXd& d)
{
  Eigen::VectorXd r(d.size());
  double s = d.size() > 0 ? d(0) : 0;
  for (Eigen::Index i = 0; i < d.size(); ++i)
  {
    if (i > 0) s += std::fabs(d(i)) > 1 ? std::fabs(d(i)) : std::floor(std::fabs(d(i)) * 4) / 4;
    r(i) = s;
  }
  return r;
}
LEMMA(B_search, const Eigen::VectorXd& x0, const Eigen::VectorXd& y0, Eigen::Index i)
{
  REQUIRE(0 <= i && i < x0.size());
  const Eigen::VectorXd x = axis(x0), y = axis(y0);
  const Eigen::VectorXi k = trajopt_common::searchsorted(x, y);
  ENSURE("size", k.size() == x.size());
  ENSURE("inside", k(i) >= 0 && k(i) <= y.size());
  ENSURE("first element not below the query point", (k(i) == 0 || y(k(i) - 1) < x(i)) && (k(i) == y.size() || x(i) <= y(k(i))));
}
LEMMA(B_interpolation, const Eigen::VectorXd& x0, const Eigen::VectorXd& y0, const Eigen::VectorXd& v, Eigen::Index i, Eigen::Index j, bool grid, Eigen::Index m)
{
  REQUIRE(0 <= i && i < x0.size() && y0.size() > 0 && 0 <= j && j < 3);
  const Eigen::VectorXd y = axis(y0);
  const Eigen::VectorXd x = grid ? y : axis(x0);
  REQUIRE(i < x.size());
  Eigen::MatrixXd f(y.size(), 3);
  for (Eigen::Index a = 0; a < y.size(); ++a)
    for (Eigen::Index b = 0; b < 3; ++b) f(a, b) = spec::oracle2(v, a, b);
  const Eigen::MatrixXd g = trajopt_common::interp2d(x, y, f);
  ENSURE("shape", g.rows() == x.size() && g.cols() == 3);
  const double q = x(i);
  Eigen::Index k = 0;
  while (k < y.size() && y(k) < q) ++k;
  if (k == 0) ENSURE_EQ("before the axis", g(i, j), f(0, j));
  else if (k == y.size()) ENSURE_EQ("behind the axis", g(i, j), f(y.size() - 1, j));
  else
  {
    const double t = (q - y(k - 1)) / (y(k) - y(k - 1));
    ENSURE_EQ("on the line between the samples", g(i, j), f(k - 1, j) + t * (f(k, j) - f(k - 1, j)));
    ENSURE("at a sample", q != y(k) || std::fabs(g(i, j) - f(k, j)) < 1e-9 * (1 + std::fabs(f(k, j)) + std::fabs(f(k - 1, j))));
  }
}
#endif
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
