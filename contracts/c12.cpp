// C12: vector expressions of the SQP layer
#include "ifopt_spec.h"
#include <trajopt_sqp/expressions.h>
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { r.n = r.i(1, 4); } }
#endif
namespace trajopt_lemmas
{
using namespace trajopt_sqp;
inline bool weights_ok(const VectorXd& w)
{
  bool ok = true;
  for (Index i = 0; i < w.size(); ++i)
    if (ok && !(w(i) >= 0)) ok = false;
  return ok;
}
/// an affine expression list with the given constants and rows
inline AffExprs aff(const VectorXd& c, const Jacobian& a)
{
  AffExprs e;
  e.constants = c;
  e.linear_coeffs = a;
  return e;
}
inline double aff_at(const VectorXd& c, const Jacobian& a, Index i, const VectorXd& x)
{
  double s = c(i);
  for (Index k = 0; k < a.cols(); ++k) s += a.coeff(i, k) * x(k);
  return s;
}
LEMMA(L_aff_values, const VectorXd& c, const Jacobian& a, const VectorXd& x, Index i)
{
  REQUIRE(a.rows() == c.size() && a.cols() == x.size() && 0 <= i && i < c.size());
  VectorXd out(c.size());
  aff(c, a).values(out, x);
  ENSURE_EQI("one value per row", out.size(), c.size());
  ENSURE_EQ("constant plus linear part", out(i), aff_at(c, a, i, x));
}
LEMMA(L_aff_create, const VectorXd& e, const Jacobian& j, const VectorXd& x0, const VectorXd& x, Index i, Index col, const VectorXd& oc, const Jacobian& oa)
{
  REQUIRE(j.rows() == e.size() && j.cols() == x0.size() && x.size() == x0.size() && 0 <= i && i < e.size() && 0 <= col && col < j.cols());
  AffExprs m = aff(oc, oa);
  m.create(e, j, x0);
  ENSURE_EQI("rows", m.constants.size(), e.size());
  ENSURE("matrix size", m.linear_coeffs.rows() == j.rows() && m.linear_coeffs.cols() == j.cols());
  ENSURE_EQ("has the given derivative", m.linear_coeffs.coeff(i, col), j.coeff(i, col));
  VectorXd at(e.size());
  m.values(at, x0);
  ENSURE_EQ("reproduces the error at the point", at(i), e(i));
  double lin = e(i);
  for (Index k = 0; k < j.cols(); ++k) lin += j.coeff(i, k) * (x(k) - x0(k));
  m.values(at, x);
  ENSURE_EQ("first-order model everywhere", at(i), lin);
}
/// a result object that was used before: what it held must not matter
inline QuadExprs used(const VectorXd& c, const Jacobian& a, const std::vector<Jacobian>& qs)
{
  QuadExprs q;
  q.constants = c;
  q.linear_coeffs = a;
  q.quadratic_coeffs = qs;
  q.objective_linear_coeffs = c;
  q.objective_quadratic_coeffs = a;
  return q;
}
LEMMA(L_square, const VectorXd& c, const Jacobian& a, const VectorXd& w, const VectorXd& x, Index i, const VectorXd& oc, const Jacobian& oa, const std::vector<Jacobian>& oq)
{
  REQUIRE(a.rows() == c.size() && a.cols() == x.size() && w.size() == c.size() && weights_ok(w) && 0 <= i && i < c.size());
  QuadExprs q = used(oc, oa, oq);
  aff(c, a).square(q, w);
  VectorXd out(c.size());
  q.values(out, x);
  const double v = aff_at(c, a, i, x);
  ENSURE_EQI("one expression per row", static_cast<Index>(q.quadratic_coeffs.size()), c.size());
  ENSURE_EQ("weight times the square", out(i), w(i) * v * v);
}
LEMMA(L_square_objective, const VectorXd& c, const Jacobian& a, const VectorXd& w, Index k, Index l, const VectorXd& oc, const Jacobian& oa, const std::vector<Jacobian>& oq)
{
  REQUIRE(a.rows() == c.size() && w.size() == c.size() && weights_ok(w) && 0 <= k && k < a.cols() && 0 <= l && l < a.cols());
  QuadExprs q = used(oc, oa, oq);
  aff(c, a).square(q, w);
  double lin = 0, quad = 0;
  for (Index i = 0; i < c.size(); ++i)
  {
    lin += 2 * w(i) * c(i) * a.coeff(i, k);
    quad += w(i) * a.coeff(i, k) * a.coeff(i, l);
  }
  ENSURE_EQI("gradient size", q.objective_linear_coeffs.size(), a.cols());
  ENSURE_EQ("summed linear part", q.objective_linear_coeffs(k), lin);
  ENSURE("Hessian size", q.objective_quadratic_coeffs.rows() == a.cols() && q.objective_quadratic_coeffs.cols() == a.cols());
  ENSURE_EQ("summed quadratic part", q.objective_quadratic_coeffs.coeff(k, l), quad);
}
LEMMA(L_square_rows, const VectorXd& c, const Jacobian& a, const VectorXd& w, Index i, Index k, const VectorXd& oc, const Jacobian& oa, const std::vector<Jacobian>& oq)
{
  REQUIRE(a.rows() == c.size() && w.size() == c.size() && weights_ok(w) && 0 <= i && i < c.size() && 0 <= k && k < a.cols());
  QuadExprs q = used(oc, oa, oq);
  aff(c, a).square(q, w);
  ENSURE_EQI("constants", q.constants.size(), c.size());
  ENSURE_EQ("constant: weighted square", q.constants(i), w(i) * c(i) * c(i));
  ENSURE("linear part: size", q.linear_coeffs.rows() == c.size() && q.linear_coeffs.cols() == a.cols());
  ENSURE_EQ("linear part", q.linear_coeffs.coeff(i, k), 2 * w(i) * c(i) * a.coeff(i, k));
}
inline bool quadratics_ok(const std::vector<Jacobian>& q, Index n)
{
  bool ok = true;
  for (std::size_t i = 0; i < q.size(); ++i)
    if (ok && !(q[i].rows() == 0 || (q[i].rows() == n && q[i].cols() == n))) ok = false;
  return ok;
}
LEMMA(L_quad_values, const VectorXd& c, const Jacobian& a, const std::vector<Jacobian>& qs, const VectorXd& x, Index i)
{
  REQUIRE(a.rows() == c.size() && a.cols() == x.size() && x.size() > 1 && static_cast<Index>(qs.size()) == c.size() && 0 <= i && i < c.size());
  QuadExprs q;
  q.constants = c;
  q.linear_coeffs = a;
  q.quadratic_coeffs = qs;
  REQUIRE(quadratics_ok(qs, x.size()));
  const Jacobian& m = qs[U(i)];
  double s = aff_at(c, a, i, x);
  for (Index k = 0; k < m.rows(); ++k)
    for (Index l = 0; l < m.cols(); ++l) s += x(k) * m.coeff(k, l) * x(l);
  VectorXd out(c.size());
  q.values(out, x);
  ENSURE_EQ("constant, linear and quadratic part", out(i), s);
}
inline bool hessians_ok(const std::vector<Jacobian>& h, Index n)
{
  bool ok = true;
  for (std::size_t i = 0; i < h.size(); ++i)
    if (ok && !(h[i].rows() == n && h[i].cols() == n)) ok = false;
  return ok;
}
inline bool symmetric(const Jacobian& h)
{
  bool ok = true;
  for (Index k = 0; k < h.rows(); ++k)
    for (Index l = 0; l < h.cols(); ++l)
      if (ok && h.coeff(k, l) != h.coeff(l, k)) ok = false;
  return ok;
}
LEMMA(L_quad_create, const VectorXd& e, const Jacobian& j, const std::vector<Jacobian>& h, const VectorXd& x0, const VectorXd& x, Index i, const VectorXd& oc, const Jacobian& oa, const std::vector<Jacobian>& oq)
{
  REQUIRE(j.rows() == e.size() && j.cols() == x0.size() && x.size() == x0.size() && static_cast<Index>(h.size()) == e.size() && 0 <= i && i < e.size());
  REQUIRE(x.size() > 1 && hessians_ok(h, x.size()) && symmetric(h[U(i)]));
  QuadExprs m = used(oc, oa, oq);
  m.create(e, j, h, x0);
  double f = e(i);
  for (Index k = 0; k < j.cols(); ++k) f += j.coeff(i, k) * (x(k) - x0(k));
  for (Index k = 0; k < j.cols(); ++k)
    for (Index l = 0; l < j.cols(); ++l) f += 0.5 * h[U(i)].coeff(k, l) * (x(k) - x0(k)) * (x(l) - x0(l));
  VectorXd out(e.size());
  m.values(out, x);
  ENSURE_EQ("second-order model everywhere", out(i), f);
}
// one variable: a 1x1 second-order matrix (see known_findings.txt)
LEMMA(L_quad_create_one_variable, const VectorXd& e, const Jacobian& j, const std::vector<Jacobian>& h, const VectorXd& x0, const VectorXd& x, Index i)
{
  REQUIRE(j.rows() == e.size() && j.cols() == x0.size() && x.size() == x0.size() && static_cast<Index>(h.size()) == e.size() && 0 <= i && i < e.size());
  REQUIRE(x.size() == 1 && hessians_ok(h, x.size()));
  QuadExprs m;
  m.create(e, j, h, x0);
  const double d = x(0) - x0(0);
  VectorXd out(e.size());
  m.values(out, x);
  ENSURE_EQ("second-order model of one variable", out(i), e(i) + j.coeff(i, 0) * d + 0.5 * h[U(i)].coeff(0, 0) * d * d);
}
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
