// C01: algebra of affine and quadratic expressions
#include "sco_spec.h"
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/expr_vec_ops.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { make_pool(r.i(1, 4)); r.n = static_cast<int>(pool().size()); } }
#endif
namespace sco_lemmas
{
LEMMA(L_aff_value, const AffExpr& a, const DblVec& x)
{
  REQUIRE(wf(a, x));
  ENSURE_EQ("AffExpr::value(vector) is constant + sum coeff*var", a.value(x), den(a, x));
  ENSURE_EQ("AffExpr::value(pointer) is constant + sum coeff*var", a.value(x.data()), den(a, x));
}
LEMMA(L_quad_value, const QuadExpr& q, const DblVec& x)
{
  REQUIRE(wf(q, x));
  ENSURE_EQ("QuadExpr::value(vector) is aff + sum coeff*var1*var2", q.value(x), den(q, x));
  ENSURE_EQ("QuadExpr::value(pointer) is aff + sum coeff*var1*var2", q.value(x.data()), den(q, x));
}
#define CHECK_VALUE(NAME, TYPE, EXPR, EXPECTED)                                                                        \
  {                                                                                                                    \
    const TYPE r_ = EXPR;                                                                                              \
    ENSURE(NAME ": result well formed", wf(r_, x));                                                                    \
    ENSURE_EQ(NAME ": value", den(r_, x), EXPECTED);                                                                   \
  }
#define CHECK_INPLACE(NAME, TYPE, INIT, CALL, EXPECTED)                                                                \
  {                                                                                                                    \
    TYPE r_ = INIT;                                                                                                    \
    CALL;                                                                                                              \
    ENSURE(NAME ": result well formed", wf(r_, x));                                                                    \
    ENSURE_EQ(NAME ": value", den(r_, x), EXPECTED);                                                                   \
  }

LEMMA(L_construct, double c, const Var& v, const DblVec& x)
{
  REQUIRE(wf(v, x));
  CHECK_VALUE("AffExpr(double)", AffExpr, AffExpr(c), c);
  CHECK_VALUE("AffExpr(Var)", AffExpr, AffExpr(v), val(v, x));
  CHECK_VALUE("QuadExpr(double)", QuadExpr, QuadExpr(c), c);
  CHECK_VALUE("QuadExpr(Var)", QuadExpr, QuadExpr(v), val(v, x));
  CHECK_VALUE("empty AffExpr", AffExpr, AffExpr(), 0);
  CHECK_VALUE("empty QuadExpr", QuadExpr, QuadExpr(), 0);
  ENSURE_EQ("Var::value(vector)", v.value(x), val(v, x));
  ENSURE_EQ("Var::value(pointer)", v.value(x.data()), val(v, x));
}
LEMMA(L_construct_quad, const AffExpr& a, const DblVec& x)
{
  REQUIRE(wf(a, x));
  CHECK_VALUE("QuadExpr(AffExpr)", QuadExpr, QuadExpr(a), den(a, x));
}
LEMMA(L_scale_aff, const AffExpr& a, double s, const DblVec& x)
{
  REQUIRE(wf(a, x));
  CHECK_INPLACE("exprScale(aff)", AffExpr, a, exprScale(r_, s), s * den(a, x));
  CHECK_VALUE("exprMult(aff,double)", AffExpr, exprMult(a, s), s * den(a, x));
}
LEMMA(L_scale_quad, const QuadExpr& a, double s, const DblVec& x)
{
  REQUIRE(wf(a, x));
  CHECK_INPLACE("exprScale(quad)", QuadExpr, a, exprScale(r_, s), s * den(a, x));
  CHECK_VALUE("exprMult(quad,double)", QuadExpr, exprMult(a, s), s * den(a, x));
}
LEMMA(L_var, const Var& v, double s, const DblVec& x)
{
  REQUIRE(wf(v, x));
  CHECK_VALUE("exprMult(var,double)", AffExpr, exprMult(v, s), s * val(v, x));
  CHECK_VALUE("exprSquare(var)", QuadExpr, exprSquare(v), val(v, x) * val(v, x));
}
LEMMA(L_aff_with_scalar_or_var, const AffExpr& a, double s, const Var& v, const DblVec& x)
{
  REQUIRE(wf(a, x) && wf(v, x));
  CHECK_INPLACE("exprInc(aff,double)", AffExpr, a, exprInc(r_, s), den(a, x) + s);
  CHECK_INPLACE("exprInc(aff,var)", AffExpr, a, exprInc(r_, v), den(a, x) + val(v, x));
  CHECK_INPLACE("exprDec(aff,double)", AffExpr, a, exprDec(r_, s), den(a, x) - s);
  CHECK_INPLACE("exprDec(aff,var)", AffExpr, a, exprDec(r_, v), den(a, x) - val(v, x));
  CHECK_VALUE("exprAdd(aff,double)", AffExpr, exprAdd(a, s), den(a, x) + s);
  CHECK_VALUE("exprAdd(aff,var)", AffExpr, exprAdd(a, v), den(a, x) + val(v, x));
  CHECK_VALUE("exprSub(aff,double)", AffExpr, exprSub(a, s), den(a, x) - s);
  CHECK_VALUE("exprSub(aff,var)", AffExpr, exprSub(a, v), den(a, x) - val(v, x));
}
LEMMA(L_aff_with_aff, const AffExpr& a, const AffExpr& b, const DblVec& x)
{
  REQUIRE(wf(a, x) && wf(b, x));
  AffExpr b0 = b, a0 = a;
  CHECK_INPLACE("exprInc(aff,aff)", AffExpr, a, exprInc(r_, b), den(a, x) + den(b, x));
  CHECK_INPLACE("exprInc(aff,aff&&)", AffExpr, a, exprInc(r_, AffExpr(b)), den(a, x) + den(b, x));
  CHECK_INPLACE("exprDec(aff,aff)", AffExpr, a, exprDec(r_, b), den(a, x) - den(b, x));
  CHECK_VALUE("exprAdd(aff,aff)", AffExpr, exprAdd(a, b), den(a, x) + den(b, x));
  CHECK_VALUE("exprSub(aff,aff)", AffExpr, exprSub(a, b), den(a, x) - den(b, x));
  ENSURE("left operand unchanged", same(a, a0));
  ENSURE("right operand unchanged", same(b, b0));
}
LEMMA(L_quad_with_scalar_or_var, const QuadExpr& a, double s, const Var& v, const DblVec& x)
{
  REQUIRE(wf(a, x) && wf(v, x));
  CHECK_INPLACE("exprInc(quad,double)", QuadExpr, a, exprInc(r_, s), den(a, x) + s);
  CHECK_INPLACE("exprInc(quad,var)", QuadExpr, a, exprInc(r_, v), den(a, x) + val(v, x));
  CHECK_INPLACE("exprDec(quad,double)", QuadExpr, a, exprDec(r_, s), den(a, x) - s);
  CHECK_INPLACE("exprDec(quad,var)", QuadExpr, a, exprDec(r_, v), den(a, x) - val(v, x));
  CHECK_VALUE("exprAdd(quad,double)", QuadExpr, exprAdd(a, s), den(a, x) + s);
  CHECK_VALUE("exprAdd(quad,var)", QuadExpr, exprAdd(a, v), den(a, x) + val(v, x));
  CHECK_VALUE("exprSub(quad,double)", QuadExpr, exprSub(a, s), den(a, x) - s);
  CHECK_VALUE("exprSub(quad,var)", QuadExpr, exprSub(a, v), den(a, x) - val(v, x));
}
LEMMA(L_quad_with_aff, const QuadExpr& a, const AffExpr& b, const DblVec& x)
{
  REQUIRE(wf(a, x) && wf(b, x));
  CHECK_INPLACE("exprInc(quad,aff)", QuadExpr, a, exprInc(r_, b), den(a, x) + den(b, x));
  CHECK_INPLACE("exprInc(quad,aff&&)", QuadExpr, a, exprInc(r_, AffExpr(b)), den(a, x) + den(b, x));
  CHECK_INPLACE("exprDec(quad,aff)", QuadExpr, a, exprDec(r_, b), den(a, x) - den(b, x));
  CHECK_INPLACE("exprDec(quad,aff&&)", QuadExpr, a, exprDec(r_, AffExpr(b)), den(a, x) - den(b, x));
  CHECK_VALUE("exprAdd(quad,aff)", QuadExpr, exprAdd(a, b), den(a, x) + den(b, x));
  CHECK_VALUE("exprSub(quad,aff)", QuadExpr, exprSub(a, b), den(a, x) - den(b, x));
}
LEMMA(L_quad_with_quad, const QuadExpr& a, const QuadExpr& b, const DblVec& x)
{
  REQUIRE(wf(a, x) && wf(b, x));
  CHECK_INPLACE("exprInc(quad,quad)", QuadExpr, a, exprInc(r_, b), den(a, x) + den(b, x));
  CHECK_INPLACE("exprInc(quad,quad&&)", QuadExpr, a, exprInc(r_, QuadExpr(b)), den(a, x) + den(b, x));
  CHECK_INPLACE("exprDec(quad,quad)", QuadExpr, a, exprDec(r_, b), den(a, x) - den(b, x));
  CHECK_VALUE("exprAdd(quad,quad)", QuadExpr, exprAdd(a, b), den(a, x) + den(b, x));
  CHECK_VALUE("exprSub(quad,quad)", QuadExpr, exprSub(a, b), den(a, x) - den(b, x));
}
LEMMA(L_mult_aff, const AffExpr& a, const AffExpr& b, const DblVec& x)
{
  REQUIRE(wf(a, x) && wf(b, x));
  AffExpr b0 = b, a0 = a;
  CHECK_VALUE("exprMult(aff,aff)", QuadExpr, exprMult(a, b), den(a, x) * den(b, x));
  ENSURE("left operand unchanged", same(a, a0));
  ENSURE("right operand unchanged", same(b, b0));
}
LEMMA(L_square_aff, const AffExpr& a, const DblVec& x)
{
  REQUIRE(wf(a, x));
  AffExpr a0 = a;
  CHECK_VALUE("exprSquare(aff)", QuadExpr, exprSquare(a), den(a, x) * den(a, x));
  ENSURE("operand unchanged", same(a, a0));
}
LEMMA(L_cleanup, const AffExpr& a, const DblVec& x)
{
  REQUIRE(wf(a, x));
  const AffExpr r = cleanupAff(a);
  ENSURE("result well formed", wf(r, x));
  ENSURE_EQ("constant kept", r.constant, a.constant);
  double kept = a.constant;
  long n = 0;
  for (std::size_t i = 0; i < a.coeffs.size(); ++i)
    if (std::fabs(a.coeffs[i]) > 1e-7) { kept += a.coeffs[i] * val(a.vars[i], x); ++n; }
  ENSURE_EQ("exactly the terms with |coefficient| > 1e-7 are kept", den(r, x), kept);
  ENSURE_EQI("number of terms kept", r.coeffs.size(), n);
  for (std::size_t i = 0; i < r.coeffs.size(); ++i) ENSURE("no small term remains", std::fabs(r.coeffs[i]) > 1e-7);
}
LEMMA(L_var_dot, const Eigen::VectorXd& c, const VarVector& v, const DblVec& x)
{
  REQUIRE(static_cast<std::size_t>(c.size()) == v.size() && wf(v, x));
  double s = 0;
  for (std::size_t i = 0; i < v.size(); ++i) s += c[static_cast<Eigen::Index>(i)] * val(v[i], x);
  CHECK_VALUE("varDot", AffExpr, varDot(c, v), s);
}
LEMMA(L_operators_var_double, const Var& u, double s, const DblVec& x)
{
  REQUIRE(wf(u, x));
  CHECK_VALUE("var + double", AffExpr, u + s, val(u, x) + s);
  CHECK_VALUE("var - double", AffExpr, u - s, val(u, x) - s);
  CHECK_VALUE("double * var", AffExpr, s * u, s * val(u, x));
  CHECK_VALUE("var * double", AffExpr, u * s, s * val(u, x));
  CHECK_VALUE("-var", AffExpr, -u, -val(u, x));
}
LEMMA(L_operators_aff_double, const AffExpr& a, double s, const DblVec& x)
{
  REQUIRE(wf(a, x));
  CHECK_VALUE("aff + double", AffExpr, a + s, den(a, x) + s);
  CHECK_VALUE("aff - double", AffExpr, a - s, den(a, x) - s);
  CHECK_VALUE("double * aff", AffExpr, s * a, s * den(a, x));
  CHECK_VALUE("aff * double", AffExpr, a * s, s * den(a, x));
  CHECK_VALUE("-aff", AffExpr, -a, -den(a, x));
}
LEMMA(L_operators_quad_double, const QuadExpr& q, double s, const DblVec& x)
{
  REQUIRE(wf(q, x));
  CHECK_VALUE("quad + double", QuadExpr, q + s, den(q, x) + s);
  CHECK_VALUE("quad - double", QuadExpr, q - s, den(q, x) - s);
  CHECK_VALUE("double * quad", QuadExpr, s * q, s * den(q, x));
  CHECK_VALUE("quad * double", QuadExpr, q * s, s * den(q, x));
}
LEMMA(L_operators_var_var, const Var& u, const Var& v, const DblVec& x)
{
  REQUIRE(wf(u, x) && wf(v, x));
  CHECK_VALUE("var + var", AffExpr, u + v, val(u, x) + val(v, x));
  CHECK_VALUE("var - var", AffExpr, u - v, val(u, x) - val(v, x));
}
LEMMA(L_operators_var_aff, const Var& u, const AffExpr& b, const DblVec& x)
{
  REQUIRE(wf(u, x) && wf(b, x));
  CHECK_VALUE("var + aff", AffExpr, u + b, val(u, x) + den(b, x));
  CHECK_VALUE("var - aff", AffExpr, u - b, val(u, x) - den(b, x));
}
LEMMA(L_operators_var_quad, const Var& u, const QuadExpr& p, const DblVec& x)
{
  REQUIRE(wf(u, x) && wf(p, x));
  CHECK_VALUE("var + quad", QuadExpr, u + p, val(u, x) + den(p, x));
  CHECK_VALUE("var - quad", QuadExpr, u - p, val(u, x) - den(p, x));
}
LEMMA(L_operators_aff_var, const AffExpr& a, const Var& v, const DblVec& x)
{
  REQUIRE(wf(a, x) && wf(v, x));
  CHECK_VALUE("aff + var", AffExpr, a + v, den(a, x) + val(v, x));
  CHECK_VALUE("aff - var", AffExpr, a - v, den(a, x) - val(v, x));
}
LEMMA(L_operators_aff_aff, const AffExpr& a, const AffExpr& b, const DblVec& x)
{
  REQUIRE(wf(a, x) && wf(b, x));
  CHECK_VALUE("aff + aff", AffExpr, a + b, den(a, x) + den(b, x));
  CHECK_VALUE("aff - aff", AffExpr, a - b, den(a, x) - den(b, x));
}
LEMMA(L_operators_aff_quad, const AffExpr& a, const QuadExpr& p, const DblVec& x)
{
  REQUIRE(wf(a, x) && wf(p, x));
  CHECK_VALUE("aff + quad", QuadExpr, a + p, den(a, x) + den(p, x));
  CHECK_VALUE("aff - quad", QuadExpr, a - p, den(a, x) - den(p, x));
}
LEMMA(L_operators_quad_var, const QuadExpr& q, const Var& v, const DblVec& x)
{
  REQUIRE(wf(q, x) && wf(v, x));
  CHECK_VALUE("quad + var", QuadExpr, q + v, den(q, x) + val(v, x));
  CHECK_VALUE("quad - var", QuadExpr, q - v, den(q, x) - val(v, x));
}
LEMMA(L_operators_quad_aff, const QuadExpr& q, const AffExpr& b, const DblVec& x)
{
  REQUIRE(wf(q, x) && wf(b, x));
  CHECK_VALUE("quad + aff", QuadExpr, q + b, den(q, x) + den(b, x));
  CHECK_VALUE("quad - aff", QuadExpr, q - b, den(q, x) - den(b, x));
}
LEMMA(L_operators_quad_quad, const QuadExpr& q, const QuadExpr& p, const DblVec& x)
{
  REQUIRE(wf(q, x) && wf(p, x));
  CHECK_VALUE("quad + quad", QuadExpr, q + p, den(q, x) + den(p, x));
  CHECK_VALUE("quad - quad", QuadExpr, q - p, den(q, x) - den(p, x));
}
}  // namespace sco_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
