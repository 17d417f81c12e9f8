// C02: expressions as matrices
#include "sco_spec.h"
#include <trajopt_sco/solver_utils.hpp>
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { make_pool(r.i(1, 5)); r.n = static_cast<int>(pool().size()); } }
#endif

namespace sco_lemmas
{
using Vec = Eigen::VectorXd;
using SpMat = Eigen::SparseMatrix<double>;

inline bool fits(const QuadExpr& q, std::size_t n)
{
  bool r = fits(q.affexpr, n);
  for (std::size_t i = 0; i < q.coeffs.size(); ++i)
    if (r && (q.vars1[i].var_rep->index >= n || q.vars2[i].var_rep->index >= n)) r = false;
  return r;
}
inline bool fits(const AffExprVector& v, std::size_t n)
{
  bool r = true;
  for (std::size_t i = 0; i < v.size(); ++i)
    if (r && !fits(v[i], n)) r = false;
  return r;
}
inline bool inrange(const IntVec& v, Eigen::Index n)
{
  bool r = true;
  for (std::size_t i = 0; i < v.size(); ++i)
    if (r && (v[i] < 0 || v[i] >= n)) r = false;
  return r;
}
inline bool ok(const VarVector& v)
{
  bool r = true;
  for (std::size_t i = 0; i < v.size(); ++i)
    if (r && v[i].var_rep == nullptr) r = false;
  return r;
}
inline bool okc(const CntVector& v)
{
  bool r = true;
  for (std::size_t i = 0; i < v.size(); ++i)
    if (r && v[i].cnt_rep == nullptr) r = false;
  return r;
}
LEMMA(L_aff_to_vector, const AffExpr& a, Eigen::Index n, std::size_t j)
{
  REQUIRE(ok(a) && n >= 0);
  REQUIRE(fits(a, static_cast<std::size_t>(n)));
  REQUIRE(j < static_cast<std::size_t>(n));
  Eigen::SparseVector<double> v;
  exprToEigen(a, v, n);
  ENSURE_EQI("one entry per variable", v.size(), n);
  ENSURE_EQ("entry j is the total coefficient of variable j", v.coeff(static_cast<Eigen::Index>(j)), coef(a, j));
}
LEMMA(L_aff_to_vector_rejects, const AffExpr& a, Eigen::Index n)
{
  REQUIRE(ok(a) && n >= 0);
  Eigen::SparseVector<double> v;
  bool thrown = false;
  try { exprToEigen(a, v, n); }
  catch (const std::exception&) { thrown = true; }
  ENSURE("an error is raised exactly when a variable index does not fit", thrown == !fits(a, static_cast<std::size_t>(n)));
}

LEMMA(L_quad_to_matrix, const QuadExpr& q, Eigen::Index n, bool halved, bool diag, std::size_t i, std::size_t j)
{
  REQUIRE(ok(q) && n >= 0);
  REQUIRE(fits(q, static_cast<std::size_t>(n)));
  REQUIRE(i < static_cast<std::size_t>(n) && j < static_cast<std::size_t>(n));
  SpMat m;
  Vec v;
  exprToEigen(q, m, v, n, halved, diag);
  ENSURE_EQI("square matrix: rows", m.rows(), n);
  ENSURE_EQI("square matrix: columns", m.cols(), n);
  ENSURE_EQI("one linear entry per variable", v.size(), n);
  double s = 0;
  for (std::size_t k = 0; k < q.coeffs.size(); ++k)
  {
    if (ind(q.vars1[k]) == i && ind(q.vars2[k]) == j) s += q.coeffs[k];
    if (ind(q.vars1[k]) == j && ind(q.vars2[k]) == i) s += q.coeffs[k];
  }
  const double e = m.coeff(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j));
  if (halved) ENSURE_EQ("H(i,j): x'Hx/2 is the quadratic part", e, s);
  else ENSURE_EQ("H(i,j): x'Hx is the quadratic part", e, 0.5 * s);
  ENSURE_EQ("linear part", v(static_cast<Eigen::Index>(i)), coef(q.affexpr, i));
}
LEMMA(L_affs_to_matrix, const AffExprVector& es, Eigen::Index n, std::size_t i, std::size_t j)
{
  REQUIRE(ok(es) && n >= 0 && fits(es, static_cast<std::size_t>(n)));
  REQUIRE(i < es.size() && j < static_cast<std::size_t>(n));
  SpMat m;
  Vec v;
  exprToEigen(es, m, v, n);
  ENSURE_EQI("one row per expression", m.rows(), es.size());
  ENSURE_EQI("one column per variable", m.cols(), n);
  ENSURE_EQI("one bound per expression", v.size(), es.size());
  ENSURE_EQ("row i holds the coefficients of expression i", m.coeff(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)), coef(es[i], j));
  ENSURE_EQ("the constant moves to the right-hand side", v(static_cast<Eigen::Index>(i)), -es[i].constant);
}
LEMMA(L_affs_to_matrix_rejects, const AffExprVector& es, Eigen::Index n)
{
  REQUIRE(ok(es) && n >= 0);
  SpMat m;
  Vec v;
  bool thrown = false;
  try { exprToEigen(es, m, v, n); }
  catch (const std::exception&) { thrown = true; }
  ENSURE("an error is raised exactly when a variable index does not fit", thrown == !fits(es, static_cast<std::size_t>(n)));
}
LEMMA(L_from_triplets, const IntVec& ri, const IntVec& ci, const DblVec& x, Eigen::Index r, Eigen::Index c, Eigen::Index i, Eigen::Index j)
{
  REQUIRE(r >= 0 && c >= 0 && 0 <= i && i < r && 0 <= j && j < c);
  REQUIRE(ri.size() == x.size() && ci.size() == x.size() && inrange(ri, r) && inrange(ci, c));
  SpMat m(r, c);
  tripletsToEigen(ri, ci, x, m);
  double s = 0;
  for (std::size_t k = 0; k < x.size(); ++k)
    if (ri[k] == i && ci[k] == j) s += x[k];
  ENSURE_EQ("entry is the sum of its triplets", m.coeff(i, j), s);
}
LEMMA(B_to_triplets, const SpMat& m)
{
  IntVec ri, ci;
  DblVec x;
  eigenToTriplets(m, ri, ci, x);
  ENSURE_EQI("rows", ri.size(), m.nonZeros());
  ENSURE_EQI("columns", ci.size(), m.nonZeros());
  ENSURE_EQI("values", x.size(), m.nonZeros());
  for (Eigen::Index i = 0; i < m.rows(); ++i)
    for (Eigen::Index j = 0; j < m.cols(); ++j)
    {
      double s = 0;
      for (std::size_t k = 0; k < x.size(); ++k)
        if (ri[k] == i && ci[k] == j) s += x[k];
      ENSURE_EQ("triplets describe the matrix", s, m.coeff(i, j));
    }
}
#ifndef VERIF_STATIC
template <class I>
void csc(SpMat m)
{
  std::vector<I> ri, cp;
  DblVec x;
  eigenToCSC(m, ri, cp, x);
  ENSURE_EQI("one column pointer per column and an end", cp.size(), m.cols() + 1);
  ENSURE_EQI("last pointer is the number of entries", cp.back(), x.size());
  ENSURE_EQI("one row index per entry", ri.size(), x.size());
  for (Eigen::Index j = 0; j < m.cols(); ++j)
  {
    ENSURE("pointers ascend", cp[static_cast<std::size_t>(j)] <= cp[static_cast<std::size_t>(j) + 1]);
    std::vector<double> col(static_cast<std::size_t>(m.rows()), 0.0);
    for (auto k = static_cast<std::size_t>(cp[static_cast<std::size_t>(j)]); k < static_cast<std::size_t>(cp[static_cast<std::size_t>(j) + 1]); ++k)
    {
      ENSURE("row in range", ri[k] >= 0 && ri[k] < static_cast<I>(m.rows()));
      col[static_cast<std::size_t>(ri[k])] += x[k];
    }
    for (Eigen::Index i = 0; i < m.rows(); ++i) ENSURE_EQ("compressed columns describe the matrix", col[static_cast<std::size_t>(i)], m.coeff(i, j));
  }
}
void triu(const SpMat& m)
{
  std::vector<int> ri, cp;
  DblVec x;
  SpMat c = m;
  eigenToCSC<Eigen::Upper, int>(c, ri, cp, x);
  for (Eigen::Index j = 0; j < m.cols(); ++j)
  {
    std::vector<double> col(static_cast<std::size_t>(m.rows()), 0.0);
    for (int k = cp[static_cast<std::size_t>(j)]; k < cp[static_cast<std::size_t>(j) + 1]; ++k) col.at(static_cast<std::size_t>(ri[static_cast<std::size_t>(k)])) += x[static_cast<std::size_t>(k)];
    for (Eigen::Index i = 0; i < m.rows(); ++i) ENSURE_EQ("upper triangle only", col[static_cast<std::size_t>(i)], i <= j ? m.coeff(i, j) : 0.0);
  }
}
LEMMA(B_csc_int, const SpMat& m) { csc<int>(m); }
LEMMA(B_csc_long, const SpMat& m) { csc<long long>(m); }
LEMMA(B_csc_upper, const SpMat& m0)
{
  SpMat m = m0;
  m.conservativeResize(m.rows(), m.rows());
  triu(m);
}
#endif
LEMMA(L_vars2inds, const VarVector& v, std::size_t i)
{
  REQUIRE(ok(v) && i < v.size());
  SizeTVec a;
  IntVec b;
  vars2inds(v, a);
  vars2inds(v, b);
  ENSURE("one index per variable", a.size() == v.size() && b.size() == v.size());
  ENSURE_EQI("index of variable i", a[i], ind(v[i]));
  ENSURE_EQI("index of variable i (int)", b[i], ind(v[i]));
}
LEMMA(L_cnts2inds, const CntVector& v, std::size_t i)
{
  REQUIRE(okc(v) && i < v.size());
  SizeTVec a;
  IntVec b;
  cnts2inds(v, a);
  cnts2inds(v, b);
  ENSURE("one index per constraint", a.size() == v.size() && b.size() == v.size());
  ENSURE_EQI("index of constraint i", a[i], v[i].cnt_rep->index);
  ENSURE_EQI("index of constraint i (int)", b[i], v[i].cnt_rep->index);
}
LEMMA(B_simplify2, const IntVec& i0, const DblVec& v0)
{
  IntVec inds = i0;
  DblVec vals = v0;
  vals.resize(inds.size(), 1.5);
  const DblVec given = vals;
  simplify2(inds, vals);
  ENSURE_EQI("as many values as indices", inds.size(), vals.size());
  for (std::size_t a = 0; a < inds.size(); ++a)
    for (std::size_t b = 0; b < a; ++b) ENSURE("every index occurs once", inds[a] != inds[b]);
  for (int k = -3; k < 7; ++k)
  {
    double s = 0, t = 0;
    for (std::size_t a = 0; a < i0.size(); ++a)
      if (i0[a] == k) s += given[a];
    for (std::size_t a = 0; a < inds.size(); ++a)
      if (inds[a] == k) t += vals[a];
    ENSURE_EQ("the total of an index is unchanged", t, s);
  }
}
}
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
