// vocabulary shared by the contracts on trajopt_sco: invariants and denotations of expressions
#pragma once
#include "spec.h"
#include <trajopt_sco/solver_interface.hpp>
#include "sco_gen.h"
namespace sco_lemmas
{
using namespace sco;
inline bool wf(const Var& v, const DblVec& x) { return v.var_rep != nullptr && v.var_rep->index < x.size(); }
inline bool wf(const VarVector& v, const DblVec& x)
{
  bool ok = true;
  for (std::size_t i = 0; i < v.size(); ++i)
    if (ok && !wf(v[i], x)) ok = false;
  return ok;
}
inline bool wf(const AffExpr& a, const DblVec& x)
{
  bool ok = a.coeffs.size() == a.vars.size();
  for (std::size_t i = 0; i < a.coeffs.size(); ++i)
    if (ok && !wf(a.vars[i], x)) ok = false;
  return ok;
}
inline bool wf(const QuadExpr& q, const DblVec& x)
{
  bool ok = wf(q.affexpr, x) && q.coeffs.size() == q.vars1.size() && q.coeffs.size() == q.vars2.size();
  for (std::size_t i = 0; i < q.coeffs.size(); ++i)
    if (ok && !(wf(q.vars1[i], x) && wf(q.vars2[i], x))) ok = false;
  return ok;
}
// structural invariant without reference to an assignment
inline bool ok(const AffExpr& a)
{
  bool r = a.coeffs.size() == a.vars.size();
  for (std::size_t i = 0; i < a.coeffs.size(); ++i)
    if (r && a.vars[i].var_rep == nullptr) r = false;
  return r;
}
inline bool ok(const QuadExpr& q)
{
  bool r = ok(q.affexpr) && q.coeffs.size() == q.vars1.size() && q.coeffs.size() == q.vars2.size();
  for (std::size_t i = 0; i < q.coeffs.size(); ++i)
    if (r && (q.vars1[i].var_rep == nullptr || q.vars2[i].var_rep == nullptr)) r = false;
  return r;
}
inline bool ok(const AffExprVector& v)
{
  bool r = true;
  for (std::size_t i = 0; i < v.size(); ++i)
    if (r && !ok(v[i])) r = false;
  return r;
}
inline std::size_t ind(const Var& v) { return v.var_rep->index; }
inline double den(const AffExpr& a, const DblVec& x)
{
  double s = a.constant;
  for (std::size_t i = 0; i < a.coeffs.size(); ++i) s += a.coeffs[i] * x[a.vars[i].var_rep->index];
  return s;
}
inline double den(const QuadExpr& q, const DblVec& x)
{
  double s = den(q.affexpr, x);
  for (std::size_t i = 0; i < q.coeffs.size(); ++i)
    s += q.coeffs[i] * x[q.vars1[i].var_rep->index] * x[q.vars2[i].var_rep->index];
  return s;
}
// total coefficient of variable j
inline double coef(const AffExpr& a, std::size_t j)
{
  double s = 0;
  for (std::size_t i = 0; i < a.coeffs.size(); ++i)
    if (a.vars[i].var_rep->index == j) s += a.coeffs[i];
  return s;
}
// every variable index fits
inline bool fits(const AffExpr& a, std::size_t n)
{
  bool r = true;
  for (std::size_t i = 0; i < a.coeffs.size(); ++i)
    if (r && a.vars[i].var_rep->index >= n) r = false;
  return r;
}
inline bool same(const AffExpr& a, const AffExpr& b)
{
  bool r = a.constant == b.constant && a.coeffs.size() == b.coeffs.size() && a.vars.size() == b.vars.size();
  for (std::size_t i = 0; i < a.coeffs.size(); ++i)
    if (r && a.coeffs[i] != b.coeffs[i]) r = false;
  for (std::size_t i = 0; i < a.vars.size(); ++i)
    if (r && a.vars[i].var_rep != b.vars[i].var_rep) r = false;
  return r;
}
inline double val(const Var& v, const DblVec& x) { return x[v.var_rep->index]; }
}  // namespace sco_lemmas
