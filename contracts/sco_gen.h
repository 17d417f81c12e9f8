// generators for trajopt_sco types (replay only)
#pragma once
#ifndef VERIF_STATIC
#include <trajopt_sco/solver_interface.hpp>
namespace spec
{
inline std::vector<sco::Var>& pool() { static std::vector<sco::Var> p; return p; }
inline void make_pool(int n)
{
  pool().clear();
  for (int i = 0; i < n; ++i) pool().emplace_back(std::make_shared<sco::VarRep>(static_cast<std::size_t>(i), "v" + std::to_string(i), nullptr));
}
template <> struct Gen<sco::Var>
{
  static sco::Var make(Rng& r) { if (pool().empty()) make_pool(1); return pool()[static_cast<std::size_t>(r.i(0, static_cast<int>(pool().size()) - 1))]; }
};
template <> struct Gen<sco::Cnt>
{
  static sco::Cnt make(Rng& r)
  {
    return sco::Cnt(std::make_shared<sco::CntRep>(static_cast<std::size_t>(r.i(0, 9)), nullptr));
  }
};
template <> struct Gen<sco::ConstraintType>
{
  static sco::ConstraintType make(Rng& r) { return r.i(0, 1) ? sco::INEQ : sco::EQ; }
};
template <> struct Gen<sco::AffExpr>
{
  static sco::AffExpr make(Rng& r)
  {
    sco::AffExpr a;
    a.constant = r.d();
    for (int k = r.i(0, 4); k > 0; --k) { a.coeffs.push_back(r.d()); a.vars.push_back(Gen<sco::Var>::make(r)); }
    return a;
  }
};
template <> struct Gen<sco::QuadExpr>
{
  static sco::QuadExpr make(Rng& r)
  {
    sco::QuadExpr a;
    a.affexpr = Gen<sco::AffExpr>::make(r);
    for (int k = r.i(0, 4); k > 0; --k)
    {
      a.coeffs.push_back(r.d()); a.vars1.push_back(Gen<sco::Var>::make(r)); a.vars2.push_back(Gen<sco::Var>::make(r));
    }
    return a;
  }
};
}  // namespace spec
#endif
