// C18: variables, rows, bounds and objective of the solver model
#include "sco_env.h"
#include <trajopt_sco/bpmpd_interface.hpp>
#include <trajopt_sco/solver_utils.hpp>
#ifndef VERIF_STATIC
#include <sys/mman.h>
#include <map>
#ifndef BPMPD_CALLER
#define BPMPD_CALLER "true"
#endif
namespace spec { void begin_trial(Rng& r) { r.n = r.i(1, 5); make_pool(r.n); } }
#endif
#include <../src/bpmpd_interface.cpp>
namespace sco_lemmas
{
/// the solver process is taken to be running already
class M : public BPMPDModel
{
public:
  M() : BPMPDModel() {}
  /// what the loop contracts speak about: any element, and what was there before
  static inline VarVector vars_;
  static inline DblVec lower_, upper_;
  static inline std::size_t at_ = 0, other_ = 0;
  void loop_setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper, unsigned i) const
  {
    INVARIANT("count", i >= 0 && i <= vars.size());
    INVARIANT("sizes", m_lbs.size() == lower_.size() && m_ubs.size() == upper_.size());
    INVARIANT("this variable", i <= at_ || (m_lbs[vars[at_].var_rep->index] == lower[at_] && m_ubs[vars[at_].var_rep->index] == upper[at_]));
    INVARIANT("no other variable", m_lbs[other_] == lower_[other_] && m_ubs[other_] == upper_[other_]);
  }
  static inline VarVector all_;
  /// number of elements before position p that are not removed: the position of p after the update
  static std::size_t rank(const VarVector& v, std::size_t p)
  {
    std::size_t n = 0;
    for (std::size_t i = 0; i < p; ++i)
      if (!v[i].var_rep->removed) ++n;
    return n;
  }
  bool rest(std::size_t k) const
  {
    bool r = true;
    for (std::size_t j = k; j < all_.size(); ++j)
      if (r && !(m_vars[j].var_rep == all_[j].var_rep && m_lbs[j] == lower_[j] && m_ubs[j] == upper_[j])) r = false;
    return r;
  }
  void loop_update(std::size_t inew, unsigned iold) const
  {
    INVARIANT("old position", iold >= 0 && iold <= all_.size());
    INVARIANT("new position", inew >= 0 && inew <= iold);
    INVARIANT("sizes", m_vars.size() == all_.size() && m_lbs.size() == all_.size() && m_ubs.size() == all_.size());
    INVARIANT("as many as are kept", iold >= 0 && inew == rank(all_, iold));
    INVARIANT("the rest is untouched", iold >= 0 && rest(iold));
    INVARIANT("next", iold >= all_.size() || (m_vars[iold].var_rep == all_[iold].var_rep && m_lbs[iold] == lower_[iold] && m_ubs[iold] == upper_[iold]));
    INVARIANT("room", iold <= at_ || rank(all_, at_) < inew);
    INVARIANT("moved", iold <= at_ || (m_vars[rank(all_, at_)].var_rep == all_[at_].var_rep && m_lbs[rank(all_, at_)] == lower_[at_] && m_ubs[rank(all_, at_)] == upper_[at_]));
    INVARIANT("renumbered", iold <= at_ || all_[at_].var_rep->index == rank(all_, at_));
  }
  std::size_t rows() const { return m_cnts.size(); }
  bool matched() const
  {
    return m_lbs.size() == m_vars.size() && m_ubs.size() == m_vars.size() && m_cntExprs.size() == m_cnts.size() && m_cntTypes.size() == m_cnts.size();
  }
};
inline void running() { gPID = 1; }
inline bool numbered(const VarVector& v)
{
  bool r = true;
  for (std::size_t i = 0; i < v.size(); ++i)
    if (r && (v[i].var_rep == nullptr || v[i].var_rep->index != i)) r = false;
  return r;
}
/// any state of a model
inline void state(M& m, const VarVector& v, const DblVec& l, const DblVec& u, const CntVector& c, const AffExprVector& e, const std::vector<ConstraintType>& t)
{
  REQUIRE(l.size() == v.size() && u.size() == v.size() && e.size() == c.size() && t.size() == c.size());
  m.m_vars = v;
  m.m_lbs = l;
  m.m_ubs = u;
  m.m_cnts = c;
  m.m_cntExprs = e;
  m.m_cntTypes = t;
}
LEMMA(L_add_variable, const VarVector& v, const DblVec& l, const DblVec& u, const CntVector& c, const AffExprVector& e, const std::vector<ConstraintType>& t, const std::string& name, std::size_t i)
{
  running();
  M m;
  state(m, v, l, u, c, e, t);
  const Var x = m.addVar(name);
  ENSURE("one more", m.m_vars.size() == v.size() + 1 && m.matched() && m.rows() == c.size());
  ENSURE("the last one is returned", m.m_vars[v.size()].var_rep == x.var_rep && x.var_rep->index == v.size() && !x.var_rep->removed && x.var_rep->name == name);
  ENSURE("no limits", m.m_lbs[v.size()] == -1e30 && m.m_ubs[v.size()] == 1e30);
  if (i < v.size()) ENSURE("others unchanged", m.m_vars[i].var_rep == v[i].var_rep && m.m_lbs[i] == l[i] && m.m_ubs[i] == u[i]);
  const VarVector all = m.getVars();
  ENSURE("listed", all.size() == v.size() + 1 && all[v.size()].var_rep == x.var_rep);
}
inline void limits_before(const DblVec& l, const DblVec& u, std::size_t other)
{
  M::lower_ = l;
  M::upper_ = u;
  M::lower_.push_back(0);
  M::upper_.push_back(0);
  M::at_ = 0;
  M::other_ = other;
}
LEMMA(L_add_bounded_variable, const VarVector& v, const DblVec& l, const DblVec& u, const CntVector& c, const AffExprVector& e, const std::vector<ConstraintType>& t, const std::string& name, double a, double b)
{
  running();
  M m;
  state(m, v, l, u, c, e, t);
  limits_before(l, u, v.size());
  Model& base = m;
  const Var x = base.addVar(name, a, b);
  ENSURE("one more", m.m_vars.size() == v.size() + 1 && m.matched());
  ENSURE("the last one is returned", m.m_vars[v.size()].var_rep == x.var_rep && x.var_rep->index == v.size());
  ENSURE("its limits", m.m_lbs[v.size()] == a && m.m_ubs[v.size()] == b);
}
LEMMA(L_add_bounded_variable_others, const VarVector& v, const DblVec& l, const DblVec& u, const CntVector& c, const AffExprVector& e, const std::vector<ConstraintType>& t, const std::string& name, std::size_t i,
      double a, double b)
{
  REQUIRE(i < v.size());
  running();
  M m;
  state(m, v, l, u, c, e, t);
  limits_before(l, u, i);
  Model& base = m;
  base.addVar(name, a, b);
  ENSURE("others unchanged", m.m_vars[i].var_rep == v[i].var_rep && m.m_lbs[i] == l[i] && m.m_ubs[i] == u[i]);
}
LEMMA(L_add_row, const VarVector& v, const DblVec& l, const DblVec& u, const CntVector& c, const AffExprVector& e, const std::vector<ConstraintType>& t, const AffExpr& a, bool eq, const DblVec& x, std::size_t i)
{
  REQUIRE(wf(a, x));
  running();
  M m;
  state(m, v, l, u, c, e, t);
  const Cnt k = eq ? m.addEqCnt(a, "a") : m.addIneqCnt(a, "a");
  ENSURE("one more", m.rows() == c.size() + 1 && m.matched() && m.m_vars.size() == v.size());
  ENSURE("the last one is returned", m.m_cnts[c.size()].cnt_rep == k.cnt_rep && k.cnt_rep->index == c.size() && !k.cnt_rep->removed);
  ENSURE("its type", m.m_cntTypes[c.size()] == (eq ? EQ : INEQ));
  ENSURE_EQ("its expression", den(m.m_cntExprs[c.size()], x), den(a, x));
  if (i < c.size()) ENSURE("others unchanged", m.m_cnts[i].cnt_rep == c[i].cnt_rep && m.m_cntTypes[i] == t[i]);
}
/// the variable at i is not listed a second time
inline bool once(const VarVector& v, std::size_t i)
{
  bool r = true;
  for (std::size_t j = 0; j < v.size(); ++j)
    if (r && j != i && ind(v[j]) == ind(v[i])) r = false;
  return r;
}
inline bool named(const VarVector& v, std::size_t p)
{
  bool r = false;
  for (std::size_t i = 0; i < v.size(); ++i)
    if (!r && ind(v[i]) == p) r = true;
  return r;
}
LEMMA(L_bounds, const DblVec& l, const DblVec& u, const VarVector& v, const DblVec& a, const DblVec& b, std::size_t i, std::size_t p)
{
  REQUIRE(wf(v, l) && u.size() == l.size() && a.size() == v.size() && b.size() == v.size() && i < v.size() && p < l.size());
  REQUIRE(once(v, i) && !named(v, p));
  running();
  M m;
  m.m_lbs = l;
  m.m_ubs = u;
  M::lower_ = l;
  M::upper_ = u;
  M::at_ = i;
  M::other_ = p;
  m.setVarBounds(v, a, b);
  ENSURE("sizes", m.m_lbs.size() == l.size() && m.m_ubs.size() == l.size());
  ENSURE("limits of the variables", m.m_lbs[ind(v[i])] == a[i] && m.m_ubs[ind(v[i])] == b[i]);
  ENSURE("limits of the others", m.m_lbs[p] == l[p] && m.m_ubs[p] == u[p]);
}
LEMMA(L_values, const DblVec& s, const VarVector& v, std::size_t i)
{
  REQUIRE(wf(v, s) && i < v.size());
  running();
  M m;
  m.m_soln = s;
  const DblVec r = m.getVarValues(v);
  ENSURE("one for each", r.size() == v.size());
  ENSURE_EQ("value", r[i], s[ind(v[i])]);
  const Model& base = m;
  ENSURE_EQ("single value", base.getVarValue(v[i]), s[ind(v[i])]);
}
LEMMA(L_objective, const QuadExpr& before, const QuadExpr& q, const AffExpr& a, const DblVec& x)
{
  REQUIRE(wf(before, x) && wf(q, x) && wf(a, x));
  running();
  M m;
  m.m_objective = before;
  m.setObjective(q);
  ENSURE_EQ("quadratic", den(m.m_objective, x), den(q, x));
  M n;
  n.m_objective = before;
  n.setObjective(a);
  ENSURE_EQ("linear", den(n.m_objective, x), den(a, x));
}
LEMMA(L_remove, const VarVector& v, const VarVector& gone, const CntVector& c, std::size_t i)
{
  REQUIRE(numbered(v) && numbered(gone) && i < gone.size());
  running();
  M m;
  m.m_vars = v;
  m.removeVars(gone);
  ENSURE("marked", gone[i].var_rep->removed);
  ENSURE("not yet taken out", m.m_vars.size() == v.size());
}
/// the variable at p is not listed a second time
inline bool unique(const VarVector& v, std::size_t p)
{
  bool r = true;
  for (std::size_t i = 0; i < v.size(); ++i)
    if (r && i != p && v[i].var_rep == v[p].var_rep) r = false;
  return r;
}
LEMMA(L_update, const VarVector& v, const DblVec& l, const DblVec& u, const CntVector& c, const AffExprVector& e, const std::vector<ConstraintType>& t, std::size_t p)
{
  REQUIRE(numbered(v) && c.empty() && p < v.size() && unique(v, p) && !v[p].var_rep->removed);
  running();
  M m;
  state(m, v, l, u, c, e, t);
  M::all_ = v;
  M::lower_ = l;
  M::upper_ = u;
  M::at_ = p;
  const std::size_t n = M::rank(v, v.size()), k = M::rank(v, p);
  m.update();
  ENSURE("the others stay", m.m_vars.size() == n && m.matched());
  ENSURE("in order", m.m_vars[k].var_rep == v[p].var_rep && v[p].var_rep->index == k);
  ENSURE("with their limits", m.m_lbs[k] == l[p] && m.m_ubs[k] == u[p]);
}
#ifdef VERIF_STATIC
LEMMA(B_history, std::size_t n) {}
LEMMA(B_solve, std::size_t n) {}
#else
struct MVar { Var v; std::string name; double lb, ub; bool gone; };
struct MRow { Cnt c; AffExpr e; bool eq, gone; };
struct Ghost
{
  std::vector<MVar> vars;
  std::vector<MRow> rows;
  QuadExpr obj;
};
inline int pick(const std::vector<int>& ops, std::size_t& k, int n) { return n <= 0 ? 0 : (k < ops.size() ? std::abs(ops[k++]) : 0) % n; }
inline AffExpr expr(const Ghost& g, const std::vector<int>& ops, std::size_t& k)
{
  AffExpr a(0.5 * pick(ops, k, 9) - 2);
  std::vector<Var> live;
  for (const auto& v : g.vars) if (!v.gone) live.push_back(v.v);
  for (int n = live.empty() ? 0 : pick(ops, k, 4); n > 0; --n)
  {
    a.vars.push_back(live[static_cast<std::size_t>(pick(ops, k, static_cast<int>(live.size())))]);
    a.coeffs.push_back(pick(ops, k, 11) - 5.5);
  }
  return a;
}
inline void play(M& m, Ghost& g, const std::vector<int>& ops, bool check)
{
  bool fresh = true;      // nothing was removed since the last update
  for (std::size_t k = 0; k < ops.size();)
  {
    const int op = pick(ops, k, 10);
    if (op <= 1)
    {
      const std::string name = "x" + std::to_string(k);
      if (op == 0) g.vars.push_back({ m.addVar(name), name, -1e30, 1e30, false });
      else { Model& b = m; if (!fresh) { m.update(); fresh = true; } g.vars.push_back({ b.addVar(name, -1.0 * pick(ops, k, 5), 7), name, 0, 7, false }); g.vars.back().lb = m.m_lbs[m.m_vars.size() - 1]; }
    }
    else if (op <= 3)
    {
      const AffExpr a = expr(g, ops, k);
      g.rows.push_back({ op == 2 ? m.addEqCnt(a, "r") : m.addIneqCnt(a, "r"), a, op == 2, false });
    }
    else if (op == 4)
    {
      VarVector d;
      for (auto& v : g.vars)
        if (!v.gone && pick(ops, k, 4) == 1)
        {
          bool used = false;
          for (auto& r : g.rows) if (!r.gone) for (auto& y : r.e.vars) used = used || y.var_rep == v.v.var_rep;
          for (auto& y : g.obj.affexpr.vars) used = used || y.var_rep == v.v.var_rep;
          for (auto& y : g.obj.vars1) used = used || y.var_rep == v.v.var_rep;
          for (auto& y : g.obj.vars2) used = used || y.var_rep == v.v.var_rep;
          if (used) continue;
          v.gone = true;
          d.push_back(v.v);
        }
      if (d.size() == 1 && k % 2 == 0) { Model& b = m; b.removeVar(d[0]); } else m.removeVars(d);
      fresh = fresh && d.empty();
    }
    else if (op == 5)
    {
      CntVector d;
      for (auto& r : g.rows)
        if (!r.gone && pick(ops, k, 3) == 1) { r.gone = true; d.push_back(r.c); }
      if (d.size() == 1 && k % 2 == 0) { Model& b = m; b.removeCnt(d[0]); } else m.removeCnts(d);
    }
    else if (op == 6) { m.update(); fresh = true; }
    else if (op == 7 && fresh)
    {
      VarVector d;
      DblVec l, u;
      for (auto& v : g.vars)
        if (!v.gone && pick(ops, k, 3) == 1) { v.lb = pick(ops, k, 20) - 10.5; v.ub = v.lb + pick(ops, k, 5); d.insert(d.begin(), v.v); l.insert(l.begin(), v.lb); u.insert(u.begin(), v.ub); }
      m.setVarBounds(d, l, u);
    }
    else if (op == 8) { g.obj = QuadExpr(expr(g, ops, k)); m.setObjective(g.obj.affexpr); }
    else if (op == 9)
    {
      g.obj = QuadExpr(expr(g, ops, k));
      std::vector<Var> live;
      for (const auto& v : g.vars) if (!v.gone) live.push_back(v.v);
      for (int n = live.empty() ? 0 : pick(ops, k, 4); n > 0; --n)
      {
        g.obj.vars1.push_back(live[static_cast<std::size_t>(pick(ops, k, static_cast<int>(live.size())))]);
        g.obj.vars2.push_back(live[static_cast<std::size_t>(pick(ops, k, static_cast<int>(live.size())))]);
        g.obj.coeffs.push_back(pick(ops, k, 7) + 1);
      }
      m.setObjective(g.obj);
    }
  }
  m.update();
  if (!check) return;
  std::size_t n = 0;
  const VarVector all = m.getVars();
  for (const auto& v : g.vars)
  {
    if (v.gone) continue;
    ENSURE("variables in order", n < all.size() && all[n].var_rep == v.v.var_rep && v.v.var_rep->index == n);
    ENSURE("name", v.v.var_rep->name == v.name);
    ENSURE("limits", m.m_lbs[n] == v.lb && m.m_ubs[n] == v.ub);
    ++n;
  }
  ENSURE("nothing else", all.size() == n && m.matched());
  n = 0;
  DblVec z;
  for (std::size_t i = 0; i < all.size(); ++i) z.push_back(0.7 * static_cast<double>(i) - 1);
  for (const auto& r : g.rows)
  {
    if (r.gone) continue;
    ENSURE("rows in order", n < m.rows() && m.m_cnts[n].cnt_rep == r.c.cnt_rep && r.c.cnt_rep->index == n);
    ENSURE("type", m.m_cntTypes[n] == (r.eq ? EQ : INEQ));
    ENSURE_EQ("expression", den(m.m_cntExprs[n], z), den(r.e, z));
    ++n;
  }
  ENSURE("no other rows", m.rows() == n);
  ENSURE_EQ("objective", den(m.m_objective, z), den(g.obj, z));
}
inline std::vector<int> script(const std::vector<int>& a, const std::vector<int>& b, const std::vector<int>& c, std::size_t n)
{
  std::vector<unsigned> s;
  for (const auto* v : { &a, &b, &c })
  {
    for (int x : *v) s.push_back(static_cast<unsigned>(x + 5));
    s.push_back(99);
  }
  std::seed_seq q(s.begin(), s.end());
  std::mt19937 g(q);
  std::vector<int> ops;
  for (std::size_t i = g() % n; i < n; ++i) ops.push_back(static_cast<int>(g() % 10000));
  return ops;
}
LEMMA(B_history, const std::vector<int>& a, const std::vector<int>& b, const std::vector<int>& c)
{
  running();
  M m;
  Ghost g;
  const std::vector<int> ops = script(a, b, c, 160);
  play(m, g, ops, true);
}
/// what the solver is given
LEMMA(B_solve, const std::vector<int>& a, const std::vector<int>& b, const std::vector<int>& c)
{
  running();
  M m;
  Ghost g;
  const std::vector<int> ops = script(a, b, c, 90);
  play(m, g, ops, false);
  const std::size_t n = m.m_vars.size(), r = m.rows();
  gPipeIn = memfd_create("in", 0);
  gPipeOut = memfd_create("out", 0);
  bpmpd_io::bpmpd_output o(DblVec(n + r), DblVec(n + r), IntVec(static_cast<std::size_t>(n + r)), static_cast<int>(ops.size() % 6) - 1, 1.5);
  for (std::size_t i = 0; i < n + r; ++i) o.primal[i] = static_cast<double>(i) + 0.25;
  bpmpd_io::ser(gPipeOut, o, bpmpd_io::SER);
  lseek(gPipeOut, 0, SEEK_SET);
  const CvxOptStatus st = m.optimize();
  lseek(gPipeIn, 0, SEEK_SET);
  bpmpd_io::bpmpd_input in;
  bpmpd_io::ser(gPipeIn, in, bpmpd_io::DESER);
  close(gPipeIn);
  close(gPipeOut);
  ENSURE("status", st == (o.code == 2 ? CVX_SOLVED : o.code == 3 || o.code == 4 ? CVX_INFEASIBLE : CVX_FAILED));
  ENSURE("sizes", in.n == static_cast<int>(n) && in.m == static_cast<int>(r) && in.qn == in.n && in.nz == static_cast<int>(in.acolidx.size()) && in.acolnzs.size() == in.acolidx.size() && in.qnz == static_cast<int>(in.qcolidx.size()) &&
                      in.qcolnzs.size() == in.qcolidx.size() && in.acolcnt.size() == n && in.qcolcnt.size() == n && in.rhs.size() == r && in.obj.size() == n && in.lbound.size() == n + r && in.ubound.size() == n + r);
  DblVec z;
  for (std::size_t i = 0; i < n; ++i) z.push_back(0.7 * static_cast<double>(i) - 1);
  DblVec ax(r, 0.0);
  double q = 0, lin = 0;
  std::size_t k = 0, h = 0;
  for (std::size_t j = 0; j < n; ++j)
  {
    for (int e = 0, last = 0; e < in.acolcnt[j]; ++e, ++k)
    {
      const int row = in.acolidx[k];
      ENSURE("row numbers ascend from 1", row > last && row <= in.m);
      last = row;
      ax[static_cast<std::size_t>(row - 1)] += in.acolnzs[k] * z[j];
    }
    for (int e = 0, last = 0; e < in.qcolcnt[j]; ++e, ++h)
    {
      const int row = in.qcolidx[h];
      ENSURE("lower triangle", row > last && row <= in.n && row >= static_cast<int>(j) + 1);
      last = row;
      const auto i = static_cast<std::size_t>(row - 1);
      q += (i == j ? 0.5 : 1.0) * in.qcolnzs[h] * z[i] * z[j];
    }
    lin += in.obj[j] * z[j];
    ENSURE("limits", in.lbound[j] == m.m_lbs[j] && in.ubound[j] == m.m_ubs[j]);
  }
  ENSURE("all entries used", k == in.acolidx.size() && h == in.qcolidx.size());
  ENSURE_EQ("objective", q + lin, den(m.m_objective, z) - m.m_objective.affexpr.constant);
  for (std::size_t i = 0; i < r; ++i)
  {
    ENSURE_EQ("row", ax[i] - in.rhs[i], den(m.m_cntExprs[i], z));
    ENSURE("row limits", in.ubound[n + i] == 0 && in.lbound[n + i] == (m.m_cntTypes[i] == EQ ? 0 : -1e30));
  }
  const DblVec s = m.getVarValues(m.getVars());
  for (std::size_t i = 0; i < n; ++i) ENSURE_EQ("values read back", s[i], static_cast<double>(i) + 0.25);
}
#endif
}  // namespace sco_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
