// C03: penalties are modelled exactly; violations; adding to and removing from the solver model
#include "sco_env.h"
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { r.n = r.i(1, 4); make_pool(r.n); } }
#endif
namespace sco { Model::Ptr createBPMPDModel() { return nullptr; } }
namespace sco_lemmas
{
inline const double INF = static_cast<double>(INFINITY);
inline double pos(double v) { return v > 0 ? v : 0.0; }
inline DblVec with(const DblVec& x, double a)
{
  DblVec y = x;
  y.push_back(a);
  return y;
}
inline DblVec with(const DblVec& x, const DblVec& a)
{
  DblVec y = x;
  for (std::size_t i = 0; i < a.size(); ++i) y.push_back(a[i]);
  return y;
}
inline bool wf(const AffExprVector& v, const DblVec& x)
{
  bool r = true;
  for (std::size_t i = 0; i < v.size(); ++i)
    if (r && !wf(v[i], x)) r = false;
  return r;
}
/// a hinge: for every value of its auxiliary variable
LEMMA(L_hinge, const AffExpr& e, double coeff, const QuadExpr& q, const DblVec& x, double h)
{
  REQUIRE(wf(e, x) && wf(q, x) && coeff >= 0 && h >= 0);
  AnyModel m;
  m.vars_ = VarVector(x.size());
  ConvexObjective o(&m);
  o.quad_ = q;
  o.addHinge(e, coeff);
  const DblVec y = with(x, h);
  ENSURE("one auxiliary variable", m.vars_.size() == x.size() + 1 && o.vars_.size() == 1 && o.vars_[0].var_rep->index == x.size() && o.vars_[0].var_rep == m.vars_[x.size()].var_rep);
  ENSURE("it is not negative", m.lb_[0] == 0 && m.ub_[0] == INF);
  ENSURE("one row", o.ineqs_.size() == 1 && o.eqs_.empty() && wf(o.ineqs_[0], y) && wf(o.quad_, y));
  ENSURE_EQ("row", den(o.ineqs_[0], y), den(e, x) - h);
  ENSURE_EQ("cost", den(o.quad_, y), den(q, x) + coeff * h);
  const double p = pos(den(e, x));
  ENSURE("every feasible value is at least the penalty", den(o.ineqs_[0], y) > 0 || h >= p);
  ENSURE("the penalty is feasible", h != p || den(o.ineqs_[0], y) <= 0);
}
/// an absolute value: for all values of its two auxiliary variables
LEMMA(L_abs, const AffExpr& e, double coeff, const QuadExpr& q, const DblVec& x, double a, double b)
{
  REQUIRE(wf(e, x) && wf(q, x) && coeff >= 0 && a >= 0 && b >= 0);
  AnyModel m;
  m.vars_ = VarVector(x.size());
  ConvexObjective o(&m);
  o.quad_ = q;
  o.addAbs(e, coeff);
  const DblVec y = with(with(x, a), b);
  ENSURE("two auxiliary variables", m.vars_.size() == x.size() + 2 && o.vars_.size() == 2 && o.vars_[0].var_rep == m.vars_[x.size()].var_rep && o.vars_[1].var_rep == m.vars_[x.size() + 1].var_rep);
  ENSURE("they are not negative", m.lb_[0] == 0 && m.ub_[0] == INF && m.lb_[1] == 0 && m.ub_[1] == INF);
  ENSURE("one row", o.eqs_.size() == 1 && o.ineqs_.empty() && wf(o.eqs_[0], y) && wf(o.quad_, y));
  ENSURE_EQ("row", den(o.eqs_[0], y), den(e, x) + a - b);
  ENSURE_EQ("cost", den(o.quad_, y), den(q, x) + coeff * (a + b));
  const double p = den(e, x);
  ENSURE("every feasible value is at least the penalty", p + a - b != 0 || a + b >= std::fabs(p));
  ENSURE("the penalty is feasible", b != pos(p) || a != pos(-p) || (p + a - b == 0 && a + b == std::fabs(p)));
}
/// several hinges: one row and one variable for each, at weight one
LEMMA(L_hinges, const AffExprVector& e, const QuadExpr& q, const DblVec& x, const DblVec& h, std::size_t i)
{
  REQUIRE(wf(e, x) && wf(q, x) && h.size() == e.size() && i < e.size());
  AnyModel m;
  m.vars_ = VarVector(x.size());
  ConvexObjective o(&m);
  o.quad_ = q;
  o.addHinges(e);
  const DblVec y = with(x, h);
  ENSURE("one auxiliary variable for each", m.vars_.size() == x.size() + e.size() && o.vars_.size() == e.size() && o.vars_[i].var_rep == m.vars_[x.size() + i].var_rep);
  ENSURE("not negative", m.lb_[i] == 0 && m.ub_[i] == INF);
  ENSURE("one row for each", o.ineqs_.size() == e.size() && o.eqs_.empty());
  ENSURE_EQ("row", den(o.ineqs_[i], y), den(e[i], x) - h[i]);
}
LEMMA(L_hinges_cost, const AffExprVector& e, const QuadExpr& q, const DblVec& x, const DblVec& h)
{
  REQUIRE(wf(e, x) && wf(q, x) && h.size() == e.size());
  AnyModel m;
  m.vars_ = VarVector(x.size());
  ConvexObjective o(&m);
  o.quad_ = q;
  o.addHinges(e);
  const DblVec y = with(x, h);
  double s = den(q, x);
  for (std::size_t j = 0; j < h.size(); ++j) s += h[j];
  ENSURE_EQ("cost", den(o.quad_, y), s);
}
LEMMA(L_l1, const AffExprVector& e, const QuadExpr& q, const DblVec& x, const DblVec& h, std::size_t i)
{
  REQUIRE(wf(e, x) && wf(q, x) && h.size() == 2 * e.size() && i < e.size());
  AnyModel m;
  m.vars_ = VarVector(x.size());
  ConvexObjective o(&m);
  o.quad_ = q;
  o.addL1Norm(e);
  const DblVec y = with(x, h);
  ENSURE("two auxiliary variables for each", m.vars_.size() == x.size() + 2 * e.size() && o.vars_.size() == 2 * e.size() && o.vars_[2 * i].var_rep == m.vars_[x.size() + 2 * i].var_rep &&
                                                 o.vars_[2 * i + 1].var_rep == m.vars_[x.size() + 2 * i + 1].var_rep);
  ENSURE("not negative", m.lb_[2 * i] == 0 && m.ub_[2 * i] == INF && m.lb_[2 * i + 1] == 0 && m.ub_[2 * i + 1] == INF);
  ENSURE("one row for each", o.eqs_.size() == e.size() && o.ineqs_.empty());
  ENSURE_EQ("row", den(o.eqs_[i], y), den(e[i], x) + h[2 * i] - h[2 * i + 1]);
}
LEMMA(L_l1_cost, const AffExprVector& e, const QuadExpr& q, const DblVec& x, const DblVec& h)
{
  REQUIRE(wf(e, x) && wf(q, x) && h.size() == 2 * e.size());
  AnyModel m;
  m.vars_ = VarVector(x.size());
  ConvexObjective o(&m);
  o.quad_ = q;
  o.addL1Norm(e);
  const DblVec y = with(x, h);
  double s = den(q, x);
  for (std::size_t j = 0; j < h.size(); ++j) s += h[j];
  ENSURE_EQ("cost", den(o.quad_, y), s);
}
LEMMA(L_l2, const AffExprVector& e, const QuadExpr& q, const DblVec& x)
{
  REQUIRE(wf(e, x) && wf(q, x));
  AnyModel m;
  ConvexObjective o(&m);
  o.quad_ = q;
  o.addL2Norm(e);
  double s = den(q, x);
  for (std::size_t j = 0; j < e.size(); ++j) s += den(e[j], x) * den(e[j], x);
  ENSURE_EQ("cost", den(o.quad_, x), s);
  ENSURE("no variables and rows", m.vars_.empty() && o.vars_.empty() && o.eqs_.empty() && o.ineqs_.empty());
}
LEMMA(L_max, const AffExprVector& e, const QuadExpr& q, const DblVec& x, double h, std::size_t i)
{
  REQUIRE(wf(e, x) && wf(q, x) && i < e.size());
  AnyModel m;
  m.vars_ = VarVector(x.size());
  ConvexObjective o(&m);
  o.quad_ = q;
  o.addMax(e);
  const DblVec y = with(x, h);
  ENSURE("one auxiliary variable", m.vars_.size() == x.size() + 1 && o.vars_.size() == 1 && o.vars_[0].var_rep == m.vars_[x.size()].var_rep);
  ENSURE("it is free", m.lb_[0] == -INF && m.ub_[0] == INF);
  ENSURE("one row for each", o.ineqs_.size() == e.size() && o.eqs_.empty());
  ENSURE_EQ("the variable is at least each expression", den(o.ineqs_[i], y), den(e[i], x) - h);
  ENSURE_EQ("cost", den(o.quad_, y), den(q, x) + h);
}
LEMMA(L_affine_and_quadratic, const AffExpr& e, const QuadExpr& p, const QuadExpr& q, const DblVec& x)
{
  REQUIRE(wf(e, x) && wf(q, x) && wf(p, x));
  AnyModel m;
  ConvexObjective o(&m);
  o.quad_ = q;
  o.addAffExpr(e);
  o.addQuadExpr(p);
  ENSURE_EQ("cost", den(o.quad_, x), den(q, x) + den(e, x) + den(p, x));
  ENSURE_EQ("value", o.value(x), den(q, x) + den(e, x) + den(p, x));
  ENSURE("no variables and rows", m.vars_.empty() && o.vars_.empty() && o.eqs_.empty() && o.ineqs_.empty());
}
/// rows of an objective in the solver model, and their removal together with the variables
LEMMA(L_objective_in_model, const AffExprVector& eqs, const AffExprVector& ineqs, const VarVector& aux, std::size_t i, std::size_t j, std::size_t k)
{
  REQUIRE(i < eqs.size() && j < ineqs.size() && k < aux.size());
  AnyModel m;
  ConvexObjective o(&m);
  o.eqs_ = eqs;
  o.ineqs_ = ineqs;
  o.vars_ = aux;
  o.addConstraintsToModel();
  ENSURE("one row for each", m.exprs_.size() == eqs.size() + ineqs.size() && o.cnts_.size() == m.cnts_.size() && m.cnts_.size() == m.exprs_.size());
  ENSURE("equalities", m.eq_[i] == 1 && same(m.exprs_[i], eqs[i]));
  ENSURE("inequalities", m.eq_[eqs.size() + j] == 0 && same(m.exprs_[eqs.size() + j], ineqs[j]));
  const std::size_t n = m.cnts_.size();
  const Cnt c = m.cnts_[i], d = m.cnts_[eqs.size() + j];
  o.removeFromModel();
  ENSURE("all rows are taken back", m.gone_cnts_.size() == n && m.gone_cnts_[i].cnt_rep == c.cnt_rep && m.gone_cnts_[eqs.size() + j].cnt_rep == d.cnt_rep);
  ENSURE("all auxiliary variables are taken back", m.gone_vars_.size() == aux.size() && m.gone_vars_[k].var_rep == aux[k].var_rep);
  ENSURE("no longer in a model", !o.inModel());
}
LEMMA(L_constraints_in_model, const AffExprVector& eqs, const AffExprVector& ineqs, std::size_t i, std::size_t j)
{
  REQUIRE(i < eqs.size() && j < ineqs.size());
  AnyModel m;
  ConvexConstraints o(&m);
  for (std::size_t k = 0; k < eqs.size(); ++k) o.addEqCnt(eqs[k]);
  for (std::size_t k = 0; k < ineqs.size(); ++k) o.addIneqCnt(ineqs[k]);
  o.addConstraintsToModel();
  ENSURE("one row for each", m.exprs_.size() == eqs.size() + ineqs.size() && m.cnts_.size() == m.exprs_.size());
  ENSURE("equalities", m.eq_[i] == 1 && same(m.exprs_[i], eqs[i]));
  ENSURE("inequalities", m.eq_[eqs.size() + j] == 0 && same(m.exprs_[eqs.size() + j], ineqs[j]));
  const std::size_t n = m.cnts_.size();
  const Cnt c = m.cnts_[i], d = m.cnts_[eqs.size() + j];
  o.removeFromModel();
  ENSURE("all rows are taken back", m.gone_cnts_.size() == n && m.gone_cnts_[i].cnt_rep == c.cnt_rep && m.gone_cnts_[eqs.size() + j].cnt_rep == d.cnt_rep);
  ENSURE("no variables are taken back", m.gone_vars_.empty());
  ENSURE("no longer in a model", !o.inModel());
}
/// violations of rows
LEMMA(L_violations, const AffExprVector& eqs, const AffExprVector& ineqs, const DblVec& x, std::size_t i, std::size_t j)
{
  REQUIRE(wf(eqs, x) && wf(ineqs, x) && i < eqs.size() && j < ineqs.size());
  ConvexConstraints o(nullptr);
  o.eqs_ = eqs;
  o.ineqs_ = ineqs;
  const DblVec v = o.violations(x);
  ENSURE("one for each row", v.size() == eqs.size() + ineqs.size());
  ENSURE_EQ("equalities", v[i], std::fabs(den(eqs[i], x)));
  ENSURE_EQ("inequalities", v[eqs.size() + j], pos(den(ineqs[j], x)));
}
LEMMA(L_violation, const AffExprVector& eqs, const AffExprVector& ineqs, const DblVec& x)
{
  REQUIRE(wf(eqs, x) && wf(ineqs, x));
  ConvexConstraints o(nullptr);
  o.eqs_ = eqs;
  o.ineqs_ = ineqs;
  double s = 0;
  for (std::size_t i = 0; i < eqs.size(); ++i) s += std::fabs(den(eqs[i], x));
  for (std::size_t i = 0; i < ineqs.size(); ++i) s += pos(den(ineqs[i], x));
  ENSURE_EQ("total violation", o.violation(x), s);
}
/// violations of a nonlinear constraint
class AnyConstraint : public Constraint
{
public:
  AnyConstraint(ConstraintType t, std::size_t m) : t_(t), m_(m) {}
  ConstraintType type() override { return t_; }
  DblVec value(const DblVec& x) override
  {
    const Eigen::VectorXd e = Eigen::Map<const Eigen::VectorXd>(x.data(), static_cast<Eigen::Index>(x.size()));
    DblVec r(m_);
    for (std::size_t j = 0; j < m_; ++j) r[j] = spec::oracle(e, static_cast<long>(j));
    return r;
  }
  ConvexConstraints::Ptr convex(const DblVec&, Model*) override { return nullptr; }
  VarVector getVars() override { return {}; }
  ConstraintType t_;
  std::size_t m_;
};
LEMMA(L_constraint_violations, bool eq, std::size_t m, const DblVec& x, std::size_t i)
{
  REQUIRE(i < m && m < 1000);
  AnyConstraint c(eq ? EQ : INEQ, m);
  const DblVec g = c.value(x), v = c.violations(x);
  ENSURE("one for each row", v.size() == m);
  ENSURE_EQ("violation", v[i], eq ? std::fabs(g[i]) : pos(g[i]));
  double s = 0;
  for (std::size_t j = 0; j < v.size(); ++j) s += v[j];
  ENSURE_EQ("total violation", c.violation(x), s);
}
/// a problem keeps what is added to it
class AnyCost : public Cost
{
public:
  double value(const DblVec&) override { return 0; }
  ConvexObjective::Ptr convex(const DblVec&, Model*) override { return nullptr; }
  VarVector getVars() override { return {}; }
};
class FullProb : public AnyProb
{
public:
  FullProb(Model::Ptr m, std::size_t e, std::size_t n, std::size_t c) : AnyProb(std::move(m), {}, {}, {})
  {
    for (std::size_t i = 0; i < e; ++i) eqcnts_.push_back(std::make_shared<AnyConstraint>(EQ, i));
    for (std::size_t i = 0; i < n; ++i) ineqcnts_.push_back(std::make_shared<AnyConstraint>(INEQ, i));
    for (std::size_t i = 0; i < c; ++i) costs_.push_back(std::make_shared<AnyCost>());
  }
};
LEMMA(L_added_to_problem, std::size_t e, std::size_t n, std::size_t c, std::size_t i, std::size_t j, std::size_t k)
{
  REQUIRE(i < e && j < n && k < c && e < 1000 && n < 1000 && c < 1000);
  FullProb p(std::make_shared<AnyModel>(), e, n, c);
  const auto eq0 = p.getEqConstraints(), in0 = p.getIneqConstraints();
  const auto cost0 = p.getCosts();
  auto eq = std::make_shared<AnyConstraint>(EQ, 1);
  auto in = std::make_shared<AnyConstraint>(INEQ, 2);
  auto cost = std::make_shared<AnyCost>();
  p.addConstraint(in);
  p.addCost(cost);
  p.addConstraint(eq);
  ENSURE("counts", static_cast<std::size_t>(p.getNumConstraints()) == e + n + 2 && static_cast<std::size_t>(p.getNumCosts()) == c + 1);
  ENSURE("the equality is the last equality", p.getEqConstraints().size() == e + 1 && p.getEqConstraints()[e] == eq);
  ENSURE("the inequality is the last inequality", p.getIneqConstraints().size() == n + 1 && p.getIneqConstraints()[n] == in);
  ENSURE("the cost is the last cost", p.getCosts().size() == c + 1 && p.getCosts()[c] == cost);
  ENSURE("earlier ones stay", p.getEqConstraints()[i] == eq0[i] && p.getIneqConstraints()[j] == in0[j] && p.getCosts()[k] == cost0[k]);
  const auto all = p.getConstraints();
  ENSURE("all constraints: equalities first", all.size() == e + n + 2 && all[i] == eq0[i] && all[e] == eq && all[e + 1 + j] == in0[j] && all[e + 1 + n] == in);
}
LEMMA(L_linear_constraint, const AffExpr& a, bool eq)
{
  auto m = std::make_shared<AnyModel>();
  AnyProb p(m, {}, {}, {});
  p.addLinearConstraint(a, eq ? EQ : INEQ);
  ENSURE("one row", m->exprs_.size() == 1 && m->eq_.size() == 1);
  ENSURE("of that type", (m->eq_[0] != 0) == eq);
  ENSURE_EQ("with its constant", m->exprs_[0].constant, a.constant);
  ENSURE("and its terms", m->exprs_[0].coeffs.size() == a.coeffs.size() && m->exprs_[0].vars.size() == a.vars.size());
}
}  // namespace sco_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
