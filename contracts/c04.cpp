// C04: local models of costs and constraints built from error functions
#include "sco_env.h"
#include <trajopt_sco/modeling_utils.hpp>
#include <trajopt_sco/num_diff.hpp>
#include <trajopt_common/eigen_conversions.hpp>
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { r.n = r.i(1, 4); make_pool(r.n); } }
#endif
namespace sco { Model::Ptr createBPMPDModel() { return nullptr; } }
namespace sco_lemmas
{
/// any error function with m rows
class AnyErr : public VectorOfVector
{
public:
  explicit AnyErr(std::size_t m) : m_(m) {}
  Eigen::VectorXd operator()(const Eigen::VectorXd& x) const override
  {
    Eigen::VectorXd r(static_cast<Eigen::Index>(m_));
    for (Eigen::Index j = 0; j < static_cast<Eigen::Index>(m_); ++j) r(j) = spec::oracle(x, j);
    return r;
  }
  std::size_t m_;
};
/// any gradient of it
class AnyGrad : public MatrixOfVector
{
public:
  explicit AnyGrad(std::size_t m) : m_(m) {}
  Eigen::MatrixXd operator()(const Eigen::VectorXd& x) const override
  {
    Eigen::MatrixXd r(static_cast<Eigen::Index>(m_), x.size());
    for (Eigen::Index j = 0; j < static_cast<Eigen::Index>(m_); ++j)
      for (Eigen::Index i = 0; i < x.size(); ++i) r(j, i) = entry(x, j, i);
    return r;
  }
  static double entry(const Eigen::VectorXd& x, Eigen::Index j, Eigen::Index i) { return spec::oracle2(x, j, i); }
  std::size_t m_;
};
class AnyFunc : public ScalarOfVector
{
public:
  double operator()(const Eigen::VectorXd& x) const override { return spec::oracle(x, 0); }
};
inline double pos(double v) { return v > 0 ? v : 0.0; }
/// coefficients of at most 1e-7 are left out of a model
inline double kept(double g) { return std::fabs(g) > 1e-7 ? g : 0.0; }
inline Eigen::VectorXd at(const DblVec& x, const VarVector& vars)
{
  Eigen::VectorXd r(static_cast<Eigen::Index>(vars.size()));
  for (std::size_t i = 0; i < vars.size(); ++i) r(static_cast<Eigen::Index>(i)) = x[ind(vars[i])];
  return r;
}
/// the linear model of row j about x, at z
inline double lin(Eigen::Index j, const Eigen::VectorXd& x, const Eigen::VectorXd& z)
{
  double s = spec::oracle(x, j);
  for (Eigen::Index i = 0; i < x.size(); ++i) s -= AnyGrad::entry(x, j, i) * x(i);
  for (Eigen::Index i = 0; i < x.size(); ++i) s += kept(AnyGrad::entry(x, j, i)) * z(i);
  return s;
}
LEMMA(L_values_of_variables, const DblVec& x, const VarVector& vars, std::size_t i)
{
  REQUIRE(wf(vars, x) && i < vars.size());
  const Eigen::VectorXd a = getVec(x, vars);
  const DblVec b = getDblVec(x, vars);
  ENSURE("sizes", static_cast<std::size_t>(a.size()) == vars.size() && b.size() == vars.size());
  ENSURE_EQ("value", a(static_cast<Eigen::Index>(i)), x[ind(vars[i])]);
  ENSURE_EQ("value", b[i], x[ind(vars[i])]);
}
LEMMA(L_linear_model, double y, const Eigen::VectorXd& x, const Eigen::VectorXd& g, const VarVector& vars, const DblVec& z)
{
  REQUIRE(wf(vars, z) && static_cast<std::size_t>(x.size()) == vars.size() && x.size() == g.size());
  const AffExpr a = affFromValGrad(y, x, g, vars);
  ENSURE("well formed", wf(a, z));
  double s = y;
  for (Eigen::Index i = 0; i < x.size(); ++i) s -= g(i) * x(i);
  for (std::size_t i = 0; i < vars.size(); ++i) s += kept(g(static_cast<Eigen::Index>(i))) * z[ind(vars[i])];
  ENSURE_EQ("model", den(a, z), s);
}
inline bool nonneg(const Eigen::VectorXd& w)
{
  bool r = true;
  for (Eigen::Index j = 0; j < w.size(); ++j)
    if (r && w(j) < 0) r = false;
  return r;
}
inline bool positive(const Eigen::VectorXd& w)
{
  bool r = true;
  for (Eigen::Index j = 0; j < w.size(); ++j)
    if (r && w(j) <= 0) r = false;
  return r;
}
inline double penalty(PenaltyType p, double e) { return p == SQUARED ? e * e : p == ABS ? std::fabs(e) : pos(e); }
inline double weight(const Eigen::VectorXd& w, std::size_t j) { return w(static_cast<Eigen::Index>(j)); }
/// exact values
inline void value(const VarVector& vars, const Eigen::VectorXd& w, const DblVec& x, std::size_t m, PenaltyType p)
{
  REQUIRE(wf(vars, x) && m < 1000 && static_cast<std::size_t>(w.size()) == m && m > 0);
  CostFromErrFunc c(std::make_shared<AnyErr>(m), vars, w, p, "c"), d(std::make_shared<AnyErr>(m), vars, Eigen::VectorXd(), p, "d");
  const Eigen::VectorXd xe = at(x, vars);
  double s = 0, t = 0;
  for (std::size_t j = 0; j < m; ++j) s += weight(w, j) * penalty(p, spec::oracle(xe, static_cast<long>(j)));
  for (std::size_t j = 0; j < m; ++j) t += penalty(p, spec::oracle(xe, static_cast<long>(j)));
  ENSURE_EQ("weighted value", c.value(x), s);
  ENSURE_EQ("value without weights", d.value(x), t);
}
LEMMA(L_value_squared, const VarVector& vars, const Eigen::VectorXd& w, const DblVec& x, std::size_t m) { value(vars, w, x, m, SQUARED); }
LEMMA(L_value_absolute, const VarVector& vars, const Eigen::VectorXd& w, const DblVec& x, std::size_t m) { value(vars, w, x, m, ABS); }
LEMMA(L_value_hinge, const VarVector& vars, const Eigen::VectorXd& w, const DblVec& x, std::size_t m) { value(vars, w, x, m, HINGE); }
/// squared errors
LEMMA(L_squared, const VarVector& vars, const Eigen::VectorXd& w, const DblVec& x, const DblVec& z, std::size_t m)
{
  REQUIRE(wf(vars, x) && wf(vars, z) && m < 1000 && static_cast<std::size_t>(w.size()) == m && m > 0);
  CostFromErrFunc c(std::make_shared<AnyErr>(m), std::make_shared<AnyGrad>(m), vars, w, SQUARED, "c");
  AnyModel model;
  const ConvexObjective::Ptr o = c.convex(x, &model);
  const Eigen::VectorXd xe = at(x, vars), ze = at(z, vars);
  double s = 0;
  for (std::size_t j = 0; j < m; ++j) s += weight(w, j) * lin(static_cast<Eigen::Index>(j), xe, ze) * lin(static_cast<Eigen::Index>(j), xe, ze);
  ENSURE_EQ("model", den(o->quad_, z), s);
  ENSURE("no variables and rows", model.vars_.empty() && o->eqs_.empty() && o->ineqs_.empty());
}
LEMMA(L_squared_unweighted, const VarVector& vars, const DblVec& x, const DblVec& z, std::size_t m)
{
  REQUIRE(wf(vars, x) && wf(vars, z) && m < 1000);
  CostFromErrFunc c(std::make_shared<AnyErr>(m), std::make_shared<AnyGrad>(m), vars, Eigen::VectorXd(), SQUARED, "c");
  AnyModel model;
  const ConvexObjective::Ptr o = c.convex(x, &model);
  const Eigen::VectorXd xe = at(x, vars), ze = at(z, vars);
  double s = 0;
  for (std::size_t j = 0; j < m; ++j) s += lin(static_cast<Eigen::Index>(j), xe, ze) * lin(static_cast<Eigen::Index>(j), xe, ze);
  ENSURE_EQ("model", den(o->quad_, z), s);
  ENSURE("no variables and rows", model.vars_.empty() && o->eqs_.empty() && o->ineqs_.empty());
}
/// hinges and absolute values: one row for each error that has a weight
inline std::size_t before(const Eigen::VectorXd& w, std::size_t n)
{
  std::size_t p = 0;
  for (std::size_t j = 0; j < n; ++j)
    if (weight(w, j) != 0) ++p;
  return p;
}
inline void hinge(const VarVector& vars, const Eigen::VectorXd& given, double wi, std::size_t n, std::size_t p, const DblVec& x, const DblVec& z, const DblVec& h, std::size_t m, std::size_t i)
{
  CostFromErrFunc c(std::make_shared<AnyErr>(m), std::make_shared<AnyGrad>(m), vars, given, HINGE, "c");
  AnyModel model;
  model.vars_ = VarVector(x.size());
  const ConvexObjective::Ptr o = c.convex(x, &model);
  const Eigen::VectorXd xe = at(x, vars), ze = at(z, vars);
  DblVec y = z;
  for (std::size_t j = 0; j < h.size(); ++j) y.push_back(h[j]);
  ENSURE("one row for each error", o->ineqs_.size() == n && o->eqs_.empty() && model.vars_.size() == x.size() + n && o->vars_.size() == n);
  ENSURE("limits", model.lb_[p] == 0 && model.ub_[p] == static_cast<double>(INFINITY));
  ENSURE_EQ("row", den(o->ineqs_[p], y), wi * lin(static_cast<Eigen::Index>(i), xe, ze) - h[p]);
  double s = 0;
  for (std::size_t j = 0; j < h.size(); ++j) s += h[j];
  ENSURE_EQ("cost", den(o->quad_, y), s);
}
LEMMA(L_hinge, const VarVector& vars, const Eigen::VectorXd& w, const DblVec& x, const DblVec& z, const DblVec& h, std::size_t m, std::size_t i)
{
  REQUIRE(wf(vars, x) && wf(vars, z) && z.size() == x.size() && m < 1000 && static_cast<std::size_t>(w.size()) == m && i < m && weight(w, i) != 0 && h.size() == before(w, m));
  hinge(vars, w, weight(w, i), before(w, m), before(w, i), x, z, h, m, i);
}
LEMMA(L_hinge_unweighted, const VarVector& vars, const DblVec& x, const DblVec& z, const DblVec& h, std::size_t m, std::size_t i)
{
  REQUIRE(wf(vars, x) && wf(vars, z) && z.size() == x.size() && m < 1000 && i < m && h.size() == m);
  hinge(vars, Eigen::VectorXd(), 1, m, i, x, z, h, m, i);
}
inline void absolute(const VarVector& vars, const Eigen::VectorXd& given, double wi, std::size_t n, std::size_t p, const DblVec& x, const DblVec& z, const DblVec& h, std::size_t m, std::size_t i)
{
  CostFromErrFunc c(std::make_shared<AnyErr>(m), std::make_shared<AnyGrad>(m), vars, given, ABS, "c");
  AnyModel model;
  model.vars_ = VarVector(x.size());
  const ConvexObjective::Ptr o = c.convex(x, &model);
  const Eigen::VectorXd xe = at(x, vars), ze = at(z, vars);
  DblVec y = z;
  for (std::size_t j = 0; j < h.size(); ++j) y.push_back(h[j]);
  ENSURE("one row for each weighted error", o->eqs_.size() == n && o->ineqs_.empty() && model.vars_.size() == x.size() + 2 * n && o->vars_.size() == 2 * n);
  ENSURE("limits", model.lb_[2 * p] == 0 && model.ub_[2 * p] == static_cast<double>(INFINITY) && model.lb_[2 * p + 1] == 0 && model.ub_[2 * p + 1] == static_cast<double>(INFINITY));
  ENSURE_EQ("row", den(o->eqs_[p], y), wi * lin(static_cast<Eigen::Index>(i), xe, ze) + h[2 * p] - h[2 * p + 1]);
  double s = 0;
  for (std::size_t j = 0; j < h.size(); ++j) s += h[j];
  ENSURE_EQ("cost", den(o->quad_, y), s);
}
LEMMA(L_absolute, const VarVector& vars, const Eigen::VectorXd& w, const DblVec& x, const DblVec& z, const DblVec& h, std::size_t m, std::size_t i)
{
  REQUIRE(wf(vars, x) && wf(vars, z) && z.size() == x.size() && m < 1000 && static_cast<std::size_t>(w.size()) == m && i < m && weight(w, i) != 0 && h.size() == 2 * before(w, m));
  absolute(vars, w, weight(w, i), before(w, m), before(w, i), x, z, h, m, i);
}
LEMMA(L_absolute_unweighted, const VarVector& vars, const DblVec& x, const DblVec& z, const DblVec& h, std::size_t m, std::size_t i)
{
  REQUIRE(wf(vars, x) && wf(vars, z) && z.size() == x.size() && m < 1000 && i < m && h.size() == 2 * m);
  absolute(vars, Eigen::VectorXd(), 1, m, i, x, z, h, m, i);
}
/// constraints
LEMMA(L_constraint_value, const VarVector& vars, const Eigen::VectorXd& w, const DblVec& x, std::size_t m, bool eq, std::size_t i)
{
  REQUIRE(wf(vars, x) && m < 1000 && static_cast<std::size_t>(w.size()) == m && i < m);
  ConstraintFromErrFunc c(std::make_shared<AnyErr>(m), vars, w, eq ? EQ : INEQ, "c"), d(std::make_shared<AnyErr>(m), vars, Eigen::VectorXd(), eq ? EQ : INEQ, "d");
  const DblVec v = c.value(x), u = d.value(x);
  ENSURE("one for each error", v.size() == m && u.size() == m && c.type() == (eq ? EQ : INEQ));
  ENSURE_EQ("weighted value", v[i], weight(w, i) * spec::oracle(at(x, vars), static_cast<long>(i)));
  ENSURE_EQ("value without weights", u[i], spec::oracle(at(x, vars), static_cast<long>(i)));
}
inline void constraint(const VarVector& vars, const Eigen::VectorXd& given, ConstraintType t, double wi, std::size_t n, std::size_t p, const DblVec& x, const DblVec& z, std::size_t m, std::size_t i)
{
  ConstraintFromErrFunc c(std::make_shared<AnyErr>(m), std::make_shared<AnyGrad>(m), vars, given, t, "c");
  AnyModel model;
  const ConvexConstraints::Ptr o = c.convex(x, &model);
  const Eigen::VectorXd xe = at(x, vars), ze = at(z, vars);
  if (t == EQ)
  {
    ENSURE("one row for each weighted error", o->eqs_.size() == n && o->ineqs_.empty());
    ENSURE_EQ("row", den(o->eqs_[p], z), wi * lin(static_cast<Eigen::Index>(i), xe, ze));
  }
  else
  {
    ENSURE("one row for each weighted error", o->ineqs_.size() == n && o->eqs_.empty());
    ENSURE_EQ("row", den(o->ineqs_[p], z), wi * lin(static_cast<Eigen::Index>(i), xe, ze));
  }
}
LEMMA(L_equality, const VarVector& vars, const Eigen::VectorXd& w, const DblVec& x, const DblVec& z, std::size_t m, std::size_t i)
{
  REQUIRE(wf(vars, x) && wf(vars, z) && m < 1000 && static_cast<std::size_t>(w.size()) == m && i < m && weight(w, i) != 0);
  constraint(vars, w, EQ, weight(w, i), before(w, m), before(w, i), x, z, m, i);
}
LEMMA(L_inequality, const VarVector& vars, const Eigen::VectorXd& w, const DblVec& x, const DblVec& z, std::size_t m, std::size_t i)
{
  REQUIRE(wf(vars, x) && wf(vars, z) && m < 1000 && static_cast<std::size_t>(w.size()) == m && i < m && weight(w, i) != 0);
  constraint(vars, w, INEQ, weight(w, i), before(w, m), before(w, i), x, z, m, i);
}
LEMMA(L_equality_unweighted, const VarVector& vars, const DblVec& x, const DblVec& z, std::size_t m, std::size_t i)
{
  REQUIRE(wf(vars, x) && wf(vars, z) && m < 1000 && i < m);
  constraint(vars, Eigen::VectorXd(), EQ, 1, m, i, x, z, m, i);
}
LEMMA(L_inequality_unweighted, const VarVector& vars, const DblVec& x, const DblVec& z, std::size_t m, std::size_t i)
{
  REQUIRE(wf(vars, x) && wf(vars, z) && m < 1000 && i < m);
  constraint(vars, Eigen::VectorXd(), INEQ, 1, m, i, x, z, m, i);
}
/// derivatives by finite differences
LEMMA(L_difference_jacobian, const Eigen::VectorXd& x, std::size_t m, double eps, std::size_t i, std::size_t j)
{
  REQUIRE(m < 1000 && i < m && j < static_cast<std::size_t>(x.size()) && eps > 0);
  const AnyErr f(m);
  const Eigen::MatrixXd d = calcForwardNumJac(f, x, eps);
  Eigen::VectorXd p = x;
  p(static_cast<Eigen::Index>(j)) = x(static_cast<Eigen::Index>(j)) + eps;
  ENSURE("size", static_cast<std::size_t>(d.rows()) == m && d.cols() == x.size());
  ENSURE_EQ("entry", d.coeff(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)), (spec::oracle(p, static_cast<long>(i)) - spec::oracle(x, static_cast<long>(i))) / eps);
}
LEMMA(L_difference_constraint, const VarVector& vars, const Eigen::VectorXd& w, const DblVec& x, const DblVec& z, std::size_t m, std::size_t i)
{
  REQUIRE(wf(vars, x) && wf(vars, z) && m < 1000 && static_cast<std::size_t>(w.size()) == m && i < m && weight(w, i) != 0);
  ConstraintFromErrFunc c(std::make_shared<AnyErr>(m), vars, w, INEQ, "c");
  AnyModel model;
  const ConvexConstraints::Ptr o = c.convex(x, &model);
  const Eigen::VectorXd xe = at(x, vars), ze = at(z, vars);
  ENSURE("one row for each weighted error", o->ineqs_.size() == before(w, m) && o->eqs_.empty());
  const Eigen::Index r = static_cast<Eigen::Index>(i);
  double s = spec::oracle(xe, r);
  for (Eigen::Index k = 0; k < xe.size(); ++k)
  {
    Eigen::VectorXd p = xe;
    p(k) = xe(k) + 1e-5;
    const double g = (spec::oracle(p, r) - spec::oracle(xe, r)) / 1e-5;
    s += kept(g) * ze(k) - g * xe(k);
  }
  ENSURE_EQ("row", den(o->ineqs_[before(w, i)], z), weight(w, i) * s);
}
/// costs from scalar functions
LEMMA(L_function, const VarVector& vars, const DblVec& x, const DblVec& z)
{
  REQUIRE(wf(vars, x) && wf(vars, z));
  CostFromFunc c(std::make_shared<AnyFunc>(), vars, "c");
  AnyModel model;
  const Eigen::VectorXd xe = at(x, vars), ze = at(z, vars);
  ENSURE_EQ("value", c.value(x), spec::oracle(xe, 0));
  const ConvexObjective::Ptr o = c.convex(x, &model);
  double s = spec::oracle(xe, 0);
  for (Eigen::Index k = 0; k < xe.size(); ++k)
  {
    Eigen::VectorXd p = xe, q = xe;
    p(k) = xe(k) + 1e-5 / 2;
    q(k) = xe(k) - 1e-5 / 2;
    const double a = spec::oracle(p, 0), b = spec::oracle(q, 0);
    const double g = (a - b) / 1e-5, h = pos((a + b - 2 * spec::oracle(xe, 0)) / (1e-5 * 1e-5 / 4));
    s += g * (ze(k) - xe(k)) + 0.5 * h * (ze(k) - xe(k)) * (ze(k) - xe(k));
  }
  ENSURE_EQ("model", den(o->quad_, z), s);
  ENSURE("no variables and rows", model.vars_.empty() && o->eqs_.empty() && o->ineqs_.empty());
}
/// the same with the whole matrix of second derivatives: the quadratic part is positive semidefinite and vanishes at the base point
LEMMA(L_function_full, const VarVector& vars, const DblVec& x, const DblVec& z)
{
  REQUIRE(!vars.empty() && wf(vars, x) && wf(vars, z));
  CostFromFunc c(std::make_shared<AnyFunc>(), vars, "c", true);
  AnyModel model;
  const Eigen::VectorXd xe = at(x, vars), d = at(z, vars) - xe;
  ENSURE_EQ("value", c.value(x), spec::oracle(xe, 0));
  const ConvexObjective::Ptr o = c.convex(x, &model);
  double y = 0;
  Eigen::VectorXd grad;
  Eigen::MatrixXd hess;
  calcGradHess(std::make_shared<AnyFunc>(), xe, 1e-5, y, grad, hess);
  const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(hess);
  const Eigen::VectorXd e = es.eigenvalues();
  const Eigen::MatrixXd v = es.eigenvectors();
  double s = spec::oracle(xe, 0) + grad.dot(d);
  for (Eigen::Index i = 0; i < xe.size(); ++i)
    for (Eigen::Index j = 0; j < xe.size(); ++j)
    {
      double h = 0;
      for (Eigen::Index k = 0; k < xe.size(); ++k)
        h += pos(e(k)) * v(i, k) * v(j, k);
      s += 0.5 * h * d(i) * d(j);
    }
  ENSURE_EQ("model", den(o->quad_, z), s);
  ENSURE("no variables and rows", model.vars_.empty() && o->eqs_.empty() && o->ineqs_.empty());
}
}  // namespace sco_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
