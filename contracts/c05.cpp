// C05: trust-region subproblems never leave the variable limits
#include "qp_spec.h"
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/types.h>
#include <trajopt_ifopt/core/problem.h>
#include "sco_env.h"
#include <trajopt_sco/optimizers.hpp>
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { r.n = r.i(1, 4); make_pool(r.n); } }
#endif
namespace trajopt_lemmas
{
inline double clamp_to(const Bounds& b, double x) { return x < lo(b) ? lo(b) : x > hi(b) ? hi(b) : x; }
inline double box_lo(const Bounds& b, double x, double s) { return clamp_to(b, x) - s < lo(b) ? lo(b) : clamp_to(b, x) - s; }
inline double box_hi(const Bounds& b, double x, double s) { return clamp_to(b, x) + s > hi(b) ? hi(b) : clamp_to(b, x) + s; }
/// the interval of variable i in the subproblem
template <class Q> void check_box(const Q& q, Index rows, Index i, const Bounds& b, double x, double s)
{
  const Index at = rows + i;
  ENSURE("one interval per row and per variable", q.getBoundsLower().size() > at && q.getBoundsUpper().size() > at);
  const double l = q.getBoundsLower()(at), u = q.getBoundsUpper()(at);
  ENSURE_EQ("lower end: box around the current value cut by the limits", l, box_lo(b, x, s));
  ENSURE_EQ("upper end: box around the current value cut by the limits", u, box_hi(b, x, s));
  ENSURE("inside the limits", l >= lo(b) && u <= hi(b));
  ENSURE("never empty", l <= u);
}
LEMMA(L_sqp_problem, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w,
      const VectorXd& size, double scale, const VectorXd& y, Index i)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= i && i < x.size());
  REQUIRE(fits(v, b, j, w, x.size()) && ordered(b) && one_sided(b));
  REQUIRE(size.size() == x.size() && y.size() == x.size() && nonneg(size) && scale >= 0);
  auto vars = std::make_shared<AnyVars>(x, vb);
  trajopt_sqp::TrajOptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v, b, j, w));
  q.setup();
  q.setBoxSize(size);
  check_box(q, v.size(), i, vb[U(i)], x(i), size(i));
  q.convexify();
  ENSURE_EQI("rows, then variables", q.getNumQPConstraints(), v.size() + q.getNumQPVars());
  check_box(q, v.size(), i, vb[U(i)], x(i), size(i));
  double s = scale;
  q.scaleBoxSize(s);
  check_box(q, v.size(), i, vb[U(i)], x(i), size(i) * scale);
  q.setVariables(y.data());
  const double one = scale;
  double t = 1;
  q.scaleBoxSize(t);
  check_box(q, v.size(), i, vb[U(i)], y(i), size(i) * one);
  q.convexify();
  check_box(q, v.size(), i, vb[U(i)], y(i), size(i) * one);
}
LEMMA(L_nlp_problem, const VectorXd& x, const std::vector<Bounds>& vb, const VectorXd& v, const std::vector<Bounds>& b, const Jacobian& j, const VectorXd& w,
      const VectorXd& size, double scale, const VectorXd& y, Index i)
{
  REQUIRE(x.size() > 0 && static_cast<Index>(vb.size()) == x.size() && x.size() < 1000 && ordered(vb) && 0 <= i && i < x.size());
  REQUIRE(fits(v, b, j, w, x.size()) && ordered(b) && one_sided(b));
  REQUIRE(size.size() == x.size() && y.size() == x.size() && nonneg(size) && scale >= 0);
  auto vars = std::make_shared<AnyVars>(x, vb);
  trajopt_sqp::IfoptQPProblem q(vars);
  q.addConstraintSet(std::make_shared<AnySet>(v, b, j, w));
  q.setup();
  q.setBoxSize(size);
  check_box(q, v.size(), i, vb[U(i)], x(i), size(i));
  q.convexify();
  ENSURE_EQI("rows, then variables", q.getNumQPConstraints(), v.size() + q.getNumQPVars());
  check_box(q, v.size(), i, vb[U(i)], x(i), size(i));
  double s = scale;
  q.scaleBoxSize(s);
  check_box(q, v.size(), i, vb[U(i)], x(i), size(i) * scale);
  q.setVariables(y.data());
  double t = 1;
  q.scaleBoxSize(t);
  check_box(q, v.size(), i, vb[U(i)], y(i), size(i) * scale);
  q.convexify();
  check_box(q, v.size(), i, vb[U(i)], y(i), size(i) * scale);
}
}  // namespace trajopt_lemmas
namespace sco
{
Model::Ptr createBPMPDModel() { return std::make_shared<sco_lemmas::AnyModel>(); }
}  // namespace sco
namespace sco_lemmas
{
class AnyTrust : public BasicTrustRegionSQP
{
public:
  using BasicTrustRegionSQP::BasicTrustRegionSQP;
  void box(const DblVec& x) { setTrustBoxConstraints(x); }
  void scale(double r) { adjustTrustRegion(r); }
  void size(double s) { setTrustRegionSize(s); }
};
inline bool ordered(const DblVec& l, const DblVec& u)
{
  bool r = l.size() == u.size();
  for (std::size_t i = 0; i < l.size(); ++i)
    if (r && l[i] > u[i]) r = false;
  return r;
}
inline double clamp_to(double l, double u, double x) { return x < l ? l : x > u ? u : x; }
LEMMA(L_sco_box, const DblVec& x, const VarVector& v, const DblVec& l, const DblVec& u, double size, double ratio, std::size_t i)
{
  REQUIRE(v.size() == x.size() && l.size() == x.size() && ordered(l, u) && i < x.size() && size >= 0 && ratio >= 0);
  auto m = std::make_shared<AnyModel>();
  AnyTrust t(std::make_shared<AnyProb>(m, v, l, u));
  t.size(size);
  t.scale(ratio);
  const double s = size * ratio;
  t.box(x);
  ENSURE("all variables are bounded", m->bounded_.size() == v.size() && m->new_lb_.size() == v.size() && m->new_ub_.size() == v.size());
  ENSURE("each at its position", m->bounded_[i].var_rep == v[i].var_rep);
  const double c = clamp_to(l[i], u[i], x[i]);
  ENSURE_EQ("lower end: box around the current value cut by the limits", m->new_lb_[i], c - s < l[i] ? l[i] : c - s);
  ENSURE_EQ("upper end: box around the current value cut by the limits", m->new_ub_[i], c + s > u[i] ? u[i] : c + s);
  ENSURE("inside the limits", m->new_lb_[i] >= l[i] && m->new_ub_[i] <= u[i]);
  ENSURE("never empty", m->new_lb_[i] <= m->new_ub_[i]);
}
LEMMA(L_closest_feasible, const DblVec& x, const VarVector& v, const DblVec& l, const DblVec& u, double delta, std::size_t i)
{
  REQUIRE(v.size() == x.size() && l.size() == x.size() && u.size() == x.size() && i < x.size() && delta >= 0 && l[i] <= u[i]);
  AnyProb p(std::make_shared<AnyModel>(), v, l, u);
  const DblVec y = p.getClosestFeasiblePoint(x, delta);
  ENSURE("one value per variable", y.size() == x.size());
  ENSURE("inside the limits", y[i] >= l[i] && y[i] <= u[i]);
  ENSURE("a point well inside is kept", spec::implies(x[i] >= l[i] + delta && x[i] <= u[i] - delta, y[i] == x[i]));
  const double d = (u[i] - l[i]) / 2 < delta ? (u[i] - l[i]) / 2 : delta;
  ENSURE("no further away than needed", fabs(y[i] - x[i]) <= fabs(clamp_to(l[i] + d, u[i] - d, x[i]) - x[i]) + 1e-12);
}
/// a solver that ends with any status at any point
class AnySolver : public AnyModel
{
public:
  AnySolver(CvxOptStatus s, DblVec x) : status_(s), x_(std::move(x)) {}
  CvxOptStatus optimize() override { return status_; }
  DblVec getVarValues(const VarVector& v) const override
  {
    read_ = v;
    return x_;
  }
  CvxOptStatus status_;
  DblVec x_;
  mutable VarVector read_;
};
LEMMA(L_create_variables, const VarVector& v, const DblVec& l, const DblVec& u, const std::vector<std::string>& names, const DblVec& nl, const DblVec& nu, std::size_t i, std::size_t k)
{
  REQUIRE(l.size() == v.size() && u.size() == v.size() && nl.size() == names.size() && nu.size() == names.size() && i < v.size() && k < names.size());
  auto m = std::make_shared<AnyModel>();
  AnyProb p(m, v, l, u);
  const VarVector added = p.createVariables(names, nl, nu);
  const std::size_t n = v.size() + names.size();
  ENSURE("one result per name", added.size() == names.size());
  ENSURE("limits for every variable", p.getVars().size() == n && p.getLowerBounds().size() == n && p.getUpperBounds().size() == n && static_cast<std::size_t>(p.getNumVars()) == n);
  ENSURE("the earlier variables stay", p.getVars()[i].var_rep == v[i].var_rep);
  ENSURE_EQ("the earlier lower limits stay", p.getLowerBounds()[i], l[i]);
  ENSURE_EQ("the earlier upper limits stay", p.getUpperBounds()[i], u[i]);
  ENSURE("the new ones follow in order", p.getVars()[v.size() + k].var_rep == added[k].var_rep);
  ENSURE_EQ("its lower limit", p.getLowerBounds()[v.size() + k], nl[k]);
  ENSURE_EQ("its upper limit", p.getUpperBounds()[v.size() + k], nu[k]);
  ENSURE("the solver has them", m->vars_.size() == names.size() && m->vars_[k].var_rep == added[k].var_rep);
  ENSURE_EQ("with the lower limit", m->lb_[k], nl[k]);
  ENSURE_EQ("with the upper limit", m->ub_[k], nu[k]);
}
LEMMA(L_create_unlimited, const VarVector& v, const DblVec& l, const DblVec& u, const std::vector<std::string>& names, std::size_t k)
{
  REQUIRE(l.size() == v.size() && u.size() == v.size() && k < names.size());
  AnyProb p(std::make_shared<AnyModel>(), v, l, u);
  p.createVariables(names);
  ENSURE("no lower limit", p.getLowerBounds()[v.size() + k] == -static_cast<double>(INFINITY));
  ENSURE("no upper limit", p.getUpperBounds()[v.size() + k] == static_cast<double>(INFINITY));
}
LEMMA(L_limits, const VarVector& v, const DblVec& l, const DblVec& u, const DblVec& nl, const DblVec& nu, std::size_t i)
{
  REQUIRE(l.size() == v.size() && u.size() == v.size() && nl.size() == v.size() && nu.size() == v.size() && i < v.size());
  AnyProb p(std::make_shared<AnyModel>(), v, l, u);
  p.setLowerBounds(nl);
  ENSURE_EQ("lower limit replaced", p.getLowerBounds()[i], nl[i]);
  ENSURE_EQ("upper limit kept", p.getUpperBounds()[i], u[i]);
  p.setUpperBounds(nu);
  ENSURE_EQ("lower limit kept", p.getLowerBounds()[i], nl[i]);
  ENSURE_EQ("upper limit replaced", p.getUpperBounds()[i], nu[i]);
}
#ifndef VERIF_STATIC
/// bounded: the positions written are the variables' own indices
LEMMA(B_named_limits, const DblVec& l, const DblVec& u, const DblVec& nl, const DblVec& nu, unsigned mask, unsigned turn)
{
  REQUIRE(u.size() == l.size() && nl.size() == l.size() && nu.size() == l.size() && !l.empty());
  const std::size_t n = l.size();
  VarVector v, some;
  for (std::size_t i = 0; i < n; ++i) v.emplace_back(std::make_shared<VarRep>(i, "x", nullptr));
  DblVec wl = l, wu = u, sl, su;
  for (std::size_t i = 0; i < n; ++i)
  {
    const std::size_t at = (i + turn) % n;
    if (((mask >> (at % 16)) & 1U) == 0) continue;
    some.push_back(v[at]);
    sl.push_back(wl[at] = nl[at]);
    su.push_back(wu[at] = nu[at]);
  }
  AnyProb p(std::make_shared<AnyModel>(), v, l, u);
  p.setLowerBounds(sl, some);
  ENSURE("lower limits of the named variables, no others", p.getLowerBounds() == wl && p.getUpperBounds() == u);
  p.setUpperBounds(su, some);
  ENSURE("upper limits of the named variables, no others", p.getLowerBounds() == wl && p.getUpperBounds() == wu);
  ENSURE("values are read back by variable", getVec1<DblVec>(wl, some) == sl);
}
#endif
LEMMA(L_central_point, const DblVec& x, const VarVector& v, const DblVec& l, const DblVec& u, std::size_t i)
{
  REQUIRE(v.size() == x.size() && l.size() == x.size() && u.size() == x.size() && i < x.size() && l[i] <= u[i]);
  AnyProb p(std::make_shared<AnyModel>(), v, l, u);
  const DblVec y = p.getCentralFeasiblePoint(x);
  ENSURE("one value per variable", y.size() == x.size());
  ENSURE_EQ("half way between the limits", y[i], (l[i] + u[i]) / 2);
}
LEMMA(L_solved_feasible, const DblVec& x, const VarVector& v, const DblVec& l, const DblVec& u, const DblVec& y, int status, std::size_t i)
{
  REQUIRE(v.size() == x.size() && l.size() == x.size() && u.size() == x.size() && i < x.size() && y.size() == x.size() && 0 <= status && status <= 2);
  auto m = std::make_shared<AnySolver>(static_cast<CvxOptStatus>(status), y);
  AnyProb p(m, v, l, u);
  bool failed = false;
  DblVec r;
  try
  {
    r = p.getClosestFeasiblePointQP(x);
  }
  catch (const std::exception&)
  {
    failed = true;
  }
  ENSURE("limits given for every variable", m->bounded_.size() == v.size() && m->new_lb_.size() == v.size() && m->new_ub_.size() == v.size());
  ENSURE("each at its position", m->bounded_[i].var_rep == v[i].var_rep);
  ENSURE_EQ("its lower limit", m->new_lb_[i], l[i]);
  ENSURE_EQ("its upper limit", m->new_ub_[i], u[i]);
  ENSURE("no point without a solution", failed == (status != static_cast<int>(CVX_SOLVED)));
  if (failed) return;
  ENSURE("the solution, in the order of the variables", r.size() == x.size() && m->read_.size() == v.size());
  ENSURE("read at its position", m->read_[i].var_rep == v[i].var_rep);
  ENSURE_EQ("and returned", r[i], y[i]);
}
}  // namespace sco_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
