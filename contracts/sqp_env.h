// an arbitrary SQP run for the contracts on the trust region solver: a problem with arbitrary costs and violations, a QP
// solver whose answers (and failures) are arbitrary, callbacks that stop at any time
#pragma once
#include "ifopt_spec.h"
#include <trajopt_ifopt/core/eigen_types.h>
#include <trajopt_sqp/qp_problem.h>
#include <trajopt_sqp/qp_solver.h>
#include <trajopt_sqp/sqp_callback.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
#include <trajopt_sqp/types.h>
#ifndef VERIF_STATIC
namespace spec
{
template <> struct Gen<trajopt_sqp::SQPParameters>
{
  static trajopt_sqp::SQPParameters make(Rng& r)
  {
    trajopt_sqp::SQPParameters p;
    p.max_iterations = r.i(1, 30);
    p.improve_ratio_threshold = r.i(0, 3) * 0.25;
    p.trust_shrink_ratio = r.i(1, 9) * 0.1;
    p.trust_expand_ratio = 1 + r.i(1, 9) * 0.25;
    p.max_qp_solver_failures = r.i(0, 4);
    p.max_merit_coeff_increases = r.i(0, 6);
    p.inflate_constraints_individually = r.b();
    p.cnt_tolerance = r.i(0, 4) * 0.5;
    p.initial_trust_box_size = r.i(0, 20) * 0.1;
    return p;
  }
};
}
#endif
namespace trajopt_lemmas
{
using trajopt_sqp::SQPResults;
using trajopt_sqp::SQPStatus;
/// cost r / violation r of a point: arbitrary functions of the first n coordinates
inline double cost(const VectorXd& x, Index n, Index r) { return spec::oracle(x.head(n), 3 * r); }
inline double violation(const VectorXd& x, Index n, Index r) { return std::fabs(spec::oracle(x.head(n), 3 * r + 1)); }
/// the k-th arbitrary answer number j of the environment
inline double answer(Index k, Index j)
{
#ifdef VERIF_STATIC
  VectorXd p(1);
  p(0) = static_cast<double>(k);
  return spec::oracle(p, -1 - j);
#else
  return std::sin(static_cast<double>(7 * k * k + 13 * k + 31 * j + 5 * j * j)) + 0.5;
#endif
}
class AnyQP : public trajopt_sqp::QPProblem
{
public:
  AnyQP(VectorXd x, Index costs, Index cnts, Index qp_vars, VectorXd box)
    : x_(std::move(x)), box_(std::move(box)), costs_(costs), cnts_(cnts), qp_vars_(qp_vars)
  {
  }
  void addConstraintSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>) override {}
  void addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet>, trajopt_sqp::CostPenaltyType) override {}
  void setup() override {}
  void setVariables(const double* x) override
  {
    for (Index k = 0; k < x_.size(); ++k) x_(k) = x[k];
  }
  VectorXd getVariableValues() const override { return x_; }
  void convexify() override { ++convexified_; ++resized_; }
  double evaluateTotalConvexCost(const Eigen::Ref<const VectorXd>& v) const override { return evaluateConvexCosts(v).sum(); }
  VectorXd evaluateConvexCosts(const Eigen::Ref<const VectorXd>& v) const override
  {
    VectorXd r(costs_);
    for (Index k = 0; k < costs_; ++k) r(k) = convexCost(v, k);
    return r;
  }
  double getTotalExactCost() const override { return getExactCosts().sum(); }
  VectorXd getExactCosts() const override
  {
    VectorXd r(costs_);
    for (Index k = 0; k < costs_; ++k) r(k) = cost(x_, x_.size(), k);
    return r;
  }
  VectorXd evaluateConvexConstraintViolations(const Eigen::Ref<const VectorXd>& v) const override
  {
    VectorXd r(cnts_);
    for (Index k = 0; k < cnts_; ++k) r(k) = convexViolation(v, k);
    return r;
  }
  VectorXd getExactConstraintViolations() const override
  {
    VectorXd r(cnts_);
    for (Index k = 0; k < cnts_; ++k) r(k) = violation(x_, x_.size(), k);
    return r;
  }
  void scaleBoxSize(double& s) override { box_ = box_ * s; ++resized_; }
  void setBoxSize(const Eigen::Ref<const VectorXd>& b) override { box_ = b; ++resized_; }
  void setConstraintMeritCoeff(const Eigen::Ref<const VectorXd>& m) override { merit_ = m; }
  void print() const override {}
  Index getNumNLPVars() const override { return x_.size(); }
  Index getNumNLPConstraints() const override { return cnts_; }
  Index getNumNLPCosts() const override { return costs_; }
  Index getNumQPVars() const override { return qp_vars_; }
  Index getNumQPConstraints() const override { return cnts_ + qp_vars_; }
  const std::vector<std::string>& getNLPConstraintNames() const override { return names_; }
  const std::vector<std::string>& getNLPCostNames() const override { return names_; }
  const VectorXd& getBoxSize() const override { return box_; }
  const VectorXd& getConstraintMeritCoeff() const override { return merit_; }
  const Jacobian& getHessian() const override { return matrix_; }
  const VectorXd& getGradient() const override { return vector_; }
  const Jacobian& getConstraintMatrix() const override { return matrix_; }
  const VectorXd& getBoundsLower() const override { return vector_; }
  const VectorXd& getBoundsUpper() const override { return vector_; }
  /// arbitrary functions of the QP's variables
  static double convexCost(const VectorXd& v, Index r) { return spec::oracle(v, 3 * r + 2); }
  static double convexViolation(const VectorXd& v, Index r) { return std::fabs(spec::oracle(v, -2 - r)); }
  VectorXd x_, box_, merit_, vector_;
  Index costs_, cnts_, qp_vars_;
  std::vector<std::string> names_;
  Jacobian matrix_;
  long resized_{ 0 }, convexified_{ 0 };    // versions of the bounds and of the other data of the subproblem
};
class AnySolver : public trajopt_sqp::QPSolver
{
public:
  AnySolver(std::shared_ptr<AnyQP> qp) : qp_(std::move(qp)) {}
  bool init(Index vars, Index cnts) override
  {
    ENSURE("the solver is set up with the size of the subproblem", vars == qp_->getNumQPVars() && cnts == qp_->getNumQPConstraints());
    return true;
  }
  bool clear() override
  {
    fresh_ = true;
    hessian_ = gradient_ = matrix_ = bounds_ = -1;
    return true;
  }
  bool solve() override
  {
    ++solves_;
    fresh_ = false;
    ENSURE("the current subproblem is solved, with the current trust region", known());
    return answer(solves_, 0) > 0;
  }
  /// an update in place may fail; after clear() it does not
  bool update(Index what, long& known) const
  {
    if (!fresh_ && answer(solves_, 1 + what) <= 0) return false;
    known = qp_->convexified_;
    return true;
  }
  VectorXd getSolution() override
  {
    VectorXd r(qp_->qp_vars_);
    for (Index k = 0; k < qp_->qp_vars_; ++k) r(k) = answer(solves_, 10 + k);
    return r;
  }
  bool updateHessianMatrix(const Jacobian&) override { return update(1, hessian_); }
  bool updateGradient(const Eigen::Ref<const VectorXd>&) override { return update(2, gradient_); }
  bool updateLowerBound(const Eigen::Ref<const VectorXd>&) override { return true; }
  bool updateUpperBound(const Eigen::Ref<const VectorXd>&) override { return true; }
  bool updateBounds(const Eigen::Ref<const VectorXd>&, const Eigen::Ref<const VectorXd>&) override
  {
    bounds_ = qp_->resized_;
    return true;
  }
  bool updateLinearConstraintsMatrix(const Jacobian&) override { return update(3, matrix_); }
  bool setWarmStart(const trajopt_sqp::QPProblem&) override { return true; }
  trajopt_sqp::QPSolverStatus getSolverStatus() const override
  {
    return solves_ == 0 ? trajopt_sqp::QPSolverStatus::kUninitialized : trajopt_sqp::QPSolverStatus::kInitialized;
  }
  std::shared_ptr<AnyQP> qp_;
  Index solves_{ 0 };
  bool fresh_{ false };
  long bounds_{ -1 }, hessian_{ -1 }, gradient_{ -1 }, matrix_{ -1 };    // what the solver was given last
  void given() { bounds_ = qp_->resized_; hessian_ = gradient_ = matrix_ = qp_->convexified_; }
  bool known() const
  {
    return bounds_ == qp_->resized_ && hessian_ == qp_->convexified_ && gradient_ == qp_->convexified_ && matrix_ == qp_->convexified_;
  }
};
class AnyCallback : public trajopt_sqp::SQPCallback
{
public:
  AnyCallback(Index id) : id_(id) {}
  bool execute(const trajopt_sqp::QPProblem&, const SQPResults&) override
  {
    ++calls_;
    const bool go = answer(calls_, 1000 + id_) > 0;
    if (!go) stop_ = true;
    return go;
  }
  Index id_, calls_{ 0 };
  bool stop_{ false };
};
/// access to the state of the optimizer
class Probe : public trajopt_sqp::TrustRegionSQPSolver
{
public:
  Probe(std::shared_ptr<AnySolver> s) : trajopt_sqp::TrustRegionSQPSolver(s), solver_(s), qp_(s->qp_) { qp_problem = qp_; }
  SQPResults& results() { return results_; }
  void status(SQPStatus s) { status_ = s; }
  double meritOf(const VectorXd& costs, const VectorXd& violations) const { return costs.sum() + violations.dot(results_.merit_error_coeffs); }
  /// arbitrary but fixed: a coordinate, a cost, a constraint
  void watch(Index i, Index c, Index k) { i_ = i; c_ = c; k_ = k; }
  bool shape() const
  {
    return results_.best_var_vals.size() >= n() && results_.best_costs.size() == qp_->costs_ && results_.best_constraint_violations.size() == qp_->cnts_ &&
           results_.merit_error_coeffs.size() == qp_->cnts_ && results_.box_size.size() == n() && qp_->box_.size() == n();
  }
  Index n() const { return qp_->x_.size(); }
  bool sameCosts() const { return c_ < 0 || c_ >= qp_->costs_ || results_.best_costs(c_) == cost(results_.best_var_vals, n(), c_); }
  bool sameViolations() const
  {
    return k_ < 0 || k_ >= qp_->cnts_ || results_.best_constraint_violations(k_) == violation(results_.best_var_vals, n(), k_);
  }
  bool sameMerit() const { return results_.best_exact_merit == meritOf(results_.best_costs, results_.best_constraint_violations); }
  bool atBest() const { return qp_->x_(i_) == results_.best_var_vals(i_); }
  bool sameBox() const { return results_.box_size(i_) == qp_->box_(i_); }
  std::shared_ptr<AnySolver> solver_;
  std::shared_ptr<AnyQP> qp_;
  Index i_{ 0 }, c_{ 0 }, k_{ 0 };
};
/// remembers the state in which the last subproblem was solved
class Recorder : public AnySolver
{
public:
  Recorder(std::shared_ptr<AnyQP> qp) : AnySolver(std::move(qp)) {}
  bool solve() override
  {
    solved_ = true;
    box0_ = qp_->box_(i_);
    merit0_ = r_->best_exact_merit;
    best0_ = r_->best_var_vals(i_);
    ok_ = AnySolver::solve();
    return ok_;
  }
  const SQPResults* r_{ nullptr };
  Index i_{ 0 };
  bool solved_{ false }, ok_{ false };
  double box0_{ 0 }, merit0_{ 0 }, best0_{ 0 };
};
class Steps : public Probe
{
public:
  Steps(std::shared_ptr<Recorder> r) : Probe(r), rec_(r) {}
  bool kept() const
  {
    return rec_->ok_ && results_.new_var_vals.size() > i_ && results_.best_exact_merit == results_.new_exact_merit && results_.best_var_vals(i_) == results_.new_var_vals(i_) &&
           results_.exact_merit_improve >= 0 && results_.exact_merit_improve == rec_->merit0_ - results_.new_exact_merit &&
           results_.merit_improve_ratio >= params.improve_ratio_threshold;
  }
  bool unchanged() const { return results_.best_exact_merit == rec_->merit0_ && results_.best_var_vals(i_) == rec_->best0_; }
  bool uniform() const
  {
    bool r = true;
    for (Index j = 0; j < results_.box_size.size(); ++j)
      if (r && (results_.box_size(j) != results_.box_size(i_) || qp_->box_(j) != results_.box_size(i_))) r = false;
    return r;
  }
  bool onlyGoodSteps() const { return !rec_->solved_ || unchanged() || kept(); }
  bool growsWhenKept() const { return !rec_->solved_ || results_.box_size(i_) <= rec_->box0_ || kept(); }
  bool shrinksWhenRejected() const { return !rec_->solved_ || results_.box_size(i_) >= rec_->box0_ || unchanged(); }
  void consistent()
  {
    INVARIANT("shape", shape());
    INVARIANT("costs", sameCosts());
    INVARIANT("violations", sameViolations());
    INVARIANT("merit", sameMerit());
    INVARIANT("at best", atBest());
    INVARIANT("box", sameBox());
    INVARIANT("uniform box", uniform());
    INVARIANT("box size", results_.box_size(i_) >= 0);
    INVARIANT("sizes", qp_->x_.size() == n0_ && solver_->solves_ >= 0 && qp_->cnts_ == cnts0_ && qp_->costs_ == costs0_);
  }
  bool ready() const
  {
    return shape() && sameCosts() && sameViolations() && sameMerit() && atBest() && sameBox() && uniform() && results_.box_size(i_) >= 0 && qp_->x_.size() == n0_ &&
           solver_->solves_ >= 0 && qp_->cnts_ == cnts0_ && qp_->costs_ == costs0_;
  }
  void loop_runTrustRegionLoop()
  {
    consistent();
    INVARIANT("not worse", results_.best_exact_merit <= merit0_);
    INVARIANT("subproblem known", solver_->known());
    INVARIANT("good steps", onlyGoodSteps());
    INVARIANT("growth", growsWhenKept());
    INVARIANT("shrinking", shrinksWhenRejected());
    INVARIANT("weights", k_ < 0 || k_ >= cnts0_ || results_.merit_error_coeffs(k_) == weight0_);
  }
  void loop_solve() { consistent(); }
  std::shared_ptr<Recorder> rec_;
  double merit0_{ 0 }, weight0_{ 0 };
  Index n0_{ 0 }, costs0_{ 0 }, cnts0_{ 0 };
};
inline bool sane(const trajopt_sqp::SQPParameters& p)
{
  return 0 < p.trust_shrink_ratio && p.trust_shrink_ratio < 1 && 1 < p.trust_expand_ratio && p.min_trust_box_size > 0;
}
/// any state: the results, the number of subproblems and the versions of the data are arbitrary
inline void any_results(Steps& p, const std::shared_ptr<AnyQP>& q, const VectorXd& x, const VectorXd& cs, const VectorXd& vs, const VectorXd& w)
{
  p.n0_ = q->x_.size();
  p.costs0_ = q->costs_;
  p.cnts0_ = q->cnts_;
  p.weight0_ = 0 <= p.k_ && p.k_ < q->cnts_ ? w(p.k_) : 0;
  p.rec_->i_ = p.i_;
  p.rec_->r_ = &p.results();
  spec::arbitrary(p.results());
  spec::arbitrary(q->convexified_);
  spec::arbitrary(q->resized_);
  spec::arbitrary(p.rec_->fresh_);
  REQUIRE(q->convexified_ >= 0 && q->resized_ >= 0);
  p.results().best_var_vals = x;
  p.results().best_costs = cs;
  p.results().best_constraint_violations = vs;
  p.results().merit_error_coeffs = w;
  p.results().box_size = q->box_;
}
/// any consistent state
inline void any_state(Steps& p, const std::shared_ptr<AnyQP>& q, const VectorXd& x, const VectorXd& cs, const VectorXd& vs, const VectorXd& w)
{
  any_results(p, q, x, cs, vs, w);
#ifndef VERIF_STATIC
  for (Index k = 0; k < cs.size(); ++k) p.results().best_costs(k) = cost(x, p.n0_, k);
  for (Index k = 0; k < vs.size(); ++k) p.results().best_constraint_violations(k) = violation(x, p.n0_, k);
#endif
  p.results().best_exact_merit = p.meritOf(p.results().best_costs, p.results().best_constraint_violations);
  REQUIRE(p.sameCosts() && p.sameViolations());
  p.merit0_ = p.results().best_exact_merit;
}
}  // namespace trajopt_lemmas
