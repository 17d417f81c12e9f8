// C07: the termination status and the penalty weights of the SQP optimizer are truthful
#include "sqp_env.h"
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { r.n = r.i(1, 4); } }
#endif
namespace trajopt_lemmas
{
inline bool satisfied(const VectorXd& v, double tolerance)
{
  bool r = true;
  for (Index k = 0; k < v.size(); ++k)
    if (v(k) >= tolerance) r = false;
  return r;
}
/// the convergence check
LEMMA(L_convergence_check, const VectorXd& v, double tolerance)
{
  auto q = std::make_shared<AnyQP>(VectorXd::Ones(1), 0, v.size(), 1, VectorXd(0));
  Probe p(std::make_shared<AnySolver>(q));
  p.params.cnt_tolerance = tolerance;
  p.results().best_constraint_violations = v;
  ENSURE("converged exactly when every violation is below the tolerance", p.verifySQPSolverConvergence() == satisfied(v, tolerance));
}
/// the penalty weights
LEMMA(L_penalties, const VectorXd& costs, const VectorXd& v, const VectorXd& w, const VectorXd& box, const trajopt_sqp::SQPParameters& params, Index k, Index i)
{
  REQUIRE(v.size() == w.size() && 0 <= k && k < v.size() && 0 <= i && i < box.size() && params.trust_shrink_ratio > 0);
  auto q = std::make_shared<AnyQP>(box, costs.size(), v.size(), box.size(), box);
  Probe p(std::make_shared<AnySolver>(q));
  p.params = params;
  SQPResults& r = p.results();
  spec::arbitrary(r);
  r.best_costs = costs;
  r.best_constraint_violations = v;
  r.merit_error_coeffs = w;
  r.box_size = box;
  p.adjustPenalty();
  const bool grows = !params.inflate_constraints_individually || v(k) > params.cnt_tolerance;
  ENSURE("one weight per constraint", r.merit_error_coeffs.size() == v.size());
  ENSURE_EQ("exactly the weights of the violated constraints (or all) grow by the factor", r.merit_error_coeffs(k), grows ? w(k) * params.merit_coeff_increase_ratio : w(k));
  ENSURE("the problem uses the new weights", q->merit_.size() == v.size() && q->merit_(k) == r.merit_error_coeffs(k));
  ENSURE_EQ("the merit of the best point uses the new weights", r.best_exact_merit, p.meritOf(costs, v));
  ENSURE("the best point is kept", r.best_costs.size() == costs.size() && r.best_constraint_violations(k) == v(k));
  ENSURE_EQ("the trust region is opened again", r.box_size(i), std::fmax(box(0), params.min_trust_box_size / params.trust_shrink_ratio * 1.5));
  ENSURE("the problem uses it", q->box_(i) == r.box_size(i));
}
/// all callbacks are asked, whatever the first ones answer
LEMMA(L_callbacks, Index n, const VectorXd& x)
{
  REQUIRE(0 <= n && n < 1000);
  auto q = std::make_shared<AnyQP>(x, 0, 0, x.size(), VectorXd(0));
  Probe p(std::make_shared<AnySolver>(q));
  auto c = std::make_shared<AnyCallback>(1);
  for (Index k = 0; k < n; ++k) p.registerCallback(c);
  const bool go = p.callCallbacks();
  bool all = true;
  for (Index k = 1; k <= n; ++k)
    if (answer(k, 1001) <= 0) all = false;
  ENSURE_EQI("every callback is called once", c->calls_, n);
  ENSURE("the optimizer goes on exactly when all agree", go == all);
}
/// a run with a callback that may stop it at any time
class Stops : public Steps
{
public:
  Stops(std::shared_ptr<Recorder> r, std::shared_ptr<AnyCallback> c) : Steps(r), cb_(c) {}
  bool going() const { return !cb_->stop_ && cb_->calls_ >= 0; }
  bool weights() const { return k_ < 0 || k_ >= cnts0_ || results_.merit_error_coeffs(k_) == weight0_; }
  void loop_runTrustRegionLoop()
  {
    INVARIANT("shape", shape());
    INVARIANT("sizes", qp_->x_.size() == n0_ && solver_->solves_ >= 0 && qp_->cnts_ == cnts0_ && qp_->costs_ == costs0_);
    INVARIANT("weights", weights());
    INVARIANT("going on", going());
    INVARIANT("subproblem known", solver_->known());
    INVARIANT("status", status_ == SQPStatus::kRunning || status_ == SQPStatus::kQPSolveFailed || (status_ == before_ && !rec_->solved_));
  }
  bool ready() const
  {
    return shape() && qp_->x_.size() == n0_ && solver_->solves_ >= 0 && qp_->cnts_ == cnts0_ && qp_->costs_ == costs0_ && going();
  }
  bool stopped() const { return cb_->stop_ == (status_ == SQPStatus::kStoppedByCallback); }
  bool stepped() const
  {
    return shape() && qp_->x_.size() == n0_ && solver_->solves_ >= 0 && qp_->cnts_ == cnts0_ && qp_->costs_ == costs0_ && cb_->calls_ >= 0 && stopped() && weights() &&
           (status_ == SQPStatus::kRunning || status_ == SQPStatus::kQPSolveFailed || status_ == SQPStatus::kStoppedByCallback || status_ == SQPStatus::kConverged);
  }
  std::shared_ptr<AnyCallback> cb_;
  SQPStatus before_{ SQPStatus::kRunning };
};
LEMMA(L_stop, const VectorXd& x, const VectorXd& y, const VectorXd& cs, const VectorXd& vs, const VectorXd& w, const VectorXd& box, Index extra, Index solves,
      const trajopt_sqp::SQPParameters& params, bool failed, Index k)
{
  const Index costs = cs.size(), cnts = vs.size();
  REQUIRE(0 < x.size() && x.size() < 1000 && costs < 1000 && cnts < 1000 && 0 <= extra && extra < 1000 && 0 < y.size() && y.size() <= x.size());
  REQUIRE(w.size() == cnts && box.size() == y.size() && 0 <= solves && solves < 1000 && sane(params));
  auto q = std::make_shared<AnyQP>(y, costs, cnts, y.size() + extra, box);
  auto s = std::make_shared<Recorder>(q);
  auto c = std::make_shared<AnyCallback>(1);
  s->solves_ = solves;
  Stops p(s, c);
  p.watch(0, 0, k);
  p.params = params;
  p.registerCallback(c);
  p.before_ = failed ? SQPStatus::kQPSolveFailed : SQPStatus::kRunning;
  p.status(p.before_);
  any_results(p, q, x, cs, vs, w);
  REQUIRE(p.ready());
  const bool end = p.stepSQPSolver();
  ENSURE("shape", p.shape());
  ENSURE("a request to stop ends the step with that status", p.stopped());
  ENSURE("the penalty weights are kept", p.weights());
  ENSURE("a step ends the iteration exactly when it has converged", end == (p.getStatus() == SQPStatus::kConverged));
  ENSURE("as known to the whole run", p.stepped());
}
/// a whole run, with a step known by its contract (L_stop)
class StopsRun : public Stops
{
public:
  StopsRun(std::shared_ptr<Recorder> r, std::shared_ptr<AnyCallback> c) : Stops(r, c) {}
  void before_stepSQPSolver()
  {
    ENSURE("no step is made after a request to stop", going());
    ENSURE("a step starts in a proper state", ready() && (status_ == SQPStatus::kRunning || status_ == SQPStatus::kQPSolveFailed));
    weight0_ = 0 <= k_ && k_ < cnts0_ ? results_.merit_error_coeffs(k_) : 0;
  }
  void after_stepSQPSolver(bool end) { REQUIRE(stepped() && end == (status_ == SQPStatus::kConverged)); }
  void loop_solve()
  {
    INVARIANT("shape", shape());
    INVARIANT("sizes", qp_->x_.size() == n0_ && solver_->solves_ >= 0 && qp_->cnts_ == cnts0_ && qp_->costs_ == costs0_);
    INVARIANT("going on", going());
    INVARIANT("running", status_ == SQPStatus::kRunning);
    INVARIANT("running or failed", status_ == SQPStatus::kRunning || status_ == SQPStatus::kQPSolveFailed);
    INVARIANT("the weights never shrink", k_ < 0 || k_ >= cnts0_ || results_.merit_error_coeffs(k_) >= params.initial_merit_error_coeff);
  }
};
LEMMA(L_status, const VectorXd& x, Index costs, Index cnts, Index extra, const trajopt_sqp::SQPParameters& params, Index k)
{
  REQUIRE(0 < x.size() && x.size() < 1000 && 0 <= costs && costs < 1000 && 0 <= cnts && cnts < 1000 && 0 <= extra && extra < 1000);
  REQUIRE(sane(params) && params.initial_trust_box_size >= 0 && params.merit_coeff_increase_ratio >= 1 && params.initial_merit_error_coeff >= 0);
  auto q = std::make_shared<AnyQP>(x, costs, cnts, x.size() + extra, VectorXd(0));
  auto s = std::make_shared<Recorder>(q);
  auto c = std::make_shared<AnyCallback>(1);
  StopsRun p(s, c);
  p.watch(0, 0, k);
  p.params = params;
  p.registerCallback(c);
  p.n0_ = x.size();
  p.costs0_ = costs;
  p.cnts0_ = cnts;
  s->r_ = &p.results();
  p.solve(q);
  const SQPStatus r = p.getStatus();
  ENSURE("a request to stop ends the run with that status", c->stop_ == (r == SQPStatus::kStoppedByCallback));
  ENSURE("convergence is reported only when every violation is below the tolerance",
         r != SQPStatus::kConverged || satisfied(p.results().best_constraint_violations, params.cnt_tolerance));
  ENSURE("the iteration limit is reported only when it was reached", r != SQPStatus::kIterationLimit || p.results().overall_iteration >= params.max_iterations);
  ENSURE("a run always ends with a final status", r == SQPStatus::kConverged || r == SQPStatus::kIterationLimit || r == SQPStatus::kTimeLimit ||
                                                      r == SQPStatus::kPenaltyIterationLimit || r == SQPStatus::kStoppedByCallback);
  ENSURE("the penalty weights never shrink", k < 0 || k >= cnts || p.results().merit_error_coeffs(k) >= params.initial_merit_error_coeff);
}
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
