// C06: the SQP optimizer keeps only improving steps and its best result is consistent
#include "sqp_env.h"
#ifndef VERIF_STATIC
namespace spec { void begin_trial(Rng& r) { r.n = r.i(1, 4); } }
#endif
namespace trajopt_lemmas
{
/// before any subproblem: the best point is the initial point
LEMMA(L_init, const VectorXd& x, Index costs, Index cnts, double coeff, double size, Index i, Index c, Index k)
{
  REQUIRE(0 < x.size() && x.size() < 1000 && 0 <= costs && costs < 1000 && 0 <= cnts && cnts < 1000 && 0 <= i && i < x.size());
  auto q = std::make_shared<AnyQP>(x, costs, cnts, x.size(), VectorXd(0));
  Probe p(std::make_shared<AnySolver>(q));
  p.watch(i, c, k);
  p.params.initial_merit_error_coeff = coeff;
  p.params.initial_trust_box_size = size;
  ENSURE("initialised", p.init(q));
  ENSURE("shape", p.shape());
  ENSURE("the costs are those of the best point", p.sameCosts());
  ENSURE("the violations are those of the best point", p.sameViolations());
  ENSURE_EQ("the merit is that of the best point", p.results().best_exact_merit, p.meritOf(p.results().best_costs, p.results().best_constraint_violations));
  ENSURE_EQ("the best point is the initial point", p.results().best_var_vals(i), x(i));
  ENSURE("the variables are at the best point", p.atBest());
  ENSURE("one trust region", p.sameBox() && p.results().box_size(i) == size);
  if (0 <= k && k < cnts) ENSURE("one penalty weight per constraint", p.results().merit_error_coeffs(k) == coeff && q->merit_(k) == coeff);
}
/// one subproblem
LEMMA(L_subproblem, const VectorXd& x, Index costs, Index cnts, Index extra, const VectorXd& w, double best, Index i, Index c, Index k)
{
  REQUIRE(0 < x.size() && x.size() < 1000 && 0 <= costs && costs < 1000 && 0 <= cnts && cnts < 1000 && 0 <= i && i < x.size() && 0 <= extra && extra < 1000);
  REQUIRE(w.size() == cnts);
  auto q = std::make_shared<AnyQP>(x, costs, cnts, x.size() + extra, VectorXd(0));
  auto s = std::make_shared<AnySolver>(q);
  s->given();
  Probe p(s);
  p.watch(i, c, k);
  p.results().best_var_vals = x;
  p.results().best_exact_merit = best;
  p.results().merit_error_coeffs = w;
  const SQPStatus r = p.solveQPProblem();
  const SQPResults& v = p.results();
  ENSURE("status", r == (answer(1, 0) > 0 ? SQPStatus::kRunning : SQPStatus::kQPSolveFailed));
  ENSURE("the variables stay at the best point", q->x_.size() == x.size() && q->x_(i) == x(i));
  ENSURE("the best point is kept", v.best_var_vals(i) == x(i) && v.best_exact_merit == best);
  if (r == SQPStatus::kRunning)
  {
    const VectorXd y = s->getSolution();
    ENSURE("the new point is the solution", v.new_var_vals.size() == y.size() && v.new_var_vals(i) == y(i));
    ENSURE("one value per term", v.new_costs.size() == costs && v.new_constraint_violations.size() == cnts && v.new_approx_costs.size() == costs &&
                                     v.new_approx_constraint_violations.size() == cnts);
    if (0 <= c && c < costs)
    {
      ENSURE_EQ("new costs", v.new_costs(c), cost(y, x.size(), c));
      ENSURE_EQ("new convex costs", v.new_approx_costs(c), AnyQP::convexCost(y, c));
    }
    if (0 <= k && k < cnts)
    {
      ENSURE_EQ("new violations", v.new_constraint_violations(k), violation(y, x.size(), k));
      ENSURE_EQ("new convex violations", v.new_approx_constraint_violations(k), AnyQP::convexViolation(y, k));
    }
    ENSURE_EQ("new merit", v.new_exact_merit, p.meritOf(v.new_costs, v.new_constraint_violations));
    ENSURE_EQ("new convex merit", v.new_approx_merit, p.meritOf(v.new_approx_costs, v.new_approx_constraint_violations));
    ENSURE_EQ("exact improvement", v.exact_merit_improve, best - v.new_exact_merit);
    ENSURE_EQ("convex improvement", v.approx_merit_improve, best - v.new_approx_merit);
    if (std::fabs(v.approx_merit_improve) > 1e-9) ENSURE_EQ("ratio", v.merit_improve_ratio, v.exact_merit_improve / v.approx_merit_improve);
  }
}
/// the trust region loop from any consistent state
LEMMA(L_trust_region, const VectorXd& x, Index n, const VectorXd& cs, const VectorXd& vs, const VectorXd& w, Index extra, double size, const trajopt_sqp::SQPParameters& params,
      Index i, Index c, Index k)
{
  const Index costs = cs.size(), cnts = vs.size();
  REQUIRE(0 < n && n <= x.size() && x.size() < 1000 && costs < 1000 && cnts < 1000 && 0 <= i && i < n && 0 <= extra && extra < 1000);
  REQUIRE(w.size() == cnts && size >= 0);
  auto q = std::make_shared<AnyQP>(x.head(n), costs, cnts, n + extra, VectorXd::Constant(n, size));
  auto s = std::make_shared<Recorder>(q);
  Steps p(s);
  p.watch(i, c, k);
  p.params = params;
  REQUIRE(sane(params));
  any_state(p, q, x, cs, vs, w);
  s->given();
  p.runTrustRegionLoop();
  ENSURE("shape", p.shape());
  ENSURE("the merit of the best point never increases", p.results().best_exact_merit <= p.merit0_);
  ENSURE("the costs are those of the best point", p.sameCosts());
  ENSURE("the violations are those of the best point", p.sameViolations());
  ENSURE_EQ("the merit is that of the best point", p.results().best_exact_merit, p.meritOf(p.results().best_costs, p.results().best_constraint_violations));
  ENSURE("the variables are at the best point", p.atBest());
  ENSURE("one trust region", p.sameBox());
  ENSURE("a step is kept only when it improves enough", p.onlyGoodSteps());
  ENSURE("the trust region grows only after a kept step", p.growsWhenKept());
  ENSURE("the trust region shrinks only after a rejected or failed step", p.shrinksWhenRejected());
}
/// one convexification from any consistent state: whatever the solver was given before, whether it can be updated in place or not
LEMMA(L_step, const VectorXd& x, Index n, const VectorXd& cs, const VectorXd& vs, const VectorXd& w, Index extra, Index solves, double size, const trajopt_sqp::SQPParameters& params,
      Index i, Index c, Index k)
{
  const Index costs = cs.size(), cnts = vs.size();
  REQUIRE(0 < n && n <= x.size() && x.size() < 1000 && costs < 1000 && cnts < 1000 && 0 <= i && i < n && 0 <= extra && extra < 1000);
  REQUIRE(w.size() == cnts && size >= 0 && 0 <= solves && solves < 1000);
  auto q = std::make_shared<AnyQP>(x.head(n), costs, cnts, n + extra, VectorXd::Constant(n, size));
  auto s = std::make_shared<Recorder>(q);
  s->solves_ = solves;
  Steps p(s);
  p.watch(i, c, k);
  p.params = params;
  REQUIRE(sane(params));
  any_state(p, q, x, cs, vs, w);
  const long before = q->convexified_;
  p.stepSQPSolver();
  ENSURE("shape", p.shape());
  ENSURE("the merit of the best point never increases", p.results().best_exact_merit <= p.merit0_);
  ENSURE("the costs are those of the best point", p.sameCosts());
  ENSURE("the violations are those of the best point", p.sameViolations());
  ENSURE_EQ("the merit is that of the best point", p.results().best_exact_merit, p.meritOf(p.results().best_costs, p.results().best_constraint_violations));
  ENSURE("the variables are at the best point", p.atBest());
  ENSURE("a step is kept only when it improves enough", p.onlyGoodSteps());
  ENSURE("ready for another one", p.ready());
  ENSURE("the costs were made convex at the best point", q->convexified_ == before + 1);
}
/// the same, with a convexification known by its contract only (L_step)
class Run : public Steps
{
public:
  Run(std::shared_ptr<Recorder> r) : Steps(r) {}
  void before_stepSQPSolver() { ENSURE("a convexification starts in a consistent state", ready()); }
  void after_stepSQPSolver() { REQUIRE(ready()); }
};
/// a whole run from any starting point
LEMMA(L_solve, const VectorXd& x, Index costs, Index cnts, Index extra, const trajopt_sqp::SQPParameters& params, Index i, Index c, Index k)
{
  REQUIRE(0 < x.size() && x.size() < 1000 && 0 <= costs && costs < 1000 && 0 <= cnts && cnts < 1000 && 0 <= i && i < x.size() && 0 <= extra && extra < 1000);
  auto q = std::make_shared<AnyQP>(x, costs, cnts, x.size() + extra, VectorXd(0));
  auto s = std::make_shared<Recorder>(q);
  Run p(s);
  p.watch(i, c, k);
  p.params = params;
  REQUIRE(sane(p.params) && p.params.initial_trust_box_size >= 0);
  p.n0_ = x.size();
  p.costs0_ = costs;
  p.cnts0_ = cnts;
  s->i_ = i;
  s->r_ = &p.results();
  p.solve(q);
  ENSURE("shape", p.shape());
  ENSURE("the costs are those of the best point", p.sameCosts());
  ENSURE("the violations are those of the best point", p.sameViolations());
  ENSURE_EQ("the merit is that of the best point", p.results().best_exact_merit, p.meritOf(p.results().best_costs, p.results().best_constraint_violations));
  ENSURE("the variables are left at the best point", p.atBest());
}
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
