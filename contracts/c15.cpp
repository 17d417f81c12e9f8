// C15: composites stack their parts; the problem's values are those of its composites
#include "qp_spec.h"
#include <trajopt_ifopt/core/composite.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/core/problem.h>
#ifndef VERIF_STATIC
namespace spec
{
inline Eigen::Index width = 3;
void begin_trial(Rng& r) { width = r.i(1, 4); }
template <> struct Gen<std::shared_ptr<trajopt_lemmas::AnySet>>
{
  static std::shared_ptr<trajopt_lemmas::AnySet> make(Rng& r)
  {
    using namespace trajopt_ifopt;
    const int m = r.i(0, 3);
    Eigen::VectorXd v(m), c(m);
    std::vector<Bounds> b;
    for (int j = 0; j < m; ++j)
    {
      v(j) = r.d();
      c(j) = r.d();
      b.push_back(Gen<Bounds>::make(r));
    }
    Jacobian jac(m, width);
    for (int j = 0; j < m; ++j)
      for (int k = 0; k < width; ++k)
        if (r.i(0, 1) == 0) jac.coeffRef(j, k) = r.d();
    return std::make_shared<trajopt_lemmas::AnySet>(v, b, jac, c);
  }
};
}
#endif
namespace trajopt_lemmas
{
using Eigen::MatrixXd;
using Parts = std::vector<std::shared_ptr<AnySet>>;
/// every part is consistent: as many values, bounds, coefficients and derivative rows as it has rows
inline bool proper(const Parts& p, Index n)
{
  bool r = true;
  for (std::size_t i = 0; i < p.size(); ++i)
    if (r && (p[i] == nullptr || p[i]->rows_ < 0 || p[i]->v_.size() != p[i]->rows_ || p[i]->c_.size() != p[i]->rows_ || static_cast<Index>(p[i]->b_.size()) != p[i]->rows_ || p[i]->j_.rows() != p[i]->rows_ ||
              p[i]->j_.cols() != n || p[i]->non_zeros_ < 0))
      r = false;
  return r;
}
inline Index before(const Parts& p, std::size_t i)
{
  Index s = 0;
  for (std::size_t j = 0; j < i; ++j) s += p[j]->rows_;
  return s;
}
inline void stack(CompositeDifferentiable& c, const Parts& p)
{
  for (std::size_t i = 0; i < p.size(); ++i) c.addComponent(p[i]);
}
LEMMA(L_rows, const Parts& p, Index n, std::size_t i)
{
  REQUIRE(proper(p, n) && i < p.size() && n >= 0);
  CompositeDifferentiable c("all", n, Differentiable::Mode::kStackRows, false);
  stack(c, p);
  ENSURE_EQI("the number of rows is the sum", c.getRows(), before(p, p.size()));
  ENSURE("the parts in order", c.getComponents().size() == p.size() && c.getComponents()[i] == p[i]);
}
LEMMA(L_values, const Parts& p, Index n, std::size_t i, Index d)
{
  REQUIRE(proper(p, n) && i < p.size() && n >= 0 && 0 <= d && d < p[i]->rows_);
  CompositeDifferentiable c("all", n, Differentiable::Mode::kStackRows, false);
  stack(c, p);
  const VectorXd v = c.getValues();
  ENSURE_EQI("size", v.size(), c.getRows());
  ENSURE_EQ("each value at its row", v(before(p, i) + d), p[i]->v_(d));
}
LEMMA(L_coefficients, const Parts& p, Index n, std::size_t i, Index d)
{
  REQUIRE(proper(p, n) && i < p.size() && n >= 0 && 0 <= d && d < p[i]->rows_);
  CompositeDifferentiable c("all", n, Differentiable::Mode::kStackRows, false);
  stack(c, p);
  const VectorXd v = c.getCoefficients();
  ENSURE_EQI("size", v.size(), c.getRows());
  ENSURE_EQ("each coefficient at its row", v(before(p, i) + d), p[i]->c_(d));
}
LEMMA(L_bounds, const Parts& p, Index n, std::size_t i, Index d)
{
  REQUIRE(proper(p, n) && i < p.size() && n >= 0 && 0 <= d && d < p[i]->rows_);
  CompositeDifferentiable c("all", n, Differentiable::Mode::kStackRows, false);
  stack(c, p);
  const std::vector<Bounds> b = c.getBounds();
  ENSURE_EQI("size", b.size(), c.getRows());
  ENSURE("each bound at its row", lo(b[U(before(p, i) + d)]) == lo(p[i]->b_[U(d)]) && hi(b[U(before(p, i) + d)]) == hi(p[i]->b_[U(d)]));
}
LEMMA(L_jacobian, const Parts& p, Index n, std::size_t i, Index d, Index k)
{
  REQUIRE(proper(p, n) && i < p.size() && 0 <= d && d < p[i]->rows_ && 0 <= k && k < n);
  CompositeDifferentiable c("all", n, Differentiable::Mode::kStackRows, false);
  stack(c, p);
  const Jacobian j = c.getJacobian();
  ENSURE("size", j.rows() == c.getRows() && j.cols() == n);
  ENSURE_EQ("each derivative at its row", j.coeff(before(p, i) + d, k), p[i]->j_.coeff(d, k));
}
/// a constraint whose number of rows changes when it is updated
class Changing : public AnySet
{
public:
  Changing(VectorXd v, std::vector<Bounds> b, Jacobian j, VectorXd c, int next, Index nz) : AnySet(std::move(v), std::move(b), std::move(j), std::move(c)), next_(next), nz_(nz) {}
  int update() override
  {
    rows_ = next_;
    non_zeros_ = nz_;
    ++updates_;
    return rows_;
  }
  int next_;
  Index nz_;
  int updates_{ 0 };
};
}
#ifndef VERIF_STATIC
namespace spec
{
template <> struct Gen<std::shared_ptr<trajopt_lemmas::Changing>>
{
  static std::shared_ptr<trajopt_lemmas::Changing> make(Rng& r)
  {
    const auto a = Gen<std::shared_ptr<trajopt_lemmas::AnySet>>::make(r);
    return std::make_shared<trajopt_lemmas::Changing>(a->v_, a->b_, a->j_, a->c_, r.i(0, 1) == 0 ? static_cast<int>(a->v_.size()) : r.i(0, 3), r.i(0, 5));
  }
};
}
#endif
namespace trajopt_lemmas
{
using Changings = std::vector<std::shared_ptr<Changing>>;
inline bool proper(const Changings& p)
{
  bool r = true;
  for (std::size_t i = 0; i < p.size(); ++i)
    if (r && (p[i] == nullptr || p[i]->rows_ < 0 || p[i]->next_ < 0 || p[i]->nz_ < 0 || p[i]->updates_ != 0)) r = false;
  for (std::size_t i = 0; i < p.size(); ++i)
    for (std::size_t j = 0; j < i; ++j)
      if (r && p[i] == p[j]) r = false;
  return r;
}
LEMMA(L_update, const Changings& p, Index n, std::size_t i)
{
  REQUIRE(proper(p) && i < p.size() && n >= 0);
  CompositeDifferentiable c("all", n, Differentiable::Mode::kStackRows, true);
  for (std::size_t k = 0; k < p.size(); ++k) c.addComponent(p[k]);
  const int rows = c.update();
  int sum = 0;
  Index nz = 0;
  for (std::size_t k = 0; k < p.size(); ++k)
  {
    sum += p[k]->next_;
    nz += p[k]->nz_;
  }
  ENSURE_EQI("the number of rows is the sum of the new numbers", rows, sum);
  ENSURE_EQI("as reported", c.getRows(), sum);
  ENSURE_EQI("non-zeros", c.getNonZeros(), nz);
  ENSURE_EQI("every part is updated once", p[i]->updates_, 1);
}
LEMMA(L_clear, const Parts& p, Index n)
{
  REQUIRE(proper(p, n) && n >= 0);
  CompositeDifferentiable c("all", n, Differentiable::Mode::kStackRows, false);
  stack(c, p);
  c.clearComponents();
  ENSURE("empty", c.empty() && c.getRows() == 0 && c.getValues().size() == 0 && c.getBounds().empty());
}
/// a cost: one value, one derivative row
class AnyCost : public CostTerm
{
public:
  AnyCost(double c, VectorXd g) : CostTerm("cost"), c_(c), g_(std::move(g)) { non_zeros_ = 0; }
  int update() override
  {
    ++updates_;
    return rows_;
  }
  double getCost() const override { return c_; }
  VectorXd getCoefficients() const override { return VectorXd::Ones(1); }
  Jacobian getJacobian() const override
  {
    Jacobian j(1, g_.size());
    for (Index k = 0; k < g_.size(); ++k) j.coeffRef(0, k) = g_(k);
    return j;
  }
  double c_;
  VectorXd g_;
  int updates_{ 0 };
};
}
#ifndef VERIF_STATIC
namespace spec
{
template <> struct Gen<std::shared_ptr<trajopt_lemmas::AnyCost>>
{
  static std::shared_ptr<trajopt_lemmas::AnyCost> make(Rng& r)
  {
    trajopt_ifopt::Jacobian jac(1, width);
    for (int k = 0; k < width; ++k)
      if (r.i(0, 1) == 0) jac.coeffRef(0, k) = r.d();
    return std::make_shared<trajopt_lemmas::AnyCost>(r.d(), jac);
  }
};
}
#endif
namespace trajopt_lemmas
{
inline void fill(Problem& nlp, const Parts& p)
{
  for (std::size_t i = 0; i < p.size(); ++i) nlp.addConstraintSet(p[i]);
}
inline void fill(Problem& nlp, const VectorXd& c, const MatrixXd& j)
{
  for (Index i = 0; i < c.size(); ++i) nlp.addCostSet(std::make_shared<AnyCost>(c(i), j.row(i).transpose()));
}
LEMMA(L_problem_constraints, const VectorXd& x, const std::vector<Bounds>& xb, const Parts& p, std::size_t i, Index d, Index k)
{
  REQUIRE(proper(p, x.size()) && i < p.size() && 0 <= d && d < p[i]->rows_ && 0 <= k && k < x.size());
  Problem nlp(std::make_shared<AnyVars>(x, xb));
  fill(nlp, p);
  const VectorXd v = nlp.evaluateConstraints();
  ENSURE_EQI("number of values", v.size(), before(p, p.size()));
  ENSURE_EQ("values", v(before(p, i) + d), p[i]->v_(d));
  ENSURE_EQ("derivatives", nlp.getJacobianOfConstraints().coeff(before(p, i) + d, k), p[i]->j_.coeff(d, k));
}
LEMMA(L_problem_bounds, const VectorXd& x, const std::vector<Bounds>& xb, const Parts& p, std::size_t i, Index d)
{
  REQUIRE(proper(p, x.size()) && i < p.size() && 0 <= d && d < p[i]->rows_);
  Problem nlp(std::make_shared<AnyVars>(x, xb));
  fill(nlp, p);
  const std::vector<Bounds> b = nlp.getBoundsOnConstraints();
  ENSURE_EQI("number of bounds", nlp.getNumberOfConstraints(), before(p, p.size()));
  ENSURE("bounds", lo(b[U(before(p, i) + d)]) == lo(p[i]->b_[U(d)]) && hi(b[U(before(p, i) + d)]) == hi(p[i]->b_[U(d)]));
}
LEMMA(L_problem_no_cost, const VectorXd& x, const std::vector<Bounds>& xb, Index k)
{
  REQUIRE(0 <= k && k < x.size());
  Problem nlp(std::make_shared<AnyVars>(x, xb));
  ENSURE("no cost terms", !nlp.hasCostTerms());
  ENSURE_EQ("no cost", nlp.evaluateCostFunction(), 0.0);
  ENSURE_EQ("no gradient", nlp.evaluateCostFunctionGradient()(k), 0.0);
}
LEMMA(L_problem_cost, const VectorXd& x, const std::vector<Bounds>& xb, const VectorXd& c, const MatrixXd& j)
{
  REQUIRE(j.rows() == c.size() && j.cols() == x.size() && c.size() > 0);
  Problem nlp(std::make_shared<AnyVars>(x, xb));
  fill(nlp, c, j);
  ENSURE("cost terms", nlp.hasCostTerms());
  ENSURE_EQ("the cost is the sum of all terms", nlp.evaluateCostFunction(), c.sum());
}
LEMMA(L_problem_gradient, const VectorXd& x, const std::vector<Bounds>& xb, const VectorXd& c, const MatrixXd& j, Index k)
{
  REQUIRE(j.rows() == c.size() && j.cols() == x.size() && c.size() > 0 && 0 <= k && k < x.size());
  Problem nlp(std::make_shared<AnyVars>(x, xb));
  fill(nlp, c, j);
  const VectorXd g = nlp.evaluateCostFunctionGradient();
  ENSURE_EQI("size", g.size(), x.size());
  ENSURE_EQ("the gradient is the sum of all gradients", g(k), j.col(k).sum());
}
LEMMA(L_problem_cost_rows, const VectorXd& x, const std::vector<Bounds>& xb, const VectorXd& c, const MatrixXd& j, Index k, Index i)
{
  REQUIRE(j.rows() == c.size() && j.cols() == x.size() && c.size() > 0 && 0 <= k && k < x.size() && 0 <= i && i < c.size());
  Problem nlp(std::make_shared<AnyVars>(x, xb));
  fill(nlp, c, j);
  ENSURE_EQ("derivatives", nlp.getJacobianOfCosts().coeff(i, k), j(i, k));
}
inline bool constant(const Changings& p)
{
  bool r = true;
  for (std::size_t i = 0; i < p.size(); ++i)
    if (r && p[i]->next_ != p[i]->rows_) r = false;
  return r;
}
LEMMA(L_problem_set, const VectorXd& x, const std::vector<Bounds>& xb, const Changings& p, const VectorXd& y, std::size_t j, Index k)
{
  REQUIRE(proper(p) && constant(p) && j < p.size() && y.size() == x.size() && 0 <= k && k < x.size());
  auto vars = std::make_shared<AnyVars>(x, xb);
  Problem nlp(vars);
  for (std::size_t l = 0; l < p.size(); ++l) nlp.addConstraintSet(p[l]);
  nlp.setVariables(y.data());
  ENSURE_EQ("the whole vector is handed to the variables", vars->x_(k), y(k));
  ENSURE_EQ("as reported", nlp.getVariableValues()(k), y(k));
  ENSURE_EQI("as many variables", nlp.getNumberOfOptimizationVariables(), y.size());
  ENSURE_EQI("every constraint is updated", p[j]->updates_, 1);
}
LEMMA(L_problem_set_costs, const VectorXd& x, const std::vector<Bounds>& xb, const VectorXd& c, const MatrixXd& j, const VectorXd& y, Index k, Index i)
{
  REQUIRE(j.rows() == c.size() && j.cols() == x.size() && c.size() > 0 && y.size() == x.size() && 0 <= k && k < x.size() && 0 <= i && i < c.size());
  auto vars = std::make_shared<AnyVars>(x, xb);
  Problem nlp(vars);
  fill(nlp, c, j);
  nlp.setVariables(y.data());
  ENSURE_EQ("the whole vector is handed to the variables", vars->x_(k), y(k));
  ENSURE_EQI("every cost is updated", std::static_pointer_cast<AnyCost>(nlp.getCosts().getComponents()[U(i)])->updates_, 1);
}
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
