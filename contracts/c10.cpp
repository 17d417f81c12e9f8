// C10: joint position / velocity / acceleration / jerk terms
#include "ifopt_spec.h"
#include <trajopt_ifopt/variable_sets/var.h>
#include <trajopt_ifopt/constraints/joint_position_constraint.h>
#include <trajopt_ifopt/constraints/joint_velocity_constraint.h>
#include <trajopt_ifopt/constraints/joint_acceleration_constraint.h>
#include <trajopt_ifopt/constraints/joint_jerk_constraint.h>
#ifndef VERIF_STATIC
namespace spec
{
// a chain of variable segments laid out one after the other, sometimes with a gap
static int dof = 2, next_index = 0;
void begin_trial(Rng& r) { dof = r.i(1, 3); next_index = r.i(0, 2); r.n = dof; }
template <> struct Gen<std::shared_ptr<const trajopt_ifopt::Var>>
{
  static std::shared_ptr<const trajopt_ifopt::Var> make(Rng& r)
  {
    using namespace trajopt_ifopt;
    Eigen::VectorXd x(dof);
    for (int k = 0; k < dof; ++k) x(k) = r.d();
    auto v = std::make_shared<const Var>(next_index, "p", std::vector<std::string>(static_cast<std::size_t>(dof), "j"), x,
                                         std::vector<Bounds>(static_cast<std::size_t>(dof), NoBound));
    next_index += dof + (r.i(0, 3) == 0 ? r.i(0, 2) : 0);
    return v;
  }
};
template <> struct Gen<std::vector<std::shared_ptr<const trajopt_ifopt::Var>>>
{
  static std::vector<std::shared_ptr<const trajopt_ifopt::Var>> make(Rng& r)
  {
    std::vector<std::shared_ptr<const trajopt_ifopt::Var>> v;
    for (int n = r.i(0, 9); n > 0; --n) v.push_back(Gen<std::shared_ptr<const trajopt_ifopt::Var>>::make(r));
    return v;
  }
};
}  // namespace spec
#endif
namespace trajopt_lemmas
{
using VarPtr = std::shared_ptr<const Var>;
/// the optimisation variables: only their number matters to the joint terms
class Vars : public Variables
{
public:
  Vars(int n) : Variables("vars", n) {}
  void setVariables(const VectorXd&) override {}
  std::size_t getHash() const override { return 0; }
  VectorXd getValues() const override { return VectorXd::Zero(getRows()); }
  std::vector<Bounds> getBounds() const override { return {}; }
};
inline bool positive(const VectorXd& c)
{
  bool r = true;
  for (Index i = 0; i < c.size(); ++i)
    if (r && !(c(i) > 0)) r = false;
  return r;
}
inline bool sized(const std::vector<VarPtr>& q, Index n)
{
  bool r = true;
  for (std::size_t i = 0; i < q.size(); ++i)
    if (r && (q[i] == nullptr || q[i]->size() != n)) r = false;
  return r;
}
inline bool laid_out(const std::vector<VarPtr>& q, Index n, Index cols)
{
  bool r = true;
  for (std::size_t i = 0; i < q.size(); ++i)
    if (r && (q[i]->getIndex() < 0 || q[i]->getIndex() + n > cols)) r = false;
  for (std::size_t i = 0; i + 1 < q.size(); ++i)
    if (r && q[i]->getIndex() + n > q[i + 1]->getIndex()) r = false;
  return r;
}
inline double at(const VarPtr& q, Index d, Index c) { return c == q->getIndex() + d ? 1.0 : 0.0; }

LEMMA(L_pos_target, const VectorXd& t, const VarPtr& q, const VectorXd& c, Index i, int cols, int col)
{
  REQUIRE(t.size() > 0 && q != nullptr && q->size() == t.size() && positive(c) && (c.size() == 1 || c.size() == t.size()));
  REQUIRE(0 <= i && i < t.size() && 0 <= col && col < cols && q->getIndex() >= 0 && q->getIndex() + t.size() <= cols);
  JointPosConstraint f(t, q, c, "pos", RangeBoundHandling::kKeepAsIs);
  f.linkWithVariables(std::make_shared<Vars>(cols));
  ENSURE_EQI("one row per joint", f.getRows(), t.size());
  ENSURE_EQI("values: rows", f.getValues().size(), t.size());
  ENSURE_EQ("value is the joint position", f.getValues()(i), q->value()(i));
  ENSURE_EQI("bounds: rows", f.getBounds().size(), t.size());
  ENSURE("bound is the target", lo(f.getBounds()[U(i)]) == t(i) && hi(f.getBounds()[U(i)]) == t(i));
  ENSURE_EQI("coefficients: rows", f.getCoefficients().size(), t.size());
  ENSURE_EQ("coefficient", f.getCoefficients()(i), c.size() == 1 ? c(0) : c(i));
  const Jacobian j = f.getJacobian();
  ENSURE_EQI("jacobian: rows", j.rows(), t.size());
  ENSURE_EQI("jacobian: columns", j.cols(), cols);
  ENSURE_EQ("jacobian", j.coeff(i, col), at(q, i, col));
}
LEMMA(L_pos_bounds, const std::vector<Bounds>& b, const VarPtr& q, const VectorXd& c, Index i, int cols, int col)
{
  const Index n = static_cast<Index>(b.size());
  REQUIRE(n > 0 && q != nullptr && q->size() == n && positive(c) && (c.size() == 0 || c.size() == 1 || c.size() == n));
  REQUIRE(0 <= i && i < n && 0 <= col && col < cols && q->getIndex() >= 0 && q->getIndex() + n <= cols);
  JointPosConstraint f(b, q, c, "pos", RangeBoundHandling::kKeepAsIs);
  f.linkWithVariables(std::make_shared<Vars>(cols));
  ENSURE_EQI("one row per joint", f.getRows(), n);
  ENSURE_EQI("values: rows", f.getValues().size(), n);
  ENSURE_EQ("value is the joint position", f.getValues()(i), q->value()(i));
  ENSURE_EQI("bounds: rows", f.getBounds().size(), n);
  ENSURE("bound", lo(f.getBounds()[U(i)]) == lo(b[U(i)]) && hi(f.getBounds()[U(i)]) == hi(b[U(i)]));
  ENSURE_EQI("coefficients: rows", f.getCoefficients().size(), n);
  ENSURE_EQ("coefficient", f.getCoefficients()(i), c.size() == 0 ? 1.0 : c.size() == 1 ? c(0) : c(i));
  const Jacobian j = f.getJacobian();
  ENSURE_EQI("jacobian: rows", j.rows(), n);
  ENSURE_EQI("jacobian: columns", j.cols(), cols);
  ENSURE_EQ("jacobian", j.coeff(i, col), at(q, i, col));
}
inline double viol(const Bounds& b, double v) { return v < lo(b) ? lo(b) - v : v > hi(b) ? v - hi(b) : 0.0; }
inline bool finite(const VectorXd& x)
{
  bool r = true;
  for (Index i = 0; i < x.size(); ++i)
    if (r && !(x(i) < static_cast<double>(INFINITY) && x(i) > -static_cast<double>(INFINITY))) r = false;
  return r;
}
/// splitting every range into two inequalities keeps the weighted violation
LEMMA(L_pos_split, const std::vector<Bounds>& b, const VarPtr& q, const VectorXd& c)
{
  const Index n = static_cast<Index>(b.size());
  REQUIRE(n > 0 && q != nullptr && q->size() == n && positive(c) && (c.size() == 0 || c.size() == 1 || c.size() == n) && ordered(b) && finite(q->value()));
  JointPosConstraint f(b, q, c, "pos", RangeBoundHandling::kSplitToTwoInequalities);
  const VectorXd v = f.getValues(), w = f.getCoefficients();
  const std::vector<Bounds> s = f.getBounds();
  ENSURE_EQI("values: rows", v.size(), f.getRows());
  ENSURE_EQI("coefficients: rows", w.size(), f.getRows());
  ENSURE_EQI("bounds: rows", s.size(), f.getRows());
  double got = 0, want = 0;
  for (std::size_t k = 0; k < s.size(); ++k) got += w(static_cast<Index>(k)) * viol(s[k], v(static_cast<Index>(k)));
  for (std::size_t k = 0; k < b.size(); ++k)
  {
    const Index i = static_cast<Index>(k);
    want += (c.size() == 0 ? 1.0 : c.size() == 1 ? c(0) : c(i)) * viol(b[k], q->value()(i));
  }
  ENSURE_EQ("weighted violation", got, want);
}
LEMMA(L_vel, const VectorXd& t, const std::vector<VarPtr>& q, const VectorXd& c, Index k, Index d, int cols, int col)
{
  const Index n = t.size(), m = static_cast<Index>(q.size());
  REQUIRE(n > 0 && m >= 2 && sized(q, n) && laid_out(q, n, cols) && positive(c) && (c.size() == 0 || c.size() == 1 || c.size() == n));
  REQUIRE(0 <= k && k < m - 1 && 0 <= d && d < n && 0 <= col && col < cols);
  JointVelConstraint f(t, q, c, "vel");
  f.linkWithVariables(std::make_shared<Vars>(cols));
  const Index row = k * n + d;
  ENSURE_EQI("rows", f.getRows(), n * (m - 1));
  ENSURE_EQI("values: rows", f.getValues().size(), n * (m - 1));
  ENSURE_EQ("velocity", f.getValues()(row), q[U(k + 1)]->value()(d) - q[U(k)]->value()(d));
  ENSURE_EQI("bounds: rows", f.getBounds().size(), n * (m - 1));
  ENSURE("bound is the target", lo(f.getBounds()[U(row)]) == t(d) && hi(f.getBounds()[U(row)]) == t(d));
  ENSURE_EQI("coefficients: rows", f.getCoefficients().size(), n * (m - 1));
  ENSURE_EQ("coefficient", f.getCoefficients()(row), c.size() == 0 ? 5.0 : c.size() == 1 ? c(0) : c(d));
  const Jacobian j = f.getJacobian();
  ENSURE_EQI("jacobian: rows", j.rows(), n * (m - 1));
  ENSURE_EQI("jacobian: columns", j.cols(), cols);
  ENSURE_EQ("jacobian", j.coeff(row, col), at(q[U(k + 1)], d, col) - at(q[U(k)], d, col));
}
LEMMA(L_acc, const VectorXd& t, const std::vector<VarPtr>& q, const VectorXd& c, Index k, Index d, int cols, int col)
{
  const Index n = t.size(), m = static_cast<Index>(q.size());
  REQUIRE(n > 0 && m >= 4 && sized(q, n) && laid_out(q, n, cols) && positive(c) && (c.size() == 0 || c.size() == 1 || c.size() == n));
  REQUIRE(0 <= k && k < m && 0 <= d && d < n && 0 <= col && col < cols);
  JointAccelConstraint f(t, q, c, "acc");
  f.linkWithVariables(std::make_shared<Vars>(cols));
  const Index row = k * n + d;
  const std::size_t o = U(k < m - 2 ? k : k - 2);          // first point of the difference: forward, then backward
  ENSURE_EQI("rows", f.getRows(), n * m);
  ENSURE_EQI("values: rows", f.getValues().size(), n * m);
  ENSURE_EQ("acceleration", f.getValues()(row), q[o]->value()(d) - 2 * q[o + 1]->value()(d) + q[o + 2]->value()(d));
  ENSURE_EQI("bounds: rows", f.getBounds().size(), n * m);
  ENSURE("bound is the target", lo(f.getBounds()[U(row)]) == t(d) && hi(f.getBounds()[U(row)]) == t(d));
  ENSURE_EQI("coefficients: rows", f.getCoefficients().size(), n * m);
  ENSURE_EQ("coefficient", f.getCoefficients()(row), c.size() == 0 ? 1.0 : c.size() == 1 ? c(0) : c(d));
  const Jacobian j = f.getJacobian();
  ENSURE_EQI("jacobian: rows", j.rows(), n * m);
  ENSURE_EQI("jacobian: columns", j.cols(), cols);
  ENSURE_EQ("jacobian", j.coeff(row, col), at(q[o], d, col) - 2 * at(q[o + 1], d, col) + at(q[o + 2], d, col));
}
LEMMA(L_jerk, const VectorXd& t, const std::vector<VarPtr>& q, const VectorXd& c, Index k, Index d, int cols, int col)
{
  const Index n = t.size(), m = static_cast<Index>(q.size());
  REQUIRE(n > 0 && m >= 6 && sized(q, n) && laid_out(q, n, cols) && positive(c) && (c.size() == 0 || c.size() == 1 || c.size() == n));
  REQUIRE(0 <= k && k < m && 0 <= d && d < n && 0 <= col && col < cols);
  JointJerkConstraint f(t, q, c, "jerk");
  f.linkWithVariables(std::make_shared<Vars>(cols));
  const Index row = k * n + d;
  const std::size_t o = U(k < m - 3 ? k : k - 3);
  ENSURE_EQI("rows", f.getRows(), n * m);
  ENSURE_EQI("values: rows", f.getValues().size(), n * m);
  ENSURE_EQ("jerk", f.getValues()(row),
            q[o + 3]->value()(d) - 3 * q[o + 2]->value()(d) + 3 * q[o + 1]->value()(d) - q[o]->value()(d));
  ENSURE_EQI("bounds: rows", f.getBounds().size(), n * m);
  ENSURE("bound is the target", lo(f.getBounds()[U(row)]) == t(d) && hi(f.getBounds()[U(row)]) == t(d));
  ENSURE_EQI("coefficients: rows", f.getCoefficients().size(), n * m);
  ENSURE_EQ("coefficient", f.getCoefficients()(row), c.size() == 0 ? 1.0 : c.size() == 1 ? c(0) : c(d));
  const Jacobian j = f.getJacobian();
  ENSURE_EQI("jacobian: rows", j.rows(), n * m);
  ENSURE_EQI("jacobian: columns", j.cols(), cols);
  ENSURE_EQ("jacobian", j.coeff(row, col),
            at(q[o + 3], d, col) - 3 * at(q[o + 2], d, col) + 3 * at(q[o + 1], d, col) - at(q[o], d, col));
}
#ifndef VERIF_STATIC
/// executions: the differences and their whole Jacobian on one chain of positions
template <class T> void differences(const VectorXd& t, const std::vector<VarPtr>& q, const VectorXd& c, const std::vector<double>& w, double weight)
{
  const Index n = t.size(), m = static_cast<Index>(q.size()), cols = q.back()->getIndex() + n + 1, span = static_cast<Index>(w.size()) - 1;
  T f(t, q, c, "term");
  f.linkWithVariables(std::make_shared<Vars>(static_cast<int>(cols)));
  f.update();
  const VectorXd v = f.getValues();
  const Eigen::MatrixXd j = f.getJacobian();
  Eigen::MatrixXd want = Eigen::MatrixXd::Zero(f.getRows(), cols);
  ENSURE("sizes", v.size() == f.getRows() && j.rows() == f.getRows() && j.cols() == cols && f.getCoefficients().size() == f.getRows() && static_cast<Index>(f.getBounds().size()) == f.getRows());
  for (Index k = 0; k < f.getRows() / n; ++k)
    for (Index d = 0; d < n; ++d)
    {
      const Index o = k + span < m ? k : k - span;
      double s = 0;
      for (Index i = 0; i <= span; ++i)
      {
        s += w[U(i)] * q[U(o + i)]->value()(d);
        want(k * n + d, q[U(o + i)]->getIndex() + d) += w[U(i)];
      }
      ENSURE_EQ("difference", v(k * n + d), s);
      ENSURE("target", lo(f.getBounds()[U(k * n + d)]) == t(d) && hi(f.getBounds()[U(k * n + d)]) == t(d));
      ENSURE_EQ("weight", f.getCoefficients()(k * n + d), c.size() == 0 ? weight : c.size() == 1 ? c(0) : c(d));
    }
  ENSURE("whole jacobian", (j - want).norm() == 0);
}
LEMMA(B_whole, const VectorXd& t, const std::vector<VarPtr>& q, const VectorXd& c0)
{
  REQUIRE(t.size() > 0 && sized(q, t.size()) && !q.empty() && (c0.size() == 0 || c0.size() == 1 || c0.size() == t.size()));
  VectorXd c = c0;
  for (Index i = 0; i < c.size(); ++i) c(i) = std::fabs(c(i)) + 0.25;
  if (q.size() >= 2) differences<JointVelConstraint>(t, q, c, { -1, 1 }, 5.0);
  if (q.size() >= 4) differences<JointAccelConstraint>(t, q, c, { 1, -2, 1 }, 1.0);
  if (q.size() >= 6) differences<JointJerkConstraint>(t, q, c, { -1, 3, -3, 1 }, 1.0);
}
#endif
/// non-positive weights, wrong sizes and too few variables are refused
LEMMA(L_refuse, const VectorXd& t, const std::vector<VarPtr>& q, const VectorXd& c, int kind)
{
  const Index n = t.size(), m = static_cast<Index>(q.size());
  REQUIRE(n > 0 && m >= 1 && sized(q, n));
  const bool bad = !positive(c) || (c.size() != 0 && c.size() != 1 && c.size() != n);
  bool thrown = false;
  try
  {
    if (kind == 0) JointVelConstraint(t, q, c, "vel");
    else if (kind == 1) JointAccelConstraint(t, q, c, "acc");
    else if (kind == 2) JointJerkConstraint(t, q, c, "jerk");
    else JointPosConstraint(t, q[0], c, "pos", RangeBoundHandling::kKeepAsIs);
  }
  catch (const std::exception&)
  {
    thrown = true;
  }
  const bool few = kind == 0 ? m < 2 : kind == 1 ? m < 4 : kind == 2 ? m < 6 : c.size() == 0;
  ENSURE("refused exactly when invalid", thrown == (bad || few));
}
}  // namespace trajopt_lemmas
#ifndef VERIF_STATIC
#include "replay_main.inc"
#endif
