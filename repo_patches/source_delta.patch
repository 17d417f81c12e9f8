From b960c0e5f072a82ea2d12725cd4498fadd0ec62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:22 +0000
Subject: [PATCH 01/16] fix: JointPosConstraint reads the expanded coefficients
 when splitting range bounds

With zero or one coefficient given, kSplitToTwoInequalities indexed the argument instead of the
expanded vector and read past its end.
---
 trajopt_ifopt/src/constraints/joint_position_constraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
index af72551..3f120fe 100644
--- a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
@@ -126,14 +126,14 @@ JointPosConstraint::JointPosConstraint(const std::vector<Bounds>& bounds,
         bounds_.emplace_back(-double(INFINITY), b.getUpper());
         split_indices.push_back(indices_[i]);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
       else
       {
         bounds_.push_back(b);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
     }
 
-- 
2.43.0


From 34c92bcbff47eb9245230735aaa543228c3ba9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 02/16] fix: QuadExprs::create keeps the linear part of rows
 without second derivatives

---
 trajopt_optimizers/trajopt_sqp/src/expressions.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
index bb59d1b..c9f9e23 100644
--- a/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/expressions.cpp
@@ -181,8 +181,7 @@ void QuadExprs::create(const Eigen::Ref<const Eigen::VectorXd>& func_errors,
   assert(static_cast<Eigen::Index>(func_hessians.size()) == m);
   assert(x.size() == n);
 
-  linear_coeffs.resize(m, n);
-  linear_coeffs.setZero();  // keep existing behavior: rows with no Hessian stay zero
+  linear_coeffs = func_jacobian;  // rows with no Hessian keep the first-order model
 
   // constants = f(x₀) − J(x₀) x₀
   constants.resize(m);
-- 
2.43.0


From 1b1b7776d03a4f10f20f629a0979b412b6d81973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:48 +0000
Subject: [PATCH 03/16] fix: keep the closest feasible point inside the
 variable limits

The second clamp restarted from x and threw the lower limit away; variables
with a range narrower than twice delta were moved outside their limits.
---
 trajopt_sco/src/modeling.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 5185c9f..3c9acec 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -263,9 +263,10 @@ DblVec OptProb::getClosestFeasiblePoint(const DblVec& x, const double& delta)
   DblVec y(x.size());
   for (std::size_t i = 0; i < x.size(); i++)
   {
-    // Force it a tiny bit inside the bounds
-    y[i] = fmax(lower_bounds_[i] + delta, x[i]);
-    y[i] = fmin(upper_bounds_[i] - delta, x[i]);
+    // Force it a tiny bit inside the bounds, by no more than half their distance
+    const double inset = fmin(delta, (upper_bounds_[i] - lower_bounds_[i]) / 2);
+    y[i] = fmax(lower_bounds_[i] + inset, x[i]);
+    y[i] = fmin(upper_bounds_[i] - inset, y[i]);
   }
   return y;
 }
-- 
2.43.0


From 9cbf7d827a8c831c4cc1b4fb0b76fea77d14d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 04/16] fix: constraints without rows keep the merit
 coefficients of the others aligned

---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 8d88f0b..21dab0b 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -746,7 +746,12 @@ void TrajOptQPProblem::Implementation::convexify()
     const auto& info = cvp.constraint_term_infos[i].get();
     const auto& cnt = constraint_terms[i];
     if (info.rows == 0)
+    {
+      // Every merit constraint has a coefficient, even if it currently has no rows
+      if (info.type == ComponentInfoType::kMeritConstraint)
+        ++merit_constraint_index;
       continue;
+    }
 
     // Linearize Constraints
     const trajopt_ifopt::Jacobian jac = cnt->getJacobian();
-- 
2.43.0


From 70204f1a7d566f3472a15d85a7d6441d030f2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 05/16] fix: exact squared costs of IfoptQPProblem use the
 coefficients its QP model uses

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 9adb993..b63fafc 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -62,7 +62,9 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
   {
     case CostPenaltyType::kSquared:
     {
-      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set);
+      // Weigh the exact cost like the QP model of it
+      auto cost =
+          std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
-- 
2.43.0


From 04f16f749b18cf6e03dd49d76180494751f86478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 06/16] fix: TrustRegionSQPSolver::solve ends the run when a
 callback asks for it

---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index eeccd77..16ba966 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -121,8 +121,16 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
 
       if (stepSQPSolver())
         break;
+
+      // Respect callbacks and exit gracefully
+      if (status_ == SQPStatus::kStoppedByCallback)
+        break;
     }
 
+    // If stopped by a callback we need to exit penalty iteration loop
+    if (status_ == SQPStatus::kStoppedByCallback)
+      break;
+
     // Check if constraints are satisfied
     if (verifySQPSolverConvergence())
     {
-- 
2.43.0


From 8decd88b654d5986f301123c901bcad04a333f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 07/16] fix: solver names are listed in the order of the solver
 values

---
 trajopt_sco/src/solver_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index be35ea8..a936f5e 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -11,7 +11,7 @@ TRAJOPT_IGNORE_WARNINGS_POP
 
 namespace sco
 {
-const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "BPMPD", "OSQP", "QPOASES", "AUTO_SOLVER" };
+const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "OSQP", "QPOASES", "BPMPD", "AUTO_SOLVER" };
 
 void vars2inds(const VarVector& vars, SizeTVec& inds)
 {
-- 
2.43.0


From 03ccc6156131c31fe25e4982af404decc3f39604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 08/16] fix: printing a solver value without a name is rejected
 instead of reading past the names

---
 trajopt_sco/src/solver_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index a936f5e..36f1c16 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -214,7 +214,7 @@ std::ostream& operator<<(std::ostream& o, const QuadExpr& e)
 std::ostream& operator<<(std::ostream& os, const ModelType& cs)
 {
   auto cs_ivalue_ = static_cast<std::size_t>(cs.value_);
-  if (cs_ivalue_ > ModelType::MODEL_NAMES_.size())
+  if (cs_ivalue_ >= ModelType::MODEL_NAMES_.size())
   {
     std::stringstream conversion_error;
     conversion_error << "Error converting ModelType to string - " << "enum value is " << cs_ivalue_ << '\n';
-- 
2.43.0


From e9f93c3218828b072478dcb72df3fa0b96bd3fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 09/16] fix: Problem adds up all cost terms and their gradients

---
 trajopt_ifopt/src/core/problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/src/core/problem.cpp b/trajopt_ifopt/src/core/problem.cpp
index d73ae7c..f90f77a 100644
--- a/trajopt_ifopt/src/core/problem.cpp
+++ b/trajopt_ifopt/src/core/problem.cpp
@@ -72,7 +72,7 @@ double Problem::evaluateCostFunction()
   if (hasCostTerms())
     g = costs_.getValues();
 
-  return g(0);
+  return g.sum();
 }
 
 Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference_approximation, double epsilon)
@@ -105,7 +105,7 @@ Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference
     }
   }
 
-  return jac.row(0).transpose();
+  return jac.transpose() * Eigen::VectorXd::Ones(jac.rows());
 }
 
 std::vector<Bounds> Problem::getBoundsOnConstraints() const { return constraints_.getBounds(); }
-- 
2.43.0


From b6ae36217be752f2c3be54fade709ad426900336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 10/16] fix: ConvexObjective::addMax keeps its variable and
 adds it to the objective

---
 trajopt_sco/src/modeling.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 3c9acec..403827f 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -75,6 +75,8 @@ void ConvexObjective::addL2Norm(const AffExprVector& ev)
 void ConvexObjective::addMax(const AffExprVector& ev)
 {
   Var const m = model_->addVar("max", static_cast<double>(-INFINITY), static_cast<double>(INFINITY));
+  vars_.push_back(m);
+  exprInc(quad_, m);
   ineqs_.reserve(ineqs_.size() + ev.size());
   for (const auto& i : ev)
   {
-- 
2.43.0


From 328071e3d9ca1c3ee781aed3164829b1efdea310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 11/16] fix: BasicArray::middleRows writes the selected rows
 from the top of the result

---
 trajopt_common/include/trajopt_common/basic_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_common/include/trajopt_common/basic_array.hpp b/trajopt_common/include/trajopt_common/basic_array.hpp
index d2995bd..98d3e40 100644
--- a/trajopt_common/include/trajopt_common/basic_array.hpp
+++ b/trajopt_common/include/trajopt_common/basic_array.hpp
@@ -71,7 +71,7 @@ struct BasicArray
     {
       for (int j = 0; j < m_nCol; ++j)
       {
-        out(i, j) = at(i, j);
+        out(i - start, j) = at(i, j);
       }
     }
     return out;
-- 
2.43.0


From 80f3024944589c89ff2b8720d61747542a413dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 12/16] fix: a linear objective replaces the quadratic terms of
 the previous one

---
 trajopt_sco/src/bpmpd_interface.cpp   | 2 +-
 trajopt_sco/src/osqp_interface.cpp    | 2 +-
 trajopt_sco/src/qpoases_interface.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index b6e522a..68e2e32 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -540,7 +540,7 @@ CvxOptStatus BPMPDModel::optimize()
 
   // exit(0);
 }
-void BPMPDModel::setObjective(const AffExpr& expr) { m_objective.affexpr = expr; }
+void BPMPDModel::setObjective(const AffExpr& expr) { m_objective = QuadExpr(expr); }
 void BPMPDModel::setObjective(const QuadExpr& expr) { m_objective = expr; }
 void BPMPDModel::writeToFile(const std::string& /*fname*/) const
 {
diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index c64b205..6fdb369 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -613,7 +613,7 @@ CvxOptStatus OSQPModel::optimize()
 
   return CVX_FAILED;
 }
-void OSQPModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void OSQPModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void OSQPModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 
 VarVector OSQPModel::getVars() const { return vars_; }
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 1886201..66b9d80 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -259,7 +259,7 @@ CvxOptStatus qpOASESModel::optimize()
 
   return CVX_FAILED;
 }
-void qpOASESModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void qpOASESModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void qpOASESModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 void qpOASESModel::writeToFile(const std::string& /*fname*/) const {}
 VarVector qpOASESModel::getVars() const { return vars_; }
-- 
2.43.0


From 4c8e9eed4b3167d4033490fe229a0b1f8b2c1d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 13/16] fix: BPMPD messages are read and written completely,
 whatever the pipe's buffer size

---
 trajopt_sco/include/trajopt_sco/bpmpd_io.hpp | 52 +++++++++++++++-----
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
index 7ab80ec..e81da3c 100644
--- a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
+++ b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
@@ -2,9 +2,11 @@
 #include <trajopt_common/macros.h>
 TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <vector>
-#include <cassert>
+#include <cerrno>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <stdexcept>
 #include <unistd.h>
 TRAJOPT_IGNORE_WARNINGS_POP
 
@@ -16,6 +18,38 @@ enum SerMode : std::uint8_t
   SER
 };
 
+/** @brief Write all bytes; the operating system may accept them in several pieces */
+inline void writeAll(int fp, const void* data, std::size_t size)
+{
+  const char* pos = static_cast<const char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = write(fp, pos, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      throw std::runtime_error("bpmpd_io: failed to write to the pipe");
+    pos += n;
+    size -= static_cast<std::size_t>(n);
+  }
+}
+
+/** @brief Read all bytes; a pipe delivers at most what it currently holds */
+inline void readAll(int fp, void* data, std::size_t size)
+{
+  char* pos = static_cast<char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = read(fp, pos, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      throw std::runtime_error("bpmpd_io: the pipe ended before the message was complete");
+    pos += n;
+    size -= static_cast<std::size_t>(n);
+  }
+}
+
 template <typename T>
 void ser(int fp, T& x, SerMode mode)
 {
@@ -24,16 +58,12 @@ void ser(int fp, T& x, SerMode mode)
     case SER:
     {
       T xcopy = x;
-      const ssize_t n = write(fp, &xcopy, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      writeAll(fp, &xcopy, sizeof(T));
       break;
     }
     case DESER:
     {
-      const ssize_t n = read(fp, &x, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      readAll(fp, &x, sizeof(T));
       break;
     }
   }
@@ -48,17 +78,13 @@ void ser(int fp, std::vector<T>& x, SerMode mode)
   {
     case SER:
     {
-      const long n = write(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      writeAll(fp, x.data(), sizeof(T) * size);
       break;
     }
     case DESER:
     {
       x.resize(size);
-      const long n = read(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      readAll(fp, x.data(), sizeof(T) * size);
       break;
     }
   }
-- 
2.43.0


From 591eef6ada9be5b2b08579a8b6d5add0528c8eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:46 +0000
Subject: [PATCH 14/16] fix: reading a list from a JSON value that is no list
 raises an error

---
 trajopt/include/trajopt/json_marshal.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trajopt/include/trajopt/json_marshal.hpp b/trajopt/include/trajopt/json_marshal.hpp
index cb78227..5bec988 100644
--- a/trajopt/include/trajopt/json_marshal.hpp
+++ b/trajopt/include/trajopt/json_marshal.hpp
@@ -30,6 +30,10 @@ inline void fromJson(const Json::Value& v, T& ref)
 template <class T>
 void fromJsonArray(const Json::Value& parent, std::vector<T>& ref)
 {
+  if (!parent.isArray() && !parent.isNull())
+  {
+    PRINT_AND_THROW(boost::format("expected: list, got %s\n") % parent);
+  }
   ref.clear();
   ref.reserve(parent.size());
   for (const auto& it : parent)
-- 
2.43.0


From d15575828aedac9c085f310433513e86665cee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:22 +0000
Subject: [PATCH 15/16] fix: evaluate squared costs as zero when none of them
 currently has rows

evaluateConvexCosts() multiplied a stale (or never built) model with the
variables when every squared cost is dynamic and has no rows.
---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 21dab0b..a88b479 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -145,7 +145,12 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
   Eigen::Index row_offset{ 0 };
 
   // Squared costs (already convexified into squared_objective_nlp_)
-  if (!objective_term_infos.empty())
+  if (n_objective_terms == 0)
+  {
+    // No squared cost currently has any rows, so there is no model to evaluate and they are all zero
+    cost_idx += static_cast<Eigen::Index>(objective_term_infos.size());
+  }
+  else
   {
     // reuse scratch_val (ensure big enough once)
     if (scratch_val.size() < n_objective_terms)
-- 
2.43.0


From 96df72448f8fb8b83c7b073b9e82f4d18dbda58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:23 +0000
Subject: [PATCH 16/16] fix: TrajOptQPProblem::setup() can be called again

The per-component information was cleared but, already being initialised,
update() did not fill it in again for static components, so all their
rows vanished from the QP.
---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index a88b479..3829abf 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -572,6 +572,9 @@ void TrajOptQPProblem::Implementation::update()
 
 void TrajOptQPProblem::Implementation::setup()
 {
+  // The component information is rebuilt below, so update() must not skip the static components
+  initialized = false;
+
   objective_terms.clear();
   objective_terms.insert(objective_terms.end(), squared_costs.begin(), squared_costs.end());
   objective_terms.insert(objective_terms.end(), dyn_squared_costs.begin(), dyn_squared_costs.end());
-- 
2.43.0

