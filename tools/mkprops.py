#!/usr/bin/env python3
"""Regenerates properties.jsonl (single place where the property texts live)."""
import json,os
S='trajopt_sco/';I='trajopt_ifopt/';C='trajopt_common/';Q='trajopt_optimizers/trajopt_sqp/'
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),obs=()):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[dict(name=a,meaning=b,where=c) for a,b,c in state],
                 "mechanism":[dict(name=a,where=b) for a,b in mech],"observe_at":list(obs),"hook_needed":None}})
p("C01","Expression algebra preserves the value of the expressions",
 "Adding, subtracting, scaling, multiplying or squaring affine and quadratic expressions gives an expression whose value at every variable assignment equals the same arithmetic on the operands' values. Repeated variables, zero coefficients and empty expressions are allowed, operands passed by constant reference are unchanged, and evaluating an expression returns its constant plus the sum of all its terms. Cleaning an affine expression removes only terms whose coefficient is at most 1e-7 in magnitude and keeps everything else.",
 ["inputs"],"every pair of well-formed expressions (any number of terms, any coefficients, repeated variables) and every assignment",
 "The unit tests multiply a handful of two- and three-term expressions; the statement quantifies over all expressions and all assignments.",
 [S+"include/trajopt_sco/expr_ops.hpp",S+"src/expr_ops.cpp",S+"include/trajopt_sco/expr_op_overloads.hpp",S+"src/expr_vec_ops.cpp",S+"src/solver_interface.cpp"],
 [("in-place scale/add/subtract and the functional forms built on them",S+"include/trajopt_sco/expr_ops.hpp"),("product, square and clean-up",S+"src/expr_ops.cpp"),("evaluation",S+"src/solver_interface.cpp")],
 [("coefficients, variables, constant","parallel sequences; the value is constant plus sum of coefficient times variable",S+"include/trajopt_sco/solver_interface.hpp")],["value of the returned expression"])
p("C02","Expressions handed to a solver as matrices mean the same function",
 "Converting an affine expression, a list of affine expressions or a quadratic expression to sparse matrix form gives matrices that evaluate to the same function at every point, with repeated variables and repeated pairs accumulated, the quadratic matrix symmetric, and an error raised when a variable index does not fit the requested size. Converting sparse matrices to and from index/value lists or compressed-column arrays keeps every entry, and merging duplicate indices keeps the total per index.",
 ["inputs"],"every expression, every variable numbering and every requested size; every sparse matrix",
 "Tests convert a few fixed 2-4 variable expressions; duplicates, orderings and out-of-range indices range over all inputs.",
 [S+"src/solver_utils.cpp",S+"include/trajopt_sco/solver_utils.hpp",S+"src/solver_interface.cpp"],
 [("expression to sparse vector/matrix",S+"src/solver_utils.cpp"),("matrix to compressed columns",S+"include/trajopt_sco/solver_utils.hpp"),("duplicate merging",S+"src/solver_interface.cpp")],
 (),["matrices and vectors passed to the QP solver"])
p("C03","Hinge, absolute-value and norm penalties are modelled exactly",
 "Adding a hinge, absolute-value, L1, L2 or max penalty to a convex objective adds auxiliary variables, rows and cost terms whose best achievable cost at every assignment of the original variables equals the penalty itself. Constraint violations are reported as the absolute value of each equality expression and the positive part of each inequality expression. Removing the objective or the constraints from the solver model takes back exactly the variables and rows it added.",
 ["inputs","histories"],"every affine expression, every non-negative coefficient, every assignment; every add/remove sequence",
 "No unit test in the offline suite evaluates a penalty model at more than a fixed point; the statement is about all expressions and assignments.",
 [S+"src/modeling.cpp",S+"include/trajopt_sco/sco_common.hpp"],
 [("epigraph construction of penalties",S+"src/modeling.cpp"),("violation of linear rows",S+"src/modeling.cpp")],(),["variables, rows and objective of the solver model"])
p("C04","Local models agree with the function they approximate",
 "The linear or quadratic model built for a cost or constraint from its value and gradient agrees, at the point it was built, with the function's value and (up to coefficients of at most 1e-7) its gradient. Penalty and per-row coefficients are applied identically in the exact value and in the model, for squared, absolute and hinge penalties and for equality and inequality constraints.",
 ["inputs"],"every error function, gradient, coefficient vector (non-negative) and expansion point",
 "Tests exercise fixed functions at fixed points.",
 [S+"src/modeling_utils.cpp",S+"src/modeling.cpp"],
 [("affine model from value and gradient",S+"src/modeling_utils.cpp"),("exact value of function based costs/constraints",S+"src/modeling_utils.cpp")],(),["convexified objectives and constraints"])
p("C05","Trust-region subproblems never leave the variable limits",
 "In every trust-region subproblem the interval allowed for each variable lies inside that variable's limits, is never empty, and equals the box around the current value (moved into the limits first) cut by the limits. Resizing the box, moving the iterate or rebuilding the subproblem keeps this true, and moving a point to the closest feasible one keeps it inside the limits.",
 ["inputs","histories"],"every iterate (inside or outside the limits), every pair of ordered limits including infinite ones, every box size",
 "One offline-excluded test checks a single case; the statement is over all iterates, limits and box sizes.",
 [S+"src/optimizers.cpp",S+"src/modeling.cpp",Q+"src/trajopt_qp_problem.cpp",Q+"src/ifopt_qp_problem.cpp"],
 [("box clamping",S+"src/optimizers.cpp"),("box clamping",Q+"src/trajopt_qp_problem.cpp"),("box clamping",Q+"src/ifopt_qp_problem.cpp"),("feasible point",S+"src/modeling.cpp")],(),["bounds given to the QP solver"])
p("C06","The optimizer keeps only improving steps and its best result is consistent",
 "Within one setting of the penalty weights the merit of the best point never increases: a step is kept only if its exact merit does not get worse and its improvement ratio reaches the configured threshold. The best point, its costs, its constraint violations and its merit always describe the same point, the trust region grows only after a kept step and shrinks only after a rejected or failed one, and at the end the problem's variables are set to the best point.",
 ["histories","fault_sequences"],"every sequence of subproblem solutions, solver failures and cost/constraint values",
 "Whole-solver tests cannot be built offline and each follows one trajectory; the statement is about all histories.",
 [Q+"src/trust_region_sqp_solver.cpp",S+"src/optimizers.cpp"],
 [("accept/reject decision and trust-region update",Q+"src/trust_region_sqp_solver.cpp"),("merit bookkeeping",Q+"src/trust_region_sqp_solver.cpp")],(),["results and variables after each step and at the end"])
p("C07","Termination status and penalty updates are truthful",
 "The optimizer reports convergence only when there are no constraints or every constraint violation is below the tolerance. When it retries, penalty weights grow by the configured factor exactly for the violated constraints (or for all of them when individual inflation is off), never shrink, and the merit of the best point is recomputed with the new weights. A request by a callback to stop ends the optimization with that status.",
 ["histories","fault_sequences"],"every sequence of violations, solver results, callbacks and parameter settings",
 "Tests check the final status of a few convergent problems only.",
 [Q+"src/trust_region_sqp_solver.cpp"],
 [("convergence check",Q+"src/trust_region_sqp_solver.cpp"),("penalty inflation",Q+"src/trust_region_sqp_solver.cpp")],(),["status, penalty weights, merit"])
p("C08","The cache returns what was stored and evicts the least recently used",
 "After any sequence of operations the cache returns for a key exactly the value last stored for it unless it was evicted or erased, never hands the same pooled object to two keys, and never evicts anything while an unassigned slot exists. When it must evict, it evicts the least recently used entry that is not handed out for writing.",
 ["histories"],"every sequence of get / get-or-acquire / put / erase / grow operations with any keys and capacity",
 "Thirteen tests replay short fixed sequences; the guarantees are about every history.",
 [C+"include/trajopt_common/cache.h"],
 [("slot bookkeeping and LRU order",C+"include/trajopt_common/cache.h")],(),["objects returned by the cache"])
p("C09","Bounds, violations and feasible points",
 "A bound is classified by which of its two limits are finite, and shifting a bound shifts both limits. For every value and bound the signed error is zero inside the bound and otherwise the distance to the violated limit with its sign, the violation is its absolute value, and the closest valid point leaves values inside their limits unchanged and moves the others onto the nearest limit. Interpolating between two states gives evenly spaced states that start at the first and end at the last.",
 ["inputs"],"every value vector and bound vector of equal length, every number of steps",
 "Tests sample a few fixed vectors.",
 [I+"src/core/bounds.cpp",I+"src/utils/ifopt_utils.cpp"],
 [("bound classification",I+"src/core/bounds.cpp"),("errors and violations",I+"src/utils/ifopt_utils.cpp")],(),["returned vectors"])
p("C10","Joint position, velocity, acceleration and jerk terms are consistent",
 "For any number of waypoints and joints the joint terms report the joint positions, or their first, second or third finite differences along the trajectory, in waypoint-major order. Their derivative matrices are the exact derivatives of those values with respect to the waypoint variables, and bounds, weights and row counts line up with the value rows, with a single weight or target spread over all joints.",
 ["inputs"],"every number of waypoints >= the minimum, every number of joints, every variable values, targets, bounds and coefficient vectors",
 "No offline test builds these terms; upstream tests use one fixed trajectory.",
 [I+"src/constraints/joint_position_constraint.cpp",I+"src/constraints/joint_velocity_constraint.cpp",I+"src/constraints/joint_acceleration_constraint.cpp",I+"src/constraints/joint_jerk_constraint.cpp"],
 [("finite differences and their Jacobians",I+"src/constraints")],(),["values, Jacobian, bounds, coefficients"])
p("C11","Weighted squared and absolute costs match their gradients",
 "A squared cost equals the weighted sum of squared bound errors of its constraint and an absolute cost the weighted sum of their absolute values. The gradient reported is the derivative of that cost (a subgradient of it where the absolute value has a kink) for any constraint, weights and bounds.",
 ["inputs"],"every wrapped constraint (values, Jacobian, bounds), every non-negative weight vector",
 "Tests do not build these costs offline.",
 [I+"src/costs/squared_cost.cpp",I+"src/costs/absolute_cost.cpp",I+"src/core/cost_term.cpp"],
 [("cost and gradient",I+"src/costs")],(),["cost value and Jacobian"])
p("C12","Vector expressions of the SQP layer evaluate and square correctly",
 "An affine vector expression created from an error vector and its derivative at a point reproduces the error at that point and has that derivative, and a quadratic one additionally has the given second derivatives. Squaring an affine expression with non-negative weights gives expressions whose value at every point is the weight times the square of the affine value, and whose summed linear and quadratic objective parts equal the sum of the individual expressions.",
 ["inputs"],"every error vector, sparse derivative, Hessians, weights and evaluation point, including reuse of the same objects with other sizes",
 "Five tests use fixed two-variable functions.",
 [Q+"src/expressions.cpp"],[("construction, squaring and evaluation",Q+"src/expressions.cpp")],(),["values and coefficient matrices"])
p("C13","The SQP subproblem represents the linearised problem exactly",
 "The QP built at a point has one row per constraint row and one per variable, rows whose value with zero slack equals the linearised constraint, non-negative slack variables that relax each row in the violated direction only and are charged the row's weight times its penalty, and an objective equal up to a constant to the weighted squares of the linearised squared costs. At the point where it was built, model costs and violations equal the exact ones.",
 ["inputs","histories"],"every mix of squared, hinge and absolute costs and constraints, with any number of rows, coefficients and values, including constraints whose number of rows changes",
 "The full problem tests need a QP solver that is not available; upstream tests check a few assembled problems.",
 [Q+"src/trajopt_qp_problem.cpp"],[("assembly",Q+"src/trajopt_qp_problem.cpp")],(),["Hessian, gradient, constraint matrix, bounds, costs, violations"])
p("C14","The generic SQP problem represents the linearised problem exactly",
 "For a general nonlinear problem with squared costs the QP built at a point has as Hessian the Gauss-Newton matrix of the weighted costs, a gradient that makes the QP objective's derivative at that point equal the derivative of the cost, rows equal to the linearised constraints, and non-negative slacks per row charged the constraint's penalty. Linearised constraint violations equal the exact ones at that point, and every entry of the bounds is set.",
 ["inputs"],"every nonlinear problem with squared costs and one-sided or equality constraints, every point",
 "As for the trajectory problem: no offline test builds it.",
 [Q+"src/ifopt_qp_problem.cpp"],[("assembly",Q+"src/ifopt_qp_problem.cpp")],(),["Hessian, gradient, constraint matrix, bounds"])
p("C15","Stacking components keeps values, bounds and derivatives aligned",
 "When variables, constraints or costs are combined into one composite, values, bounds, coefficients and derivative rows appear in the order the parts were added, each at the same row offset, and the number of rows is their sum. Setting the problem's variables hands over the whole vector and updates every part exactly once, and the problem-level values, bounds and derivatives are those of its composites, with the cost and its gradient being the sums over all cost terms.",
 ["inputs","histories"],"every list of components with any row counts, every variable vector",
 "Composite sources are not even compiled offline.",
 [I+"src/core/composite.cpp",I+"src/core/problem.cpp",I+"src/core/component.cpp",I+"src/core/constraint_set.cpp"],
 [("row offsets",I+"src/core/composite.cpp")],(),["stacked vectors and matrices"])
p("C16","Trajectory variables map to the optimisation vector without gaps or overlap",
 "Variables added to a node, and nodes added to a trajectory, occupy consecutive disjoint index ranges of the optimisation vector in the order they were added. Setting the vector and reading it back returns the same numbers, each variable sees exactly its own range, and names, bounds and initial values follow the same order.",
 ["inputs","histories"],"every number of nodes, variables per node, dimensions, and every vector",
 "No offline test builds node variables.",
 [I+"src/variable_sets/node.cpp",I+"src/variable_sets/var.cpp",I+"src/variable_sets/nodes_variables.cpp"],
 [("index assignment",I+"src/variable_sets")],(),["variable values and indices"])
p("C17","Numerical derivatives are forward differences and leave no trace",
 "Numerically computed gradients, Jacobians and Hessian diagonals are the finite-difference quotients of the given function with the given step, with every entry in its place. The function is only evaluated at the base point and at points that differ from it in the perturbed coordinates, and variables used for the evaluation have their original values afterwards.",
 ["inputs"],"every function (any input and output dimension), base point and step",
 "Tests do not check it offline; upstream tests use a few analytic functions.",
 [S+"src/num_diff.cpp",I+"src/utils/numeric_differentiation.cpp",I+"src/utils/ifopt_utils.cpp"],
 [("finite differences",S+"src/num_diff.cpp"),("finite differences",I+"src/utils/numeric_differentiation.cpp")],(),["returned derivatives, variable values"])
p("C18","The QP solver model keeps variables, rows and bounds matched",
 "After any sequence of adding and removing variables and constraints followed by an update, every remaining variable and row keeps its own expression, type, bounds and name, and the indices are consecutive in order of addition. Setting bounds changes only the named variables, values are read back for the requested variables in order, and setting a new objective replaces the previous one completely.",
 ["histories"],"every sequence of add, remove, update, set-bounds and set-objective operations",
 "One unit test removes a few variables; the statement is about all histories.",
 [S+"src/bpmpd_interface.cpp",S+"src/osqp_interface.cpp",S+"src/qpoases_interface.cpp"],
 [("index compaction",S+"src/bpmpd_interface.cpp")],(),["variables, rows, bounds handed to the QP solver"])
p("C19","Messages to the external QP solver survive the pipe unchanged",
 "A QP input or result written to the pipe and read at the other end is identical field by field, whatever its size and however the pipe splits the data. A stream that ends early is reported instead of being accepted.",
 ["inputs","schedules"],"every QP size and every way the operating system splits reads and writes",
 "Tests send problems far below the pipe's buffer size.",
 [S+"include/trajopt_sco/bpmpd_io.hpp"],[("field-wise serialisation",S+"include/trajopt_sco/bpmpd_io.hpp")],(),["bytes on the pipe, fields read back"])
p("C20","The convex solver asked for is the one used",
 "Every solver name converts to the solver with that name and back to the same name, distinct solvers have distinct names, and unknown names are rejected. The choice from the environment or by the caller selects exactly that solver, and an unavailable solver is reported instead of silently replaced.",
 ["inputs","configurations"],"every solver kind, every name, every set of solvers built in",
 "A test checks only that the available solver can be created.",
 [S+"src/solver_interface.cpp",S+"include/trajopt_sco/solver_interface.hpp"],[("name table and selection",S+"src/solver_interface.cpp")],(),["created model, printed name"])
p("C21","Array helpers index and interpolate correctly",
 "Slicing, row blocks, concatenation, index search, ranges and two-dimensional array helpers return exactly the elements asked for, in order, without touching memory outside the array. Searching a sorted axis and bilinear-style interpolation return the sample at grid points and a value between the neighbouring samples elsewhere.",
 ["inputs"],"every array size, index set and query point",
 "There are no unit tests for these helpers.",
 [C+"include/trajopt_common/basic_array.hpp",C+"include/trajopt_common/eigen_slicing.hpp",C+"include/trajopt_common/interpolation.hpp",C+"include/trajopt_common/vector_ops.hpp",C+"include/trajopt_common/utils.hpp"],
 [("array helpers",C+"include/trajopt_common")],(),["returned arrays"])
p("C22","Collision coefficients and gradients are assigned to the right links",
 "Collision coefficients set for a pair of links are returned for that pair in either order, all other pairs get the default, and a pair is treated as disabled exactly when its last coefficient set is zero. The per-link maximum errors of a gradient set are the maxima over the errors added, whatever the order in which results are added.",
 ["histories","inputs"],"every sequence of set/get calls and every multiset of gradient results",
 "These files need an unavailable dependency and have no offline test.",
 [C+"src/collision_types.cpp"],[("pair lookup",C+"src/collision_types.cpp"),("max aggregation",C+"src/collision_types.cpp")],(),["returned coefficients and errors"])
p("C23","Settings are read from JSON without loss or silent defaults",
 "A field present in the JSON document is read into its target with every array element in order and the length checked, an absent field takes exactly the given default or raises an error if there is none, and a value of the wrong kind raises an error. Reading one field never changes another.",
 ["inputs"],"every document and field name",
 "There are no tests for it.",
 ["trajopt/include/trajopt/json_marshal.hpp","trajopt/src/json_marshal.cpp"],[("field readers","trajopt/include/trajopt/json_marshal.hpp")],(),["target variables, exceptions"])
p("C24","The optimizer converges to a locally optimal, feasible trajectory",
 "For a feasible, smooth problem the optimizer ends at a point that satisfies all constraints within tolerance and cannot be improved locally.",
 ["inputs","histories"],"all smooth feasible problems","Tests solve a few examples.",
 [Q+"src/trust_region_sqp_solver.cpp",S+"src/optimizers.cpp"],[("SQP loop",Q+"src/trust_region_sqp_solver.cpp")])
p("C25","The QP back ends return an optimal solution",
 "When a convex subproblem solver reports success, the point it returns is feasible for the subproblem and has the lowest objective.",
 ["inputs"],"all convex subproblems","Tests solve a few small QPs.",
 [S+"src/bpmpd_interface.cpp",S+"src/osqp_interface.cpp",Q+"src/osqp_eigen_solver.cpp"],[("external solvers",S+"3rdpartylib")])
p("C26","Evaluating terms in parallel gives the same result as one after another",
 "Evaluating or convexifying cost and constraint terms with several threads gives the same values and models as evaluating them sequentially, without data races.",
 ["schedules"],"all thread counts and schedules","No test runs more than one thread deterministically.",
 [S+"src/optimizers.cpp",C+"include/trajopt_common/cache.h"],[("parallel loops",S+"src/optimizers.cpp")])
p("C27","Trajectories reported as successful are collision free",
 "A trajectory returned as successful with collision constraints keeps every link pair at least the configured margin apart along the whole motion.",
 ["inputs"],"all environments and trajectories","Tests check a few scenes.",
 [I+"src/constraints/collision"],[("collision constraints",I+"src/constraints/collision")])
p("C28","Results are insensitive to floating-point rounding",
 "The guarantees above hold up to a small relative error when evaluated in double precision, with no overflow for inputs of moderate size.",
 ["inputs"],"all double inputs","Tests use tolerances on a few inputs.",
 [S+"src/expr_ops.cpp",Q+"src/expressions.cpp"],[("double arithmetic",S+"src")])
if __name__=='__main__':
    root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root,'properties.jsonl'),'w') as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
