from .props import P, SCO
from . import terms as tm
from . import jsonmodel, pipemodel, dlist
P('C01', 'c01.cpp', [SCO + f for f in ('expr_ops.cpp', 'expr_vec_ops.cpp', 'solver_interface.cpp')], 'sco',
  libs=[SCO + f for f in ('expr_ops.cpp', 'expr_vec_ops.cpp', 'solver_interface.cpp')])
P('C02', 'c02.cpp', [SCO + f for f in ('solver_utils.cpp', 'solver_interface.cpp')], 'sco',
  libs=[SCO + f for f in ('solver_utils.cpp', 'solver_interface.cpp')])
IF = 'trajopt_ifopt/src/'
P('C09', 'c09.cpp', [IF + 'core/bounds.cpp', IF + 'utils/ifopt_utils.cpp'], 'opt', libs=[IF + 'core/bounds.cpp', IF + 'utils/ifopt_utils.cpp'])
JC = [IF + 'constraints/joint_%s_constraint.cpp' % k for k in ('position', 'velocity', 'acceleration', 'jerk')]
IFCORE = [IF + f for f in ('core/bounds.cpp', 'core/component.cpp', 'core/constraint_set.cpp', 'utils/ifopt_utils.cpp', 'variable_sets/var.cpp')]
CB = ['-lconsole_bridge']
P('C10', 'c10.cpp', JC + IFCORE, 'opt', libs=JC + IFCORE, link=CB)
COSTS = [IF + f for f in ('costs/squared_cost.cpp', 'costs/absolute_cost.cpp', 'core/cost_term.cpp')] + IFCORE[:-1]
P('C11', 'c11.cpp', COSTS, 'opt', libs=COSTS, link=CB)
SQ = 'trajopt_optimizers/trajopt_sqp/src/'
P('C12', 'c12.cpp', [SQ + 'expressions.cpp', IF + 'core/bounds.cpp'], 'opt', libs=[SQ + 'expressions.cpp', IF + 'core/bounds.cpp'])
PROB = IFCORE[:-1] + [IF + f for f in ('core/composite.cpp', 'core/problem.cpp', 'core/cost_term.cpp')]
P('C17', 'c17.cpp', [SCO + 'num_diff.cpp'] + PROB, ('opt', 'sco'), libs=[SCO + 'num_diff.cpp'] + PROB, link=CB)
QP = [SQ + 'trajopt_qp_problem.cpp', SQ + 'ifopt_qp_problem.cpp', SQ + 'expressions.cpp', IF + 'costs/squared_cost.cpp', IF + 'costs/absolute_cost.cpp'] + PROB
COMMON = ['trajopt_common/src/logging.cpp', 'trajopt_common/src/utils.cpp', 'trajopt_common/src/clock.cpp', 'trajopt_common/src/stl_to_string.cpp']
SCOP = [SCO + f for f in ('modeling.cpp', 'solver_interface.cpp', 'expr_ops.cpp')]
P('C05', 'c05.cpp', QP + SCOP + [SCO + 'optimizers.cpp'], ('opt', 'sco'), libs=QP + SCOP + [SCO + 'optimizers.cpp'] + COMMON, link=CB + ['-ljsoncpp', '-lboost_system'], flags=['-DHAVE_BPMPD'])
P('C13', 'c13.cpp', QP, 'opt', libs=QP, link=CB)
P('C14', 'c14.cpp', QP, 'opt', libs=QP, link=CB, setup=lambda ex: setattr(ex, 'zero_unstored', ex.lemma == 'L_gradient'))
TR = [SQ + 'trust_region_sqp_solver.cpp', SQ + 'types.cpp']
P('C06', 'c06.cpp', TR, 'opt', libs=TR + IFCORE, link=CB)
P('C07', 'c07.cpp', TR, 'opt', libs=TR + IFCORE, link=CB)
P('C20', 'c20.cpp', [SCO + 'solver_interface.cpp'], 'sco', libs=[SCO + 'solver_interface.cpp', SCO + 'expr_ops.cpp'] + COMMON, link=CB + ['-ljsoncpp', '-lboost_system'],
  variants={'all': ['-DHAVE_GUROBI', '-DHAVE_OSQP', '-DHAVE_QPOASES', '-DHAVE_BPMPD'], 'bpmpd': ['-DHAVE_BPMPD'], 'osqp': ['-DHAVE_OSQP'], 'qpoases': ['-DHAVE_QPOASES'], 'gurobi': ['-DHAVE_GUROBI']})
NODES = [IF + 'variable_sets/%s.cpp' % f for f in ('var', 'node', 'nodes_variables')]
def _hash(ex): ex.contracts['trajopt_common::getHash'] = lambda s, st, this, vals, n: tm.fresh('hash', 'I')
P('C16', 'c16.cpp', NODES + IFCORE[:-1], 'opt', libs=NODES + IFCORE[:-1] + ['trajopt_common/src/collision_utils.cpp', 'trajopt_common/src/collision_types.cpp'], link=CB, flags=['-fno-access-control'], setup=_hash,
  assumptions=['getHash of a vector returns a number: which one is left open in the proofs; that equal vectors have equal and different vectors different hashes is executed in B_trajectory'])
CT = ['trajopt_common/src/collision_types.cpp']
P('C22', 'c22.cpp', CT, ('opt', 'tesseract::co'), libs=CT, link=CB)
P('C15', 'c15.cpp', PROB, 'opt', libs=PROB, link=CB, flags=['-fno-access-control'])
P('C03', 'c03.cpp', SCOP, 'sco', libs=SCOP + COMMON, link=CB + ['-ljsoncpp', '-lboost_system'], flags=['-DHAVE_BPMPD'])
MU = SCOP + [SCO + 'modeling_utils.cpp', SCO + 'num_diff.cpp', SCO + 'expr_vec_ops.cpp']
P('C04', 'c04.cpp', MU, ('opt', 'sco'), libs=MU + COMMON, link=CB + ['-ljsoncpp', '-lboost_system'], flags=['-DHAVE_BPMPD'])
P('C21', 'c21.cpp', ['trajopt_common/src/utils.cpp'], 'opt', libs=['trajopt_common/src/utils.cpp', 'trajopt_ifopt/src/core/bounds.cpp'])
BP = [SCO + f for f in ('solver_interface.cpp', 'solver_utils.cpp', 'expr_ops.cpp')]
P('C18', 'c18.cpp', [SCO + 'solver_interface.cpp', SCO + 'solver_utils.cpp'], 'sco', libs=BP + COMMON, link=CB + ['-ljsoncpp', '-lboost_system'], flags=['-DHAVE_BPMPD', '-fno-access-control'])
P('C19', 'c19.cpp', [], 'bpmpd', link=['-lpthread'], setup=pipemodel.install)
P('C08', 'c08.cpp', [], 'trajopt_common', setup=dlist.install, flags=['-fno-access-control'])
P('C23', 'c23.cpp', ['trajopt/src/json_marshal.cpp'], 'json', libs=['trajopt/src/json_marshal.cpp'], link=['-ljsoncpp'], setup=jsonmodel.install)
