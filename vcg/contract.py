"""Running contracts: symbolic parameters, pre/postconditions, proof of the obligations."""
import time, sys, os, traceback
from . import terms as tm, smt, values as V
from .terms import T
from .values import *
from .exec import Exec, Frame, St, Obl, Throw
from .cast import qt, clean
from .norm import Norm, TooBig


def flat(c):
    if c.op == 'and':
        out = []
        for a in c.args: out += flat(a)
        return out
    return [c]


def c_require(ex, st, this, vals, n):
    c = val(ex, st, vals[0])
    for f in flat(c): st.assume(f)
    if len(ex.frames) == 1 and not st.pc: V.GLOBALS.extend(f for f in flat(c) if f is not tm.TRUE)
    return VOID


def val(ex, st, v): return ex.read(st, v) if isinstance(v, LV) else v


def strval(v):
    if isinstance(v, T) and v.op == 'str': return v.data
    return str(v)


def post(ex, st, goal, name):
    if ex.quiet: return
    o = Obl('post', ex.curlemma, ex.curline, st.all(), goal, name)
    ex.obls.append(o)


def c_ensure(ex, st, this, vals, n):
    post(ex, st, ex.tobool(st, val(ex, st, vals[0])), strval(val(ex, st, vals[1])))
    return VOID


def c_ensure_eq(ex, st, this, vals, n):
    post(ex, st, tm.eq(val(ex, st, vals[0]), val(ex, st, vals[1])), strval(val(ex, st, vals[2])))
    return VOID


def c_unreachable(ex, st, this, vals, n):
    post(ex, st, tm.FALSE, strval(val(ex, st, vals[0])))
    return VOID


def c_invariant(ex, st, this, vals, n):
    c, name = ex.tobool(st, val(ex, st, vals[0])), strval(val(ex, st, vals[1]))
    if getattr(ex, 'sink', None) is not None: ex.sink.append((name, c))
    return VOID


def c_implies(ex, st, this, vals, n):
    return tm.implies(ex.tobool(st, val(ex, st, vals[0])), ex.tobool(st, val(ex, st, vals[1])))


def onepoint(t, v):
    """canonical form of an element expression: cases v == e first"""
    from .norm import lin_coef
    best = None
    for x in tm.subterms(t):
        if x.op != 'ite': continue
        for c in (x.args[0].args if x.args[0].op in ('and', 'or') else (x.args[0],)):
            if c.op == 'not': c = c.args[0]
            if c.op == 'eq0' and v in c.fv and not any(isinstance(w.data, tuple) for w in c.fv):
                q = c.args[0]
                k = lin_coef(q, v)
                if k in (1, -1):
                    e = tm.scale(tm.sub(q, tm.scale(v, k)), -k)
                    if v not in e.fv and (best is None or c.id < best[0].id): best = (c, e)
    if best is None: return t
    c, e = best
    f = tm.replace_atoms(t, lambda x: tm.FALSE if x is c else None)
    return tm.ite(c, tm.subst(t, {v: e}), onepoint(f, v))


def decided(facts, t):
    """t with the conditions that the facts (and the ranges of its binders) decide resolved"""
    memo = {}

    def cond(c, rng):
        if c.op in ('and', 'or', 'not'): return tm.rebuild(c.op, c, [cond(a, rng) for a in c.args])
        if c.op in ('le0', 'lt0', 'eq0') and c.args[0].sort == 'I' and any(x.op == 'ite' for x in tm.subterms(c)):
            c = tm.rebuild(c.op, c, [go(c.args[0], rng)])
        if c.op in ('le0', 'lt0', 'eq0') and c.args[0].sort == 'I' and not any(x.op in ('sum', 'at', 'ite') for x in tm.subterms(c)):
            fs = facts + rng
            if smt.valid(fs, c, 300): return tm.TRUE
            if smt.valid(fs, tm.not_(c), 300): return tm.FALSE
        return c

    def go(t, rng):
        if not any(x.op == 'ite' for x in tm.subterms(t)): return t
        key = (t, tuple(r.id for r in rng))
        r = memo.get(key)
        if r is not None: return r
        if t.op == 'cloop':
            v, b = tm.open_binder(t)
            lo, hi = go(t.args[0], rng), go(t.args[1], rng)
            r = tm.cloop(v, lo, hi, go(b, rng + [tm.le(lo, v), tm.lt(v, hi)]))
        elif t.op in tm.BINDERS: r = t
        elif t.op == 'ite':
            c = cond(t.args[0], rng)
            r = go(t.args[1], rng) if c is tm.TRUE else go(t.args[2], rng) if c is tm.FALSE else tm.ite(c, go(t.args[1], rng), go(t.args[2], rng))
        elif t.args: r = tm.rebuild(t.op, t, [go(a, rng) for a in t.args])
        else: r = t
        memo[key] = r
        return r
    return go(t, [])


def point(ex, st, x):
    """a vector as a term: the comprehension of its elements"""
    x = val(ex, st, x)
    v = tm.fresh('k', 'I')
    if not isinstance(x, Arr): raise Unsupported('oracle argument')
    e = x.get(v) if len(x.dims) == 1 else x.get(v, tm.ZI)
    e = decided([f for f in st.all() if f.bh == 0] + [tm.le(tm.ZI, v), tm.lt(v, x.dims[0])], e)
    return tm.cloop(v, tm.ZI, x.dims[0], tm.cleaf(tm.TRUE, onepoint(e, v)))


def c_oracle(ex, st, this, vals, n):
    """an arbitrary function of a vector"""
    return tm.app('oracle', 'R', *([point(ex, st, vals[0])] + [val(ex, st, v) for v in vals[1:]]))


def c_oracle2(ex, st, this, vals, n):
    return tm.app('oracle2', 'R', *([point(ex, st, vals[0])] + [val(ex, st, v) for v in vals[1:]]))


def c_arbitrary(ex, st, this, vals, node):
    from .cast import qt
    a = [x for x in node['inner'][1:]][0]
    ex.write(st, vals[0], ex.symval(qt(a), ex.freshname('any')))
    return VOID


def c_environment(ex, st, this, vals, node):
    from .exec import NULLSTR
    name, is_set, v = [val(ex, st, x) for x in vals]
    st.assume(tm.ne(v, NULLSTR))
    st.assume(tm.eq(tm.app('getenv', 'S', name), tm.ite(is_set, v, NULLSTR)))
    return VOID


BASE = {'environment': c_environment, 'arbitrary': c_arbitrary, 'oracle': c_oracle, 'oracle2': c_oracle2, 'require': c_require, 'ensure': c_ensure, 'ensure_eq': c_ensure_eq, 'ensure_eq_i': c_ensure_eq,
        'unreachable': c_unreachable, 'invariant': c_invariant, 'implies': c_implies}


class Prover:
    def __init__(s, timeout=8000):
        s.timeout = timeout
        s.backend = {}
        s.splits = 0

    def use(s, b): s.backend[b] = s.backend.get(b, 0) + 1

    def prove(s, facts, goal, depth=0):
        """('proved', backend) or ('failed', detail)"""
        if depth == 0:
            facts, goal = element_lengths(facts, goal)
            facts, goal = equalities(facts, goal)
            more = units(facts)
            if more is not None: facts, goal = equalities(more, goal)
            goal = kind_tests(facts, goal)
            facts = stored_none(facts, goal)
            cs = [x.args[0] for x in tm.subterms(goal) if x.op == 'ite' and x.args[0].op in ('var', 'app') and not any(isinstance(v.data, tuple) for v in x.args[0].fv)]
            if cs and any(x.op == 'at' for x in tm.subterms(goal)):
                c, bs = cs[0], set()
                for val in (True, False):
                    w = tm.TRUE if val else tm.FALSE
                    rw = lambda t: tm.replace_atoms(t, lambda x: w if x is c else None) if c in tm.subterms(t) else t
                    r, b = s.prove([rw(f) for f in facts] + [c if val else tm.not_(c)], rw(goal), 0)
                    if not r: return r, b
                    bs.add(b)
                return True, '+'.join(sorted(bs))
        if depth < 6:
            sp = at_split(facts, goal)
            if sp is not None:
                bs = set()
                for f2, g2 in sp:
                    r, b = s.prove(f2, g2, depth + 1)
                    if not r: break
                    bs.add(b)
                else: return True, '+'.join(sorted(bs)) or 'simplifier'
                r, b2 = s.prove(facts, goal, 6)
                return (True, b2) if r else (False, b)
            if goal.op in ('le0', 'lt0'):
                c = next((x.args[0] for x in tm.subterms(goal) if x.op == 'ite' and any(y.op == 'at' for a in x.args[1:] for y in tm.subterms(a))
                          and not any(isinstance(v.data, tuple) for v in x.args[0].fv)), None)
                if c is not None:
                    bs = set()
                    for val in (True, False):
                        from .norm import resolve
                        r, b = s.prove(list(facts) + flat(c if val else tm.not_(c)), resolve(goal, c, val), depth + 1)
                        if not r: return r, b
                        bs.add(b)
                    return True, '+'.join(sorted(bs))
        if goal is tm.TRUE: return True, 'simplifier'
        if goal in facts: return True, 'simplifier'
        if goal.op == 'and':
            bs = set()
            for g in goal.args:
                r, b = s.prove(facts, g, depth + 1)
                if not r: return r, b
                bs.add(b)
            return True, '+'.join(sorted(bs))
        if goal.op == 'forall':
            v, b = tm.open_binder(goal)
            return s.prove(facts, b, depth + 1)
        if goal.op == 'or':
            # assume the negation of the simple disjuncts, prove the structured one
            simple = [a for a in goal.args if a.bh == 0 and a.op not in ('and',)]
            hard = [a for a in goal.args if a not in simple]
            if len(hard) == 1:
                return s.prove(list(facts) + [tm.not_(a) for a in simple], hard[0], depth + 1)
            if not hard:
                eqs = [a for a in simple if a.op == 'eq0' and a.args[0].sort == 'R']
                if len(eqs) == 1:
                    return s.prove(list(facts) + [tm.not_(a) for a in simple if a is not eqs[0]], eqs[0], depth + 1)
            if len(hard) > 1:
                r = smt.check(facts, goal, s.timeout)
                if r[0] == 'valid': return True, 'z3'
                for h in hard:
                    rest = [tm.not_(a) for a in goal.args if a is not h]
                    ok, b = s.prove(list(facts) + rest, h, depth + 1)
                    if ok: return ok, b
                return False, r
        if goal.op == 'eq0' and (goal.args[0].bh > 0 or _ites(goal.args[0])):
            r, d = s.prove_zero(facts, goal.args[0])
            if r: return True, d
            g2 = kind_tests(facts, tm.eq(d, tm.num(0, d.sort))) if isinstance(d, T) else goal
            r = smt.check(facts, g2, s.timeout)
            if r[0] == 'valid': return True, 'sum normaliser+z3'
            if isinstance(d, T):
                g3 = settle(facts, g2)
                if g3 is not g2:
                    ok, b = s.prove(facts, g3, max(depth, 1) + 1)
                    if ok: return ok, b
                ok, b = s.split(facts, g3, depth)
                if ok: return ok, b
            return False, (r, g2)
        if goal.op in ('le0', 'lt0') and goal.args[0].bh > 0:
            r = smt.check(facts, goal, min(s.timeout, 3000))
            if r[0] == 'valid': return True, 'z3'
            try:
                nm = Norm(facts)
                d = nm.rebuild(nm.normalise(goal.args[0]), goal.args[0].sort)
                g2 = tm.le0(d) if goal.op == 'le0' else tm.lt0(d)
            except TooBig: g2 = goal
            r = smt.check(facts, g2, s.timeout)
            if r[0] == 'valid': return True, 'sum normaliser+z3'
            return False, (r, g2)
        r = smt.check(facts, goal, s.timeout, want_model=True)
        if r[0] == 'valid': return True, 'z3'
        return False, (r, goal)

    def split(s, facts, goal, depth):
        """case distinction on a closed condition of the residual goal"""
        from .norm import resolve
        if s.splits >= 5: return False, None
        c = None
        for x in tm.subterms(goal):
            if x.op != 'ite': continue
            for y in (x.args[0].args if x.args[0].op in ('and', 'or') else (x.args[0],)):
                if y.op == 'not': y = y.args[0]
                if y.sort == 'B' and y.bh == 0 and not any(isinstance(v.data, tuple) or v.op == 'bvar' for v in y.fv) and (c is None or (y.op == 'eq0', -y.id) > (c.op == 'eq0', -c.id)): c = y
        if c is None: return False, None
        s.splits += 1
        bs = {'case split'}
        try:
            for val in (True, False):
                h = flat(c if val else tm.not_(c))
                if smt.valid(list(facts) + h, tm.FALSE, 500): continue
                f2, g2 = equalities(list(facts) + h, tm.replace_atoms(resolve(goal, c, val), lambda x: (tm.TRUE if val else tm.FALSE) if x is c else None))
                r, b = s.prove(f2, g2, max(depth, 1) + 1)
                if not r: return False, None
                bs.add(b)
        finally: s.splits -= 1
        return True, '+'.join(sorted(bs))

    def prove_zero(s, facts, t, again=True):
        try:
            nm = Norm(facts)
            d = nm.normalise(t)
            if not d: return True, 'sum normaliser'
            if t.sort == 'R':
                d = nm.pointwise(d)
                if not d: return True, 'sum normaliser+z3'
            r = nm.rebuild(d, t.sort)
            if again:
                r2 = same_extents(facts, r)
                if r2 is not None: return s.prove_zero(facts, r2, False)
                r2 = last_term(facts, r)
                if r2 is not None: return s.prove_zero(facts, r2, False)
            return False, r
        except TooBig:
            return False, None


def last_term(facts, t):
    """a sum up to n + 1 next to one up to n: its last term is written on its own"""
    sums = [x for x in tm.subterms(t) if x.op == 'sum' and x.args[0] is tm.ZI and not any(isinstance(v.data, tuple) or v.op == 'bvar' for v in x.fv)]
    ends, mp = {x.args[1] for x in sums}, {}
    for x in sums:
        n = tm.sub(x.args[1], tm.OI)
        if n in ends and (tm.nonneg(n) or smt.valid(facts, tm.le(tm.ZI, n), 500)):
            v, b = tm.open_binder(x)
            mp[x] = tm.add(tm.Sum(v, tm.ZI, n, b), tm.subst(b, {v: n}))
    if not mp: return None
    return tm.replace_atoms(t, lambda x: mp.get(x))


def same_extents(facts, t):
    """extents that provably coincide are written the same way"""
    hs = []
    for x in tm.subterms(t):
        if x.op == 'sum':
            h = x.args[1]
            if h.bh == 0 and h.op in ('app', 'var') and not any(isinstance(v.data, tuple) for v in h.fv) and h not in hs: hs.append(h)
    if len(hs) > 8: return None
    hs.sort(key=lambda h: h.id)
    mp = {}
    for i, h in enumerate(hs):
        for g in hs[:i]:
            if g not in mp and g not in tm.subterms(h) and h not in tm.subterms(g) and smt.valid(facts, tm.eq(g, h), 1000):
                mp[h] = g
                break
    # the same function at the same point
    fs = sorted((x for x in tm.subterms(t) if x.op == 'app' and any(a.sort == 'C' for a in x.args) and not any(isinstance(v.data, tuple) for v in x.fv)), key=lambda x: x.id)
    if len(fs) <= 16:
        for i, h in enumerate(fs):
            for g in fs[:i]:
                if g not in mp and g.data == h.data and len(g.args) == len(h.args) and same_args(facts, g, h):
                    mp[h] = g
                    break
    if not mp: return None
    return tm.replace_atoms(t, lambda x: mp.get(x))


def same_args(facts, g, h):
    for a, b in zip(g.args, h.args):
        if a is b: continue
        if a.sort != b.sort: return False
        if a.sort != 'C':
            if not smt.valid(facts, tm.eq(a, b), 1000): return False
        else:
            if a.op != 'cloop' or b.op != 'cloop': return False
            v, x = tm.open_binder(a)
            _, y = tm.open_binder(b, v)
            if x.op != 'cleaf' or y.op != 'cleaf' or x.args[0] is not tm.TRUE or y.args[0] is not tm.TRUE: return False
            if not smt.valid(facts, tm.and_(tm.eq(a.args[0], b.args[0]), tm.eq(a.args[1], b.args[1])), 1000): return False
            if not smt.valid(list(facts) + [tm.le(a.args[0], v), tm.lt(v, a.args[1])], tm.eq(x.args[1], y.args[1]), 1000): return False
    return True


def _ites(t):
    return any(x.op == 'ite' for x in tm.subterms(t))


class Result:
    def __init__(s, name):
        s.name = name
        s.obls = []          # (kind, fn, line, desc, status, backend/detail)
        s.unsupported = None
        s.fns = []
        s.contracts = {}
        s.trusted = []
        s.notes = []
        s.time = 0
        s.queries = 0
        s.solver_time = 0
        s.vacuous = None
        s.loopinv = []

    @property
    def ok(s): return s.unsupported is None and not s.failed() and s.vacuous is None
    def failed(s): return [o for o in s.obls if o[4] != 'proved']


def symparams(ex, st, fn, fr):
    for p in fn.params:
        t = qt(p)
        k = ex.tkind(t)
        nm = p.get('name', 'arg')
        v = ex.symval(t, nm)
        fr.env[p['id']] = ex.newcell(st, v)


def run_lemma(db, fn, contracts, setup=None, timeout=8000, verbose=False):
    res = Result(fn.name)
    t0 = time.time()
    q0, st0 = smt.STATS['queries'], smt.STATS['time']
    c = dict(BASE)
    c.update(contracts or {})
    script, obls, ex, live, restarts = [], [], None, False, 0
    from .loops import Restart
    while True:
        prev, ex = ex, Exec(db, c)
        ex.curlemma = fn.name
        ex.lemma = fn.name
        ex.script = script
        if setup: setup(ex)
        if prev is not None:
            for k in ('used_fns', 'used_contracts'): getattr(ex, k).update(getattr(prev, k))
            ex.loop_memo = prev.loop_memo
            for k in ('trusted', 'notes'): getattr(ex, k).update(getattr(prev, k))
        st = St()
        fr = Frame(fn, None)
        del V.GLOBALS[:]
        try:
            symparams(ex, st, fn, fr)
            ex.frames.append(fr)
            outs = ex.run(fn.body, st)
            fin = [o[1] for o in outs if o[0] in ('n', 'ret') and not o[1].dead]
            for t in ex.throws:
                ex.obls.append(Obl('no-exception', fn.name, None, t.st.facts, tm.not_(tm.and_(*t.st.pc)), 'no exception escapes (%s)' % (t.what,)))
            # vacuity: the end of the contract must be reachable
            for f in fin:
                if not live and smt.satisfiable(f.all(), 3000) != 'unsat': live = True
        except Restart:
            script, obls, live, restarts = [], [], False, restarts + 1
            if restarts < 12: continue
            res.unsupported = 'loop: invariants are not inductive'
        except Unsupported as e:
            res.unsupported = 'line %s: %s' % (ex.curline, e)
            if verbose: print(''.join(traceback.format_exc().split('\n  File')[-25:]))
        except RecursionError:
            res.unsupported = 'term too deep'

        except Exception as e:
            res.unsupported = 'line %s: internal: %s %s' % (ex.curline, type(e).__name__, e)
            if verbose: print(''.join(traceback.format_exc().split('\n  File')[-5:]))
        obls += ex.obls
        if res.unsupported is not None: break
        script = [t[0] for t in ex.taken]
        while script and script[-1] + 1 >= ex.taken[len(script) - 1][1]: script.pop()
        if not script: break
        script[-1] += 1
        if len(obls) > 20000:
            res.unsupported = 'too many ends'
            break
    if res.unsupported is None and not live: res.vacuous = 'no terminating path satisfies the assumptions'
    ex.obls = obls
    pr = Prover(timeout)
    if res.unsupported is None:
        seen = {}
        for o in ex.obls:
            key = (o.kind, o.desc, o.goal, tuple(sorted(f.id for f in o.facts)))
            if key in seen: continue
            ok, b = pr.prove(o.facts, o.goal)
            seen[key] = ok
            det = b
            if not ok and any(x.op == 'app' and isinstance(x.data, str) and x.data.startswith('dead!') for t in [o.goal] + list(o.facts) for x in tm.subterms(t)):
                res.unsupported = 'line %s: a value left over from a loop is read' % o.line
                if verbose: print('   DEAD', o.kind, o.desc, o.fn, o.line, str(o.goal)[:1500], describe(b)[:1500])
                break
            if not ok:
                det = describe(b)
                if verbose: print('   FAILED', o.kind, o.desc, o.fn, o.line, '\n      goal', str(o.goal)[:700], '\n      facts', str([str(f)[:120] for f in o.facts])[:600], '\n      ', str(det)[:6700])
            res.obls.append((o.kind, o.fn, o.line, o.desc, 'proved' if ok else 'failed', det))
        if not any(o[0] == 'post' for o in res.obls) and not any(o.kind == 'post' for o in ex.obls):
            res.vacuous = 'no postcondition was generated'
    res.fns = sorted({f.qual for f in ex.used_fns.values()} )
    res.contracts = {str(k): v for k, v in ex.used_contracts.items() if k not in BASE}
    res.trusted = sorted(ex.trusted)
    res.notes = sorted(ex.notes)
    res.loopinv = getattr(ex, 'loopinv', [])
    res.time = time.time() - t0
    res.queries = smt.STATS['queries'] - q0
    res.solver_time = smt.STATS['time'] - st0
    return res


def describe(b):
    if isinstance(b, tuple):
        r, g = b if len(b) == 2 and isinstance(b[0], tuple) else (b, None)
        s = 'solver: %s' % (r[0],)
        if g is not None: s += '; residual goal: ' + str(g)[:6000]
        if r[0] == 'invalid' and r[1] is not None: s += '; counterexample: ' + str(r[1]).replace('\n', ' ')[:1500]
        return s
    return str(b)[:1500]


def element_lengths(facts, goal):
    """two members of every element of a sequence are equally long: name the lengths alike.  The elements past the end are never
    read (every read has its own obligation), so the equation may be taken to hold for them too."""
    ren = {}
    for f in facts:
        vs, g = [], f
        while g.op == 'forall':
            v, g = tm.open_binder(g)
            vs.append(v)
        if not vs or g.op != 'or': continue
        body = [a for a in g.args if a.op == 'and' or a.op == 'eq0']
        rest = [a for a in g.args if a not in body]
        if len(body) != 1 or len(vs) != 1 or len(rest) != 2: continue
        for c in (body[0].args if body[0].op == 'and' else body):
            if c.op != 'eq0' or c.args[0].sort != 'I': continue
            p = tm.poly(c.args[0])
            if len(p) != 2 or sorted(p.values()) != [-1, 1]: continue
            try: (x, _), = [m[0] for m, k in p.items() if k == 1]; (y, _), = [m[0] for m, k in p.items() if k == -1]
            except (ValueError, IndexError): continue
            if not all(t.op == 'app' and isinstance(t.data, str) and t.data.endswith('|#len') and tuple(t.args) == tuple(vs) for t in (x, y)): continue
            own = x.data.split('|[]|')[0]
            if y.data.split('|[]|')[0] != own or x.data.count('|[]') != 1 or y.data.count('|[]') != 1: continue
            n = tm.app(own + '|#len', 'I')
            if set(rest) != {tm.lt(vs[0], tm.ZI), tm.le(n, vs[0])}: continue
            a, b = sorted((x.data, y.data))
            while a in ren: a = ren[a]
            if a != b: ren[b] = a
    if not ren: return facts, goal

    def f(t):
        if t.op == 'app' and t.data in ren: return tm.app(ren[t.data], t.sort, *[rw(a) for a in t.args])
    rw = lambda t: tm.replace_atoms(t, f)
    return [x for x in map(rw, facts) if x is not tm.TRUE], rw(goal)


def units(facts):
    """alternatives of which the facts refute all but one (None when there are none)"""
    known, out, hit = set(facts), [], False
    for f in facts:
        if f.op == 'or':
            rest = [a for a in f.args if tm.not_(a) not in known]
            if len(rest) == 1:
                out += flat(rest[0])
                hit = True
                continue
        out.append(f)
    return out if hit else None


def equalities(facts, goal):
    """use equations between sizes / objects as rewrite rules"""
    facts = list(facts)
    kept = []
    for _ in range(60):
        hit = None
        for f in facts:
            if f.op == 'eq0' and f.args[0].sort == 'I':
                for m, c in tm.poly(f.args[0]).items():
                    if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].op in ('app', 'var') and m[0][0].data not in ('idiv', 'imod') and not str(m[0][0].data).endswith('|nnz'):
                        a = m[0][0]
                        if f.bh and not str(a.data).endswith('|#len') and not (str(a.data).startswith('inv!') and not a.args): continue
                        e = tm.scale(tm.sub(f.args[0], tm.scale(a, c)), -c)
                        if a in tm.subterms(e): continue
                        # orient: eliminate the younger symbol
                        if hit is None or a.id > hit[1].id: hit = (f, a, e)
                if hit: break
            elif f.op == 'eq' and f.args[0].sort in 'OS' and f.bh == 0:
                x, y = f.args
                for a, e in ((y, x), (x, y)) if not str(x.data).startswith('inv!') or x.op not in ('app', 'var') else ((x, y), (y, x)):
                    if a.op in ('app', 'var') and a.data != 'nullptr' and a not in tm.subterms(e) and not V.is_alloc(a):
                        hit = (f, a, e)
                        break
                if hit: break
        if hit is None: break
        f, a, e = hit
        if a.op == 'app' and a.args: kept.append(f)      # the symbol can come back when a summand is instantiated
        rw = lambda t: tm.replace_atoms(t, lambda x: e if x is a else None) if a in tm.subterms(t) else t
        facts = [rw(x) for x in facts if x is not f]
        facts = [x for x in facts if x is not tm.TRUE]
        goal = rw(goal)
    return facts + kept, goal


def settle(facts, goal):
    """inside the conditions of the goal: decide comparisons without running totals, bring sums to normal form"""
    memo = {}
    hard = lambda t: any(x.op == 'ite' and any(y.op in ('sum', 'ite') for y in tm.subterms(x.args[0])) for x in tm.subterms(t))

    def cond(c, rng):
        if c.op in ('and', 'or', 'not'): return tm.rebuild(c.op, c, [cond(a, rng) for a in c.args])
        if c.op in ('le0', 'lt0', 'eq0'):
            if not any(x.op in ('sum', 'at', 'ite') for x in tm.subterms(c)):
                fs = list(facts) + rng
                if smt.valid(fs, c, 500): return tm.TRUE
                if smt.valid(fs, tm.not_(c), 500): return tm.FALSE
                return c
            x = c.args[0]
            if any(y.op == 'sum' for y in tm.subterms(x)):
                n = normal(list(facts) + rng, x)
                if n is not x: return tm.le0(n) if c.op == 'le0' else tm.lt0(n) if c.op == 'lt0' else tm.eq(n, tm.num(0, n.sort))
            return go(c, rng)
        return c

    def go(t, rng):
        if t.op not in ('ite',) and not hard(t): return t
        key = (t, tuple(r.id for r in rng))
        r = memo.get(key)
        if r is not None: return r
        if t.op in tm.BINDERS:
            v, b = tm.open_binder(t)
            pre = [go(a, rng) for a in t.args[:-1]]
            b2 = go(b, rng + ([tm.le(pre[0], v), tm.lt(v, pre[1])] if pre else []))
            r = {'sum': lambda: tm.Sum(v, pre[0], pre[1], b2), 'forall': lambda: tm.forall(v, b2),
                 'exists': lambda: tm.exists(v, b2), 'cloop': lambda: tm.cloop(v, pre[0], pre[1], b2)}[t.op]()
        elif t.op == 'ite':
            c = cond(t.args[0], rng)
            r = go(t.args[1], rng) if c is tm.TRUE else go(t.args[2], rng) if c is tm.FALSE else tm.ite(c, go(t.args[1], rng), go(t.args[2], rng))
        elif t.args: r = tm.rebuild(t.op, t, [go(a, rng) for a in t.args])
        else: r = t
        memo[key] = r
        return r
    return go(goal, [])


def normal(facts, t):
    try:
        nm = Norm(facts)
        d = nm.normalise(t)
        if t.sort == 'R' and d: d = nm.pointwise(d)
        return nm.rebuild(d, t.sort)
    except TooBig: return t


def stored_none(facts, goal):
    """instances of 'no stored entry means every entry is zero' for the entries the goal talks about"""
    cnt = [x for x in tm.subterms(goal) if x.op == 'app' and isinstance(x.data, str) and x.data.startswith('nnz!')]
    if not cnt: return facts
    ks = sorted({x for x in tm.subterms(goal) if x.sort == 'I' and x.op in ('var', 'app') and (x.op == 'var' or not x.args) and not isinstance(x.data, tuple)
                 and '#' not in str(x.data) and '!' not in str(x.data)}, key=lambda x: x.id)[:4]
    out = []
    for f in facts:
        if f.op == 'forall' and any(c in tm.subterms(f) for c in cnt):
            v, b = tm.open_binder(f)
            if b.op != 'forall': continue
            w, b = tm.open_binder(b)
            for x in ks:
                for y in ks:
                    g = tm.subst(b, {v: x, w: y})
                    mp = {t: normal(facts, t) for t in tm.subterms(g) if t.op == 'sum' and t.sort == 'R' and not any(isinstance(q.data, tuple) for q in t.fv)}
                    out.append(tm.replace_atoms(g, lambda t: mp.get(t)))
    return list(facts) + out


def kind_tests(facts, goal):
    """comparisons of a tag with a constant that the quantified facts decide for every element in range"""
    names = set()
    for f in facts:
        if f.op == 'forall':
            for x in tm.subterms(f):
                if x.op == 'eq0':
                    p = tm.poly(x.args[0])
                    a = [m[0][0] for m in p if len(m) == 1 and m[0][1] == 1]
                    if len(a) == 1 and len(p) <= 2 and a[0].op == 'app' and a[0].args and a[0].sort == 'I': names.add(a[0].data)
    if not names or not any(x.op == 'app' and x.data in names for x in tm.subterms(goal)): return goal
    base = [f for f in facts if f.op != 'forall' or any(x.op == 'app' and x.data in names for x in tm.subterms(f))]
    memo = {}

    def near(t, rng):
        vs, out, todo = set(t.fv), [], list(rng)
        while True:
            hit = [f for f in todo if not f.fv.isdisjoint(vs)]
            if not hit: return out
            out += hit
            todo = [f for f in todo if f not in hit]
            for f in hit: vs |= f.fv

    def go(t, rng):
        if not any(x.op == 'app' and x.data in names for x in tm.subterms(t)): return t
        key = (t, tuple(sorted(r.id for r in near(t, rng))))
        r = memo.get(key)
        if r is not None: return r
        if t.op in tm.BINDERS:
            v, b = tm.open_binder(t)
            pre = [go(a, rng) for a in t.args[:-1]]
            r2 = rng + ([tm.le(pre[0], v), tm.lt(v, pre[1])] if pre else [])
            b2 = go(b, r2)
            r = {'sum': lambda: tm.Sum(v, pre[0], pre[1], b2), 'forall': lambda: tm.forall(v, b2),
                 'exists': lambda: tm.exists(v, b2), 'cloop': lambda: tm.cloop(v, pre[0], pre[1], b2)}[t.op]()
        elif t.op == 'eq0' and any(m and m[0][0].op == 'app' and m[0][0].data in names for m in tm.poly(t.args[0])):
            rel = near(t, rng)      # what the memo key depends on
            if smt.valid(base + rel, t, 800): r = tm.TRUE
            elif smt.valid(base + rel, tm.not_(t), 800): r = tm.FALSE
            else: r = t
        elif t.op == 'ite':
            c = go(t.args[0], rng)
            if c is tm.TRUE: r = go(t.args[1], rng)
            elif c is tm.FALSE: r = go(t.args[2], rng)
            else: r = tm.ite(c, go(t.args[1], rng), go(t.args[2], rng))      # path conditions are not used: every copy of a count stays the same
        elif t.args:
            r = tm.rebuild(t.op, t, [go(a, rng) for a in t.args])
        else: r = t
        memo[key] = r
        return r
    return go(goal, [])


def at_split(facts, goal):
    """k ranges over the elements of a comprehension: prove the goal for every leaf of the comprehension"""
    from .norm import zip_leaves, zip_leaves_at
    occ = {}
    for t in [goal] + list(facts):
        for x in tm.subterms(t):
            if x.op == 'at' and not any(isinstance(v.data, tuple) for v in x.fv): occ.setdefault(x.args[0], set()).add(x.args[1])
    gk = {x.args[0] for x in tm.subterms(goal) if x.op == 'at'}
    for k, trees in occ.items():
        if k not in gk: continue
        groups = []
        for t in trees:
            for g in groups:
                if zip_leaves([g[0], t]) is not None:
                    g.append(t)
                    break
            else: groups.append([t])
        g = max(groups, key=len)
        if any(k in t.fv for t in g if k.op == 'var'): continue
        n = tm.clen(g[0])
        if not smt.valid(facts, tm.and_(tm.le(tm.ZI, k), tm.lt(k, n)), 1500): continue
        out = []
        for binders, guards, elems, off in zip_leaves_at(g):
            mp = dict(zip(g, elems))

            def rep(t):
                return tm.replace_atoms(t, lambda y: mp.get(y.args[1]) if y.op == 'at' and y.args[0] is k else None)
            f2 = [rep(f) for f in facts] + list(guards)
            for v, lo, hi in binders: f2 += [tm.le(lo, v), tm.lt(v, hi)]
            here = kind_tests(f2, tm.eq(k, off))
            f2.append(here)
            f2 = [x for y in f2 for x in flat(y)]
            out.append((f2, rep(goal)))
        return out
    return None
