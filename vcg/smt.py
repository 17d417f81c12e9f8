"""Translation of terms to z3 and entailment queries."""
import time, os
import z3
from . import terms as tm
from .terms import T

z3.set_param('smt.random_seed', int(os.environ.get('VERIF_SEED', '1') or 1) % 1000)
STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}
OBJ = z3.DeclareSort('Obj')
_sorts = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'O': OBJ, 'S': z3.StringSort()}
_memo = {}
_funcs = {}
INF = tm.var('INF', 'R')
DBLMAX = tm.var('DBLMAX', 'R')
NULLPTR = tm.app('nullptr', 'O')


def _fn(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    f = _funcs.get(k)
    if f is None:
        f = z3.Function(name, *sorts)
        _funcs[k] = f
    return f


def _template(t):
    """abstract the free variables of an opaque (binder) term, so instances share a function symbol"""
    order = []
    seen = set()

    def walk(x):
        if x in seen or not x.fv: return
        seen.add(x)
        if x.op == 'var':
            if x in t.fv and x not in order: order.append(x)
            return
        for a in x.args: walk(a)
    walk(t)
    m = {v: tm.var('%%%d' % i, v.sort) for i, v in enumerate(order)}
    return tm.subst(t, m), order


_LO, _HI = tm.var('%lo', 'I'), tm.var('%hi', 'I')


def z(t):
    r = _memo.get(t)
    if r is not None: return r
    o = t.op
    if o == 'num':
        if t.sort == 'I': r = z3.IntVal(int(t.data))
        else: r = z3.RealVal(str(t.data))
    elif o == 'true': r = z3.BoolVal(True)
    elif o == 'false': r = z3.BoolVal(False)
    elif o == 'str': r = z3.StringVal(t.data)
    elif o == 'var':
        nm = t.data if isinstance(t.data, str) else '$%d' % t.data[1]
        r = z3.Const(nm + ':' + t.sort, _sorts[t.sort])
    elif o == 'poly':
        ms = []
        zs = [z(a) for a in t.args]
        one = z3.RealVal if t.sort == 'R' else z3.IntVal
        for m, c in t.data:
            fs = []
            den = None
            if c.denominator != 1 and t.sort == 'I':
                fs.append(z3.IntVal(c.numerator)); den = c.denominator
            elif c != 1:
                fs.append(z3.RealVal(str(c)) if t.sort == 'R' else z3.IntVal(int(c)))
            for i, k in m: fs.extend([zs[i]] * k)
            if not fs: fs = [one(1)]
            e = fs[0]
            for f in fs[1:]: e = e * f
            ms.append(e)
        r = ms[0] if len(ms) == 1 else z3.Sum(ms)
    elif o == 'app' and any(x.sort == 'C' for x in t.args):
        tmpl, fvs = _template(t)
        if not fvs: r = z3.Const('fn#%d' % tmpl.id, _sorts[t.sort])
        else: r = _fn('fn#%d' % tmpl.id, *[_sorts[v.sort] for v in fvs], _sorts[t.sort])(*[z(v) for v in fvs])
    elif o == 'app':
        a = [z(x) for x in t.args]
        if t.data == 'toreal': r = z3.ToReal(a[0])
        elif t.data == 'inv': r = z3.RealVal(1) / a[0]
        elif t.data == 'idiv': r = a[0] / a[1]
        elif t.data == 'imod': r = a[0] % a[1]
        elif t.data == 'strcat': r = z3.Concat(a[0], a[1])
        elif not a: r = z3.Const(t.data + '()', _sorts[t.sort])
        else: r = _fn(t.data, *[_sorts[x.sort] for x in t.args], _sorts[t.sort])(*a)
    elif o == 'ite': r = z3.If(z(t.args[0]), z(t.args[1]), z(t.args[2]))
    elif o == 'not': r = z3.Not(z(t.args[0]))
    elif o == 'and': r = z3.And([z(x) for x in t.args])
    elif o == 'or': r = z3.Or([z(x) for x in t.args])
    elif o == 'le0': r = z(t.args[0]) <= 0
    elif o == 'lt0': r = z(t.args[0]) < 0
    elif o == 'eq0': r = z(t.args[0]) == 0
    elif o == 'eq': r = z(t.args[0]) == z(t.args[1])
    elif o in ('forall', 'exists'):
        v, b = tm.open_binder(t)
        zb = z(b)
        r = (z3.ForAll if o == 'forall' else z3.Exists)([z(v)], zb)
    elif o in ('sum', 'at', 'cloop', 'cseq', 'cleaf'):
        if t.sort == 'C':
            raise TypeError('tree in formula')
        if o == 'at':
            k, tree = t.args
            tmpl, fvs = _template(tree)
            a = [z(k)] + [z(v) for v in fvs]
            r = _fn('at#%d' % tmpl.id, *[x.sort() for x in a], _sorts[t.sort])(*a)
        else:
            sub = {}
            if o == 'sum':                 # one function for each summand: the limits are arguments
                v, b = tm.open_binder(t)
                g = tm.Sum(v, _LO, _HI, b)
                if g.op == 'sum':
                    sub = {_LO: t.args[0], _HI: t.args[1]}
                    t0, t = t, g
            tmpl, fvs = _template(t)
            if sub:
                a = [z(sub.get(v, v)) for v in fvs]
                r = _fn('sum#%d' % tmpl.id, *[x.sort() for x in a], _sorts[t.sort])(*a)
                _memo[t0] = r
                return r
            if not fvs: r = z3.Const('sum#%d' % tmpl.id, _sorts[t.sort])
            else: r = _fn('sum#%d' % tmpl.id, *[_sorts[v.sort] for v in fvs], _sorts[t.sort])(*[z(v) for v in fvs])
    else:
        raise TypeError(o)
    _memo[t] = r
    return r


_nonneg = tm.nonneg_name


def builtin_axioms(ts):
    """facts about interpreted functions occurring in the terms"""
    seen = set()
    for t in ts: tm.subterms(t, seen)
    out = []
    for s in seen:
        if any(isinstance(v.data, tuple) for v in s.fv):
            # bound variables: quantified axioms for the functions that need one
            if s.op == 'app' and s.sort == 'I' and _nonneg(s.data):
                vs = [tm.fresh('q', a.sort) for a in s.args]
                f = tm.le0(tm.neg(tm.app(s.data, 'I', *vs)))
                for v in vs: f = tm.forall(v, f)
                if f not in out: out.append(f)
            continue
        if s.op == 'app':
            if s.data == 'sqrt':
                x = s.args[0]
                out.append(tm.implies(tm.le(tm.ZR, x), tm.and_(tm.le(tm.ZR, s), tm.eq(tm.mul(s, s), x))))
            elif s.data == 'ceil':
                x = s.args[0]
                out.append(tm.and_(tm.le(x, s), tm.lt(s, tm.add(x, tm.OR1))))
            elif s.data == 'floor':
                x = s.args[0]
                out.append(tm.and_(tm.le(s, x), tm.lt(x, tm.add(s, tm.OR1))))
            elif s.sort == 'I' and _nonneg(s.data):
                out.append(tm.le0(tm.neg(s)))
        elif s.sort == 'I' and s.op in ('sum', 'ite') and tm.nonneg(s):
            out.append(tm.le0(tm.neg(s)))
    # running totals of the same non-negative summand are ordered by their upper limits
    grp = {}
    for s in seen:
        if s.op == 'sum' and s.sort == 'I' and not any(isinstance(v.data, tuple) for v in s.fv) and tm.nonneg(s):
            grp.setdefault((s.args[0], s.args[-1]), []).append(s)
    for ss in grp.values():
        if 2 <= len(ss) <= 6:
            for a in ss:
                nx = tm.add(a, tm.subst(a.args[-1], {a.data: a.args[1]}))
                for b in ss:
                    if a is b: continue
                    out.append(tm.implies(tm.le(a.args[1], b.args[1]), tm.le(a, b)))
                    out.append(tm.implies(tm.and_(tm.le(a.args[0], a.args[1]), tm.lt(a.args[1], b.args[1])), tm.le(nx, b)))
    # a total is non-negative, and monotone in its upper limit, unless a summand is negative somewhere
    grp = {}
    for s in seen:
        if s.op == 'sum' and s.sort == 'I' and not any(isinstance(v.data, tuple) for v in s.fv) and s.args[-1].op == 'app' and s.args[-1].data.endswith('|[o]') and not tm.nonneg(s):
            grp.setdefault((s.args[0], s.args[-1]), []).append(s)
    # totals of different summands over the same range agree unless the summands differ somewhere
    if grp:
        other = {}
        for s in seen:
            if s.op == 'sum' and s.sort == 'I' and not any(isinstance(v.data, tuple) for v in s.fv) and s.args[-1].op == 'app' and isinstance(s.args[-1].data, str):
                other.setdefault((s.args[0], s.args[-1]), []).append(s)
        for k, ss in list(grp.items()):
            for k2, ts in other.items():
                if k2 is k or k2 == k or k2[0] is not k[0] or len(other) > 4: continue
                hs = list(dict.fromkeys(x.args[1] for x in ss + ts))
                if len(hs) > 5: continue
                for h in hs:
                    x, y = tm.Sum(ss[0].data, k[0], h, ss[0].args[-1]), tm.Sum(ts[0].data, k[0], h, ts[0].args[-1])
                    if x.op == 'sum' and x not in ss: ss.append(x)
                    w = tm.app('witness', 'I', tm.num(x.id), tm.num(y.id))
                    out.append(tm.or_(tm.eq(x, y), tm.and_(tm.le(k[0], w), tm.lt(w, h), tm.ne(tm.subst(ss[0].args[-1], {ss[0].data: w}), tm.subst(ts[0].args[-1], {ts[0].data: w})))))
    for ss in grp.values():
        if len(ss) > 6: continue
        f = lambda a, k: tm.subst(a.args[-1], {a.data: k})
        for a in ss:
            w = tm.app('witness', 'I', tm.num(a.id), tm.num(a.id))
            out.append(tm.or_(tm.le(tm.ZI, a), tm.and_(tm.le(a.args[0], w), tm.lt(w, a.args[1]), tm.lt(f(a, w), tm.ZI))))
            for b in ss:
                if a is b: continue
                for nx, lo in ((a, a.args[1]), (tm.add(a, f(a, a.args[1])), tm.add(a.args[1], tm.OI))):
                    w = tm.app('witness', 'I', tm.num(nx.id), tm.num(b.id))
                    out.append(tm.or_(tm.lt(a.args[1], a.args[0]), tm.lt(b.args[1], lo), tm.le(nx, b), tm.and_(tm.le(lo, w), tm.lt(w, b.args[1]), tm.lt(f(a, w), tm.ZI))))
    if any(s is INF for s in seen):
        out.append(tm.le(tm.num(10 ** 40, 'R'), INF))
    if any(s is DBLMAX for s in seen):
        out.append(tm.le(tm.num(10 ** 39, 'R'), DBLMAX))
        out.append(tm.lt(DBLMAX, INF))
    return out


_cache = {}
UNS = tm.UNS


def check(facts, goal, timeout=4000, want_model=False):
    """is goal entailed by facts?  returns 'valid' | 'invalid' | 'unknown', model"""
    if goal is tm.TRUE: return ('valid', None)
    if goal in facts: return ('valid', None)
    key = (frozenset(f.id for f in facts), goal.id)
    c = _cache.get(key)
    if c is not None and (c[0] == 'valid' or not want_model) and c[2] >= timeout:
        return c[0], c[1]
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    base = list(facts) + [tm.not_(goal)]
    for f in facts: s.add(z(f))
    s.add(z3.Not(z(goal)))
    for f in builtin_axioms(base): s.add(z(f))
    r = s.check()
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    if r == z3.unsat: res = ('valid', None)
    elif r == z3.sat: res = ('invalid', s.model())
    else:
        res = ('unknown', s.reason_unknown())
        STATS['unknown'] += 1
    _cache[key] = (res[0], res[1], timeout)
    return res


def valid(facts, goal, timeout=2000):
    return check(facts, goal, timeout)[0] == 'valid'


def satisfiable(facts, timeout=2000):
    """'sat' | 'unsat' | 'unknown'"""
    r = check(facts, tm.FALSE, timeout)[0]
    return {'valid': 'unsat', 'invalid': 'sat', 'unknown': 'unknown'}[r]


tm.VALID_HOOK[0] = lambda ctx, g: valid(ctx, g, 500)
