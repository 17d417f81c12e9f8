"""Normal form of arithmetic terms with sums: sum of  coef * SUM_{binders} [guards] * monomial."""
from fractions import Fraction
import itertools
from . import terms as tm
from . import smt
from .terms import T, poly, from_poly, mono_mul


class Prod:
    __slots__ = ('c', 'b', 'g', 'm', 'sy')

    def __init__(s, c, b, g, m):
        s.c, s.b, s.g, s.m = c, b, g, m     # coef, [(v,lo,hi)], [guards], mono
        s.sy = None

    def __repr__(s):
        return '%s * SUM%s [%s] %s' % (s.c, [(tm.pp(v), tm.pp(l), tm.pp(h)) for v, l, h in s.b],
                                       ' & '.join(map(tm.pp, s.g)), tm.pp(from_poly({s.m: Fraction(1)}, 'R')) if s.m else '1')


class TooBig(Exception):
    pass


def expand(t, limit=4000):
    """list of Prods of an arithmetic term; binders opened with fresh variables"""
    out = []
    for m, c in poly(t).items():
        ps = [Prod(c, [], [], ())]
        for a, k in m:
            for _ in range(k):
                fs = expand_atom(a)
                ps = [Prod(x.c * f.c, x.b + f.b, x.g + f.g, mono_mul(x.m, f.m)) for x in ps for f in fs]
                if len(ps) > limit: raise TooBig()
        out.extend(ps)
        if len(out) > limit: raise TooBig()
    return out


def has_binder(t): return t.bh > 0


def expand_atom(a):
    if a.op == 'sum':
        v, body = tm.open_binder(a)
        return [Prod(p.c, [(v, a.args[0], a.args[1])] + p.b, p.g, p.m) for p in expand(body)]
    if a.op == 'ite':
        c, x, y = a.args
        out = []
        for g, z in ((c, x), (tm.not_(c), y)):
            for p in expand(z):
                out.append(Prod(p.c, p.b, [g] + p.g, p.m))
        return out
    if a.op == 'app' and a.data == 'toreal' and a.args[0].op in ('sum', 'ite', 'poly'):
        r = tm.to_real(a.args[0])
        if r is not a: return expand(r)
    return [Prod(Fraction(1), [], [], ((a, 1),))]


def flat_guards(gs):
    out = []
    for g in gs:
        if g.op == 'and': out.extend(flat_guards(g.args))
        else: out.append(g)
    return out


def subst_mono(m, s):
    """substitute in a monomial -> list of (coef, mono)"""
    p = {(): Fraction(1)}
    for a, k in m:
        b = tm.subst(a, s)
        for _ in range(k): p = tm.pmul(p, poly(b))
    return [(c, mm) for mm, c in p.items() if c != 0]


def perm_of(p, v):
    """the permutation application through which alone the binder v is used"""
    found = set()

    def walk(t):
        if v not in t.fv: return True
        if t is v: return False
        if t.op == 'app' and t.data in tm.PERMS and t.args[0] is v:
            found.add(t)
            return True
        return all(walk(a) for a in t.args)
    ts = [a for a, _ in p.m] + p.g + [x for w, a, b in p.b if w is not v for x in (a, b)]
    if not all(walk(t) for t in ts) or len(found) != 1: return None
    return found.pop()


def mono_map(m, f):
    out = ()
    for a, k in m:
        b = f(a)
        out = mono_mul(out, ((b, k),))
    return out


class Norm:
    def __init__(self, facts, timeout=1500, lemmas=True):
        self.facts = list(facts)
        self.symnames = None
        self.timeout = timeout
        self.budget = 400

    def valid(self, extra, goal):
        if goal is tm.TRUE: return True
        if goal is tm.FALSE and not extra: return False
        if self.budget <= 0: return False
        self.budget -= 1
        return smt.valid(self.facts + list(extra), goal, self.timeout)

    # -- one product -> list of simplified products
    def simp(self, p):
        work = [p]
        done = []
        n = 0
        while work:
            n += 1
            if n > 3000: raise TooBig()
            q = work.pop()
            r = self.step(q)
            if r is None: done.append(q)
            else: work.extend(r)
        return done

    def sub_all(self, p, v, e, drop, addg=()):
        s = {v: e}
        b = [(w, tm.subst(l, s), tm.subst(h, s)) for w, l, h in p.b if w is not drop]
        g = [tm.subst(x, s) for x in p.g] + list(addg)
        out = []
        for c, m in subst_mono(p.m, s):
            # new atoms may be sums / ites
            ps = [Prod(p.c * c, b, g, ())]
            for a, k in m:
                for _ in range(k):
                    fs = expand_atom(a)
                    ps = [Prod(x.c * f.c, x.b + f.b, x.g + f.g, mono_mul(x.m, f.m)) for x in ps for f in fs]
            out.extend(ps)
        return out

    def symmetric(self, p):
        """atoms M(..., i, j) of the product with M(..., i, j) = M(..., j, i)"""
        if self.symnames is None:
            self.symnames = set()
            for f in self.facts:
                for x in tm.subterms(f):
                    if x.op == 'eq0' and x.args[0].op == 'poly':
                        ms = [m[0][0] for m, c in poly(x.args[0]).items() if len(m) == 1 and abs(c) == 1]
                        if len(ms) == 2 and all(a.op == 'app' and isinstance(a.data, str) and a.data.endswith('|[,]') for a in ms) and ms[0].data == ms[1].data \
                                and ms[0].args[-1] is ms[1].args[-2] and ms[0].args[-2] is ms[1].args[-1]:
                            self.symnames.add(ms[0].data)
        out = set()
        if not self.symnames: return out
        for a, _ in p.m:
            if a.op == 'app' and a.data in self.symnames:
                b = tm.app(a.data, a.sort, *(a.args[:-2] + (a.args[-1], a.args[-2])))
                if self.valid(self.rngfacts(p) + p.g, tm.eq(a, b)): out.add(a)
        return out

    @staticmethod
    def named(p, a, names):
        r = tm.subst(a, names)
        if p.sy and a in p.sy and r.args[-1].id < r.args[-2].id: r = tm.app(r.data, r.sort, *(r.args[:-2] + (r.args[-1], r.args[-2])))
        return r

    def rngfacts(self, p):
        out = []
        for v, l, h in p.b: out += [tm.le(l, v), tm.lt(v, h)]
        return out

    def window(self, p, v, bvars):
        own, cand = set(), []
        for g in p.g:
            if g.op not in ('le0', 'lt0', 'eq0'): continue
            for m in poly(g.args[0]):
                for a, _ in m:
                    if a.op == 'sum' and a.sort == 'I':
                        if a.args[1] is v: own.add(a.args[-1])
                        elif not any(w in a.fv for w in bvars): cand.append((a.args[-1], a.args[1]))
        for body, e in cand:
            if body in own and self.valid(self.rngfacts(p) + p.g + [tm.ne(v, e)], tm.FALSE): return e
        return None

    def step(self, p):
        """None if normal, else replacement list"""
        p.g = flat_guards(p.g)
        gs, seen = [], set()
        for g in p.g:
            if g is tm.FALSE: return []
            if g is tm.TRUE or g in seen: continue
            if tm.not_(g) in seen: return []
            seen.add(g)
            gs.append(g)
        while True:
            j = tm.join_div(gs)
            if j is None: break
            if tm.FALSE in j: return []
            gs = [g for g in j if g is not tm.TRUE]
        p.g = gs
        # x * [x = 0] vanishes, x * [x != 0] is x
        for g in gs:
            e = g if g.op == 'eq0' else (g.args[0] if g.op == 'not' and g.args[0].op == 'eq0' else None)
            if e is None or e.args[0].sort != 'R': continue
            z = poly(e.args[0])
            if len(z) == 1 and next(iter(z)) and all(any(a is y and j >= k for y, j in p.m) for a, k in next(iter(z))):
                if e is g: return []
                return [Prod(p.c, p.b, [x for x in gs if x is not g], p.m)]
        bvars = {v for v, _, _ in p.b}
        # monomial atoms that became expandable
        for a, k in p.m:
            if a.op in ('sum', 'ite'):
                rest = tuple((x, j) if x is not a else (x, j - 1) for x, j in p.m)
                rest = tuple((x, j) for x, j in rest if j)
                return [Prod(p.c * f.c, p.b + f.b, p.g + f.g, mono_mul(rest, f.m)) for f in expand_atom(a)]
        # running totals whose summand is settled on the range of the binder that is their limit
        mp = {}
        for t in [a for a, _ in p.m] + p.g:
            for x in tm.subterms(t):
                if x.op == 'sum' and x.sort == 'I' and x not in mp and x.args[1] in bvars and not any(isinstance(w.data, tuple) for w in x.fv):
                    u, body = tm.open_binder(x)
                    ctx = self.rngfacts(p) + [tm.le(x.args[0], u), tm.lt(u, x.args[1])]
                    b2 = body
                    for c in [y.args[0] for y in tm.subterms(body) if y.op == 'ite']:
                        if self.valid(ctx, c): b2 = resolve(b2, c, True)
                        elif self.valid(ctx, tm.not_(c)): b2 = resolve(b2, c, False)
                    mp[x] = x if b2 is body else tm.ite(tm.le(x.args[0], x.args[1]), tm.Sum(u, x.args[0], x.args[1], b2), tm.ZI) if not b2.fv else tm.Sum(u, x.args[0], x.args[1], b2)
        if any(a is not b for a, b in mp.items()):
            rep = lambda x: tm.replace_atoms(x, lambda y: mp.get(y))
            return [Prod(p.c, p.b, [rep(g) for g in p.g], mono_map(p.m, rep))]
        # ites inside index positions: case split on conditions of ites nested in atoms mentioning binder vars
        for t in [a for a, _ in p.m] + p.g:
            c = find_ite(t, bvars)
            if c is not None:
                out = []
                for val in (True, False):
                    g = c if val else tm.not_(c)
                    r = Prod(p.c, p.b, [resolve(x, c, val) for x in p.g] + [g], ())
                    ms = [(Fraction(1), ())]
                    for a, k in p.m:
                        for _ in range(k):
                            a2 = resolve(a, c, val)
                            ms = [(c1 * c2, mono_mul(m1, m2)) for c1, m1 in ms for m2, c2 in poly(a2).items()]
                    out += [Prod(p.c * c1, r.b, r.g, m1) for c1, m1 in ms]
                return out
        # conditions the facts decide
        for t in [a for a, _ in p.m] + p.g + [e for _, l, h in p.b for e in (l, h)]:
            for x in tm.subterms(t):
                if x.op != 'ite' or any(isinstance(w.data, tuple) or w in bvars for w in x.args[0].fv): continue
                c = x.args[0]
                val = self.ground(c)
                if val is None: continue
                out = [Prod(p.c, [(v, resolve(l, c, val), resolve(h, c, val)) for v, l, h in p.b], [resolve(y, c, val) for y in p.g], ())]
                for a, k in p.m:
                    a2 = resolve(a, c, val)
                    for _ in range(k): out = [Prod(q.c * c2, q.b, q.g, mono_mul(q.m, m2)) for q in out for m2, c2 in poly(a2).items()]
                return out
        # the elements a condition selects, counted one by one
        for i, (v, l, h) in enumerate(p.b):
            r = self.counted(p, i, v, l, h)
            if r is not None: return r
        # a condition on one binder in the limit of another
        for w, l, h in p.b:
            c = next((a.args[0] for e in (l, h) for m in poly(e) for a, _ in m if a.op == 'ite' and any(v in a.args[0].fv for v in bvars)), None)
            if c is not None:
                out = []
                for val in (True, False):
                    r = Prod(p.c, [(v, resolve(a, c, val), resolve(b, c, val)) for v, a, b in p.b], [resolve(x, c, val) for x in p.g] + [c if val else tm.not_(c)], ())
                    ms = [(Fraction(1), ())]
                    for a, k in p.m:
                        for _ in range(k): ms = [(c1 * c2, mono_mul(m1, m2)) for c1, m1 in ms for m2, c2 in poly(resolve(a, c, val)).items()]
                    out += [Prod(p.c * c1, r.b, r.g, m1) for c1, m1 in ms]
                return out
        # re-index: a binder that occurs only in combinations v + e with the same e (over other binders)
        for i, (v, l, h) in enumerate(p.b):
            if v.sort != 'I': continue
            e = shift_of(p, v, bvars)
            if e is None: continue
            w = tm.fresh('k', 'I')
            nb = [(x, tm.subst(a, {v: tm.sub(w, e)}), tm.subst(b, {v: tm.sub(w, e)})) for x, a, b in p.b]
            nb[i] = (w, tm.add(l, e), tm.add(h, e))
            # order binders so that ranges mention earlier ones only (w depends on the binders of e)
            s = Prod(p.c, nb, p.g, p.m)
            return self.sub_all(s, v, tm.sub(w, e), None)
        # a running total as the limit of a window: one binder value is possible
        for i, (v, l, h) in enumerate(p.b):
            if v.sort != 'I' or any(w in e.fv for w in bvars for e in (l, h)): continue
            e = self.window(p, v, bvars)
            if e is not None: return self.sub_all(p, v, e, v, [tm.le(l, e), tm.lt(e, h)])
        # a binder that occurs only inside the same permutation of its whole range
        for i, (v, l, h) in enumerate(p.b):
            pt = perm_of(p, v)
            if pt is None or l is not tm.ZI: continue
            m = tm.PERMS[pt.data][0]
            if m is not h and not self.valid([], tm.eq(m, h)): continue
            rep = lambda x: tm.replace_atoms(x, lambda y: v if y is pt else None)
            return [Prod(p.c, p.b, [rep(g) for g in p.g], mono_map(p.m, rep))]
        # relax binder ranges that depend linearly on other binders into guards
        for i, (v, l, h) in enumerate(p.b):
            for which, e in (('l', l), ('h', h)):
                dep = [w for w in bvars if w in e.fv]
                if not dep: continue
                e2 = e
                ok = True
                for w in dep:
                    cw = lin_coef(e2, w)
                    if cw is None: ok = False; break
                    wl, wh = [(a, b) for x, a, b in p.b if x is w][0]
                    if (which == 'l') == (cw > 0): e2 = tm.subst(e2, {w: wl})
                    else: e2 = tm.subst(e2, {w: tm.sub(wh, tm.OI)})
                if not ok: continue
                if any(w in e2.fv for w in bvars): continue
                nb = list(p.b)
                for w in dep:      # prefer the range of the other binder, so that both range over the same interval
                    wl, wh = [(a, b) for x, a, b in p.b if x is w][0]
                    df = tm.sub(e2, wl) if which == 'l' else tm.sub(wh, e2)
                    if df.op == 'num' and df.data >= 0:
                        if which == 'l': e2 = wl
                        else: e2 = wh
                if which == 'l':
                    nb[i] = (v, e2, h); g = tm.le(e, v)
                else:
                    nb[i] = (v, l, e2); g = tm.lt(v, e)
                return [Prod(p.c, nb, p.g + [g], p.m)]
        # delta elimination
        for g in p.g:
            if g.op == 'eq0':
                q = g.args[0]
                for v, l, h in p.b:
                    if v.sort != 'I': continue
                    cf = lin_coef(q, v)
                    if cf in (1, -1):
                        rest = tm.sub(q, tm.scale(v, cf))
                        e = tm.scale(rest, -cf)
                        if v in e.fv: continue
                        # other binders' ranges depending on v while e depends on them: skip
                        bad = any(v in (lo.fv | hi.fv) and w in e.fv for w, lo, hi in p.b if w is not v)
                        if bad: continue
                        r = Prod(p.c, p.b, [x for x in p.g if x is not g], p.m)
                        return self.sub_all(r, v, e, v, [tm.le(l, e), tm.lt(e, h)])
        # the square of a square root
        for a, k in p.m:
            if k >= 2 and a.op == 'app' and a.data == 'sqrt' and self.valid(self.rngfacts(p) + p.g, tm.le(tm.ZR, a.args[0])):
                rest = tuple((x, j - 2 if x is a else j) for x, j in p.m if x is not a or j > 2)
                out = []
                for m, c in poly(a.args[0]).items():
                    ps = [Prod(p.c * c, p.b, p.g, rest)]
                    for x, j in m:
                        for _ in range(j):
                            ps = [Prod(q.c * f.c, q.b + f.b, q.g + f.g, mono_mul(q.m, f.m)) for q in ps for f in expand_atom(x)]
                    out += ps
                return out
        # a matrix without stored entries is zero
        for a, _ in p.m:
            if a.op == 'app' and isinstance(a.data, str) and a.data.endswith('|[,]') and len(a.args) >= 2:
                z = tm.eq(tm.app(a.data[:-4] + '|nnz', 'I', *a.args[:-2]), tm.ZI)
                if z in p.g or z in self.facts: return []
                if tm.not_(z) in p.g: return [Prod(p.c, p.b, [g for g in p.g if g is not tm.not_(z)], p.m)]
        # an entry that is not stored is zero
        for g in p.g:
            def nzel(x): return tm.app(x.data[:-3] + '|[,]', 'R', *x.args) if x.op == 'app' and isinstance(x.data, str) and x.data.endswith('|nz') else None
            oth = [x for x in p.g if x is not g]
            ms = [a for a, _ in p.m]
            if nzel(g) in ms: return [Prod(p.c, p.b, oth, p.m)]
            if g.op == 'not' and nzel(g.args[0]) in ms: return []
            if g.op == 'or':
                k = [x for x in g.args if not (x.op == 'not' and nzel(x.args[0]) in ms)]
                if len(k) < len(g.args): return [Prod(p.c, p.b, oth + [tm.or_(*k)], p.m)]
        r = self.totals(p)
        if r is not None: return r
        # permutation / comprehension elements
        for v, l, h in p.b:
            r = self.expand_at(p, v, l, h)
            if r is not None: return r
        # range tightening from guards
        for g in p.g:
            if g.op == 'le0':
                q = g.args[0]
                for i, (v, l, h) in enumerate(p.b):
                    if v.sort != 'I' or v not in q.fv: continue
                    cf = lin_coef(q, v)
                    if cf not in (1, -1): continue
                    rest = tm.sub(q, tm.scale(v, cf))
                    if any(w in rest.fv for w in bvars): continue
                    other = [x for x in p.g if x is not g]
                    outer = [x for x in other if not any(w in x.fv for w in bvars)]
                    ne = []
                    nb = list(p.b)
                    if cf == 1:  # v <= -rest
                        nh = tm.add(tm.neg(rest), tm.OI)
                        if self.valid(outer, tm.le(nh, h)): nb[i] = (v, l, nh)
                        elif self.valid(outer, tm.le(h, nh)): pass
                        else: continue
                    else:        # v >= rest
                        if self.valid(outer, tm.le(l, rest)): nb[i] = (v, rest, h)
                        elif self.valid(outer, tm.le(rest, l)): pass
                        else: continue
                    return [Prod(p.c, nb, other, p.m)]
            if g.op == 'not' and g.args[0].op == 'eq0':
                # a point taken out at one end of the range
                q = g.args[0].args[0]
                for i, (v, l, h) in enumerate(p.b):
                    if v.sort != 'I' or v not in q.fv: continue
                    cf = lin_coef(q, v)
                    if cf not in (1, -1): continue
                    e = tm.scale(tm.sub(q, tm.scale(v, cf)), -cf)
                    if any(w in e.fv for w in bvars): continue
                    nb = list(p.b)
                    other = [x for x in p.g if x is not g]
                    if tm.sub(tm.sub(h, tm.OI), e) is tm.ZI: nb[i] = (v, l, tm.sub(h, tm.OI))
                    elif e is l: nb[i] = (v, tm.add(l, tm.OI), h)
                    else: continue
                    return [Prod(p.c, nb, other, p.m)]
        # empty / one-point ranges, shifting, unused binders
        for i, (v, l, h) in enumerate(p.b):
            d = tm.sub(h, l)
            if d.op == 'num':
                if d.data <= 0: return []
                if d.data == 1:
                    return self.sub_all(p, v, l, v)
            if l is not tm.ZI:
                w = tm.fresh('k', 'I')
                s = Prod(p.c, p.b[:i] + [(w, tm.ZI, d)] + p.b[i + 1:], p.g, p.m)
                e = tm.add(w, l)
                nb = [(x, tm.subst(a, {v: e}), tm.subst(b, {v: e})) for x, a, b in s.b]
                s.b = nb
                return self.sub_all(s, v, e, None)
        for i, (v, l, h) in enumerate(p.b):
            used = any(v in g.fv for g in p.g) or any(v in a.fv for a, _ in p.m) or \
                any(v in (a.fv | b.fv) for x, a, b in p.b)
            if not used:
                outer = [x for x in p.g if not any(w in x.fv for w in bvars)]
                if not any(w in h.fv for w in bvars) and self.valid(outer, tm.le(tm.ZI, h)):
                    out = []
                    for m, c in poly(tm.to_real(h)).items():
                        out.append(Prod(p.c * c, p.b[:i] + p.b[i + 1:], p.g, mono_mul(p.m, m)))
                    return out
        # empty by facts
        for v, l, h in p.b:
            if not any(w in h.fv for w in bvars) and has_len_doubt(h) and self.valid([x for x in p.g if not any(w in x.fv for w in bvars)], tm.le(h, l)):
                return []
        # drop guards implied by facts and ranges
        for g in p.g:
            oth = [x for x in p.g if x is not g]
            if self.valid(self.rngfacts(p) + oth, g):
                return [Prod(p.c, p.b, oth, p.m)]
        if p.g and self.valid(self.rngfacts(p) + p.g, tm.FALSE):
            return []
        # disjunctive guards: drop impossible cases; split an interval condition on one binder into disjoint parts
        for g in p.g:
            if g.op != 'or' or not any(w in g.fv for w in bvars): continue
            oth = [x for x in p.g if x is not g]
            keep = [d for d in g.args if not self.valid(self.rngfacts(p) + oth, tm.not_(d))]
            if len(keep) < len(g.args):
                return [Prod(p.c, p.b, oth + [tm.or_(*keep)], p.m)] if keep else []
            ws = [w for w in bvars if w in g.fv]
            if len(ws) == 1 and len(g.args) <= 4 and all(d.op in ('le0', 'eq0') and lin_coef(d.args[0], ws[0]) in (1, -1) for d in g.args):
                d0, rest = g.args[0], tm.or_(*g.args[1:])
                return [Prod(p.c, p.b, oth + [d0], p.m), Prod(p.c, p.b, oth + [tm.not_(d0), rest], p.m)]
        return None

    def ground(self, c):
        if not hasattr(self, 'gmemo'): self.gmemo = {}
        if c not in self.gmemo:
            self.gmemo[c] = True if self.valid([], c) else False if self.valid([], tm.not_(c)) else None
        return self.gmemo[c]

    def counted(self, p, i, v, l, h):
        """the binder occurs only in the running total of an indicator that holds at it"""
        if v.sort != 'I' or any(v in (a.fv | b.fv) for w, a, b in p.b if w is not v): return None
        tot = None
        for t in [a for a, _ in p.m] + p.g:
            for x in tm.subterms(t):
                if x.op == 'sum' and x.sort == 'I' and x.args[1] is v and v not in x.args[-1].fv and v not in x.args[0].fv: tot = x
        if tot is None or tot.args[0] is not l: return None
        u, body = tm.open_binder(tot)
        if body.op != 'ite' or {body.args[1], body.args[2]} != {tm.ZI, tm.OI}: return None
        on = body.args[0] if body.args[1] is tm.OI else tm.not_(body.args[0])
        here = flat_guards([tm.subst(on, {u: v})])
        if not all(g in p.g for g in here): return None
        w = tm.fresh('k', 'I')
        rep = lambda t: tm.replace_atoms(t, lambda y: w if y is tot else None)
        gs = [rep(g) for g in p.g if g not in here]
        ms = mono_map(p.m, rep)
        if any(v in g.fv for g in gs): return None
        b = list(p.b)
        b[i] = (w, tm.ZI, tm.subst(tot, {v: h}))
        q = Prod(p.c, b, gs, ms)
        if any(v in a.fv for a, _ in (q.m if not isinstance(q.m, dict) else q.m)): return None
        return [q]

    def order(self, p, g, v):
        """a comparison of a position with another position (a binder of the same range or a running total)"""
        if g.op not in ('le0', 'lt0', 'eq0'): return False
        ms = tm.poly(g.args[0])
        vs = [m for m in ms if m]
        if len(vs) != 2 or any(len(m) != 1 or m[0][1] != 1 for m in vs) or sorted(ms[m] for m in vs) != [-1, 1]: return False
        a = [m[0][0] for m in vs]
        if v not in a: return False
        o = a[0] if a[1] is v else a[1]
        if o.op == 'sum': return True
        mine = [(x, y) for w, x, y in p.b if w is v]
        return any(w is o and (x, y) == mine[0] for w, x, y in p.b)

    def totals(self, p):
        """the order of two running totals of the same indicator is the order of their limits"""
        for g in p.g:
            if g.op not in ('le0', 'eq0') or g.args[0].sort != 'I': continue
            q = tm.poly(g.args[0])
            ms = [m for m in q if m]
            if len(ms) != 2 or any(len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'sum' for m in ms) or sorted(q[m] for m in ms) != [-1, 1]: continue
            x, y = sorted((m[0][0] for m in ms), key=lambda t: -q[((t, 1),)])
            c = q.get((), 0)
            if x.args[0] is not y.args[0] or x.args[-1] is not y.args[-1] or c not in (0, 1) or (c == 1 and g.op == 'eq0'): continue
            if not any(v in t.fv for v, _, _ in p.b for t in (x, y)): continue
            u, body = tm.open_binder(x)
            oth = [t for t in p.g if t is not g]
            ctx = self.rngfacts(p) + oth
            if not self.valid([], tm.le(tm.ZI, body)): continue
            e1, e2 = x.args[1], y.args[1]
            at = lambda e: tm.subst(body, {u: e})
            if not self.valid(ctx, tm.and_(tm.le(x.args[0], e1), tm.le(x.args[0], e2))): continue
            if g.op == 'le0' and c == 1 and self.valid(ctx, tm.le(tm.OI, at(e1))): r = tm.lt(e1, e2)
            elif g.op == 'le0' and c == 0 and self.valid(ctx, tm.le(tm.OI, at(e2))): r = tm.le(e1, e2)
            elif g.op == 'eq0' and c == 0 and self.valid(ctx, tm.and_(tm.le(tm.OI, at(e1)), tm.le(tm.OI, at(e2)))): r = tm.eq(e1, e2)
            else: continue
            return [Prod(p.c, p.b, oth + [r], p.m)]
        return None

    def expand_at(self, p, v, l, h):
        trees = set()
        other = False
        for t in [a for a, _ in p.m] + p.g + [x for w, a, b in p.b if w is not v for x in (a, b)]:
            if v not in t.fv: continue
            for s in walk_at(t, v, trees):
                other = True
        if not trees: return None
        trees = list(trees)
        n = tm.clen(trees[0])
        if l is not tm.ZI or (h is not n and not self.valid([], tm.eq(h, n))): return None
        if other:
            # positions may also be compared with each other: they become running totals
            if any(v in (a.fv | b.fv) for w, a, b in p.b if w is not v): return None
            if any(True for a, _ in p.m if v in a.fv for _ in walk_at(a, v, set())): return None
            for g in p.g:
                if v in g.fv and not (any(True for _ in walk_at(g, v, set())) is False or self.order(p, g, v)): return None
        lv = zip_leaves_at(trees)
        if lv is None: return None
        out = []
        for binders, guards, elems, position in lv:
            mp = {}
            for t, e in zip(trees, elems): mp[t] = e

            def rep(x):
                x = tm.replace_atoms(x, lambda y: mp.get(y.args[1]) if y.op == 'at' and y.args[0] is v else None)
                return tm.subst(x, {v: position}) if v in x.fv else x
            b = []
            for w, a, bb in p.b:
                if w is v: b.extend(binders)
                else: b.append((w, rep(a), rep(bb)))
            ps = [Prod(p.c, b, [rep(x) for x in p.g] + guards, ())]
            for a, k in p.m:
                a2 = rep(a)
                for _ in range(k):
                    ps = [Prod(x.c * c, x.b, x.g, mono_mul(x.m, m)) for x in ps for m, c in poly(a2).items()]
            out.extend(ps)
        return out

    # -- canonical key
    def key(self, p):
        n = len(p.b)
        best = None
        if p.sy is None: p.sy = self.symmetric(p)
        perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
        for pm in perms:
            # dependency order: a binder's range may only mention earlier ones
            names = {p.b[j][0]: tm.var('#%d' % i, 'I') for i, j in enumerate(pm)}
            ok = True
            for i, j in enumerate(pm):
                fv = p.b[j][1].fv | p.b[j][2].fv
                for k in pm[i:]:
                    if p.b[k][0] in fv: ok = False
            if not ok: continue
            rs = tuple((tm.subst(p.b[j][1], names).id, tm.subst(p.b[j][2], names).id) for j in pm)
            g = tuple(sorted(tm.subst(x, names).id for x in p.g))
            m = tuple(sorted((self.named(p, a, names).id, k) for a, k in p.m))
            kk = (rs, m, g)
            if best is None or kk < best[0]:
                best = (kk, pm, names)
        if best is None:
            best = ((('x', id(p)),), tuple(range(n)), {v: v for v, _, _ in p.b})
        return best

    def collect(self, prods):
        d = {}
        for p in prods:
            kk, pm, names = self.key(p)
            q = Prod(p.c, [(names[p.b[j][0]], tm.subst(p.b[j][1], names), tm.subst(p.b[j][2], names)) for j in pm],
                     sorted((tm.subst(x, names) for x in p.g), key=lambda t: t.id),
                     tuple(sorted(((self.named(p, a, names), k) for a, k in p.m), key=lambda q: q[0].id)))
            if kk in d:
                d[kk].c += q.c
            else:
                d[kk] = q
        d = {k: p for k, p in d.items() if p.c != 0}
        # merge complementary guards
        changed = True
        while changed:
            changed = False
            items = list(d.items())
            bykey = {}
            for k, p in items:
                for g in p.g:
                    rest = tuple(x.id for x in p.g if x is not g)
                    bykey.setdefault((tuple((v.id, l.id, h.id) for v, l, h in p.b), tuple((a.id, n) for a, n in p.m), rest, p.c), {})[g] = k
            for kk, gm in bykey.items():
                for g, k in gm.items():
                    ng = tm.not_(g)
                    if ng in gm and k in d and gm[ng] in d and gm[ng] != k:
                        p = d.pop(k); d.pop(gm[ng])
                        q = Prod(p.c, p.b, [x for x in p.g if x is not g], p.m)
                        res = []
                        q.b = list(q.b)
                        fresh = {v: tm.fresh('k', 'I') for v, _, _ in q.b}
                        q = Prod(q.c, [(fresh[v], tm.subst(l, fresh), tm.subst(h, fresh)) for v, l, h in q.b],
                                 [tm.subst(x, fresh) for x in q.g], tuple((tm.subst(a, fresh), n) for a, n in q.m))
                        res = self.simp(q)
                        d = self._addto(d, res)
                        changed = True
                        break
                if changed: break
        return d

    def _addto(self, d, prods):
        return self.collect0(list(d.values()) + prods)

    def collect0(self, prods):
        d = {}
        for p in prods:
            kk, pm, names = self.key(p)
            q = Prod(p.c, [(names[p.b[j][0]], tm.subst(p.b[j][1], names), tm.subst(p.b[j][2], names)) for j in pm],
                     sorted((tm.subst(x, names) for x in p.g), key=lambda t: t.id),
                     tuple(sorted(((self.named(p, a, names), k) for a, k in p.m), key=lambda q: q[0].id)))
            if kk in d: d[kk].c += q.c
            else: d[kk] = q
        return {k: p for k, p in d.items() if p.c != 0}

    def normalise(self, t):
        prods = []
        for p in expand(t): prods.extend(self.simp(p))
        d = self.collect(prods)
        d = self.parity(d)
        d = self.trichotomy(d)
        return d

    def parity(self, d):
        """a sum over twice a range is the sum over the even and over the odd positions, when the other summands are written that way"""
        half = {h for p in d.values() for v, l, h in p.b if l is tm.ZI and h.op != 'num' and
                any(v in x.fv and any(v in y.fv and y.sort == 'I' and lin_coef(y, v) == 2 for y in tm.subterms(x)) for x, _ in p.m)}
        if not half: return d
        out, hit = [], False
        for p in d.values():
            if len(p.b) == 1 and p.b[0][1] is tm.ZI and tm.scale(p.b[0][2], Fraction(1, 2)) in half:
                v, l, h = p.b[0]
                for k in (0, 1):
                    w = tm.fresh('k', 'I')
                    e = tm.add(tm.scale(w, 2), tm.num(k, 'I'))
                    q = self.sub_all(Prod(p.c, [(w, l, tm.scale(h, Fraction(1, 2)))] + list(p.b), p.g, p.m), v, e, v)
                    for r in q: out.extend(self.simp(r))
                hit = True
            else: out.append(p)
        return self.collect(out) if hit else d

    def pointwise(self, d):
        """products over the same binder ranges cancel when their bodies cancel for every value of the binders"""
        for strip in (True, False):
            groups = {}
            for k, p in d.items():
                q = Prod(Fraction(1), p.b, [], p.m if strip else ())
                kk, pm, names = self.key(q)
                groups.setdefault(kk, []).append((k, Prod(p.c, [(names[p.b[j][0]], tm.subst(p.b[j][1], names), tm.subst(p.b[j][2], names)) for j in pm],
                                                          [tm.subst(x, names) for x in p.g], tuple((tm.subst(a, names), n) for a, n in p.m))))
            for kk, ps in groups.items():
                if len(ps) > 24 or not any(p.g for _, p in ps): continue
                f0 = {v: tm.fresh('k', 'I') for v, _, _ in ps[0][1].b}
                body = []
                for _, p in ps:
                    m = tuple((tm.subst(a, f0), n) for a, n in p.m) if not strip else ()
                    body.append(tm.scale(tm.ite(tm.and_(*[tm.subst(g, f0) for g in p.g]), from_poly({m: Fraction(1)}, 'R'), tm.num(0, 'R')), p.c))
                rng = []
                for v, l, h in ps[0][1].b: rng += [tm.le(tm.subst(l, f0), f0[v]), tm.lt(f0[v], tm.subst(h, f0))]
                self.budget = max(self.budget, 20)
                if self.valid(rng, tm.eq(tm.add(tm.num(0, 'R'), *body), tm.num(0, 'R'))):
                    d = {k: p for k, p in d.items() if not any(k is x or k == x for x, _ in ps)}
            if not d: break
        return d

    def trichotomy(self, d):
        """split unguarded pairs of equal-range binders when some product has an order guard between such a pair"""
        def pairs(p):
            out = []
            for (v, l, h), (w, l2, h2) in itertools.combinations(p.b, 2):
                if l is l2 and h is h2: out.append((v, w))
            return out

        def ordered(p):
            for v, w in pairs(p):
                for g in p.g:
                    if g.op == 'le0' and v in g.fv and w in g.fv: return True
            return False
        def swaps(p, v, w):
            s = {v: w, w: v}
            return sorted((tm.subst(a, s).id, n) for a, n in p.m) == sorted((a.id, n) for a, n in p.m)
        if not any(ordered(p) for p in d.values()): return d
        prods = []
        depths = {len(p.b) for p in d.values() if ordered(p)}
        for p in d.values():
            if len(p.b) not in depths:
                prods.append(p); continue
            todo = [(v, w) for v, w in pairs(p) if not any(v in g.fv and w in g.fv for g in p.g)]
            if not todo:
                prods.append(p); continue
            sym = [x for x in todo if swaps(p, *x)] if len(p.b) > 2 else []
            if len(p.b) > 2 and not sym and any(swaps(p, *x) for x in pairs(p)):
                prods.append(p); continue
            v, w = (sym or todo)[0]
            for g in (tm.lt(v, w), tm.eq(v, w), tm.lt(w, v)):
                f = {x: tm.fresh('k', 'I') for x, _, _ in p.b}
                q = Prod(p.c, [(f[x], l, h) for x, l, h in p.b], [tm.subst(x, f) for x in p.g + [g]],
                         tuple((tm.subst(a, f), n) for a, n in p.m))
                prods.extend(self.simp(q))
        return self.collect0(prods)

    def rebuild(self, d, sort='R'):
        out = []
        for p in d.values():
            outer = [g for g in p.g if not any(v in g.fv for v, _, _ in p.b)]
            inner = [g for g in p.g if g not in outer]
            body = from_poly({p.m: Fraction(1)}, sort)
            if inner: body = tm.ite(tm.and_(*inner), body, num0(sort))
            for v, l, h in reversed(p.b): body = tm.Sum(v, l, h, body)
            if outer: body = tm.ite(tm.and_(*outer), body, num0(sort))
            out.append(tm.scale(body, p.c))
        return tm.add(num0(sort), *out)


def num0(s): return tm.num(0, s)


def lin_coef(e, v):
    """coefficient of v if e is linear in it with numeric coefficient and no other occurrence, else None"""
    c = None
    for m, k in poly(e).items():
        occ = [a for a, _ in m if v in a.fv]
        if not occ: continue
        if len(m) == 1 and m[0] == (v, 1): c = k
        else: return None
    return c


def shift_of(p, v, bvars):
    """e with v occurring only inside index terms v + e, e mentioning another binder; None otherwise"""
    found = set()
    bad = []

    def walk(t):
        if v not in t.fv: return
        if t is v: bad.append(1); return
        if t.op == 'poly' and t.sort == 'I':
            c = lin_coef(t, v)
            if c == 1: found.add(tm.sub(t, v))
            else: bad.append(1)
            return
        if t.bh > 0 and t.op in tm.BINDERS: bad.append(1); return
        for a in t.args: walk(a)
    for a, k in p.m: walk(a)
    if bad or len(found) != 1: return None
    e = next(iter(found))
    if not any(w in e.fv for w in bvars): return None
    if any(v in (a.fv | b.fv) for w, a, b in p.b): return None
    return e


def has_len_doubt(h): return h.op == 'num' or True


def find_ite(t, bvars):
    """condition of an ite nested in t, that mentions a binder variable"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.fv.isdisjoint(bvars): continue
        if x.op == 'ite' and not any(isinstance(v.data, tuple) for v in x.args[0].fv):
            return x.args[0]
        if x.op == 'at':
            st.append(x.args[0])
            continue
        st.extend(x.args)
    return None


def resolve(t, c, val):
    return tm.replace_atoms(t, lambda x: (x.args[1] if val else x.args[2]) if x.op == 'ite' and x.args[0] is c else None)


def walk_at(t, v, trees):
    """collect trees of at(v,tree) in t; yields something if v occurs elsewhere"""
    if v not in t.fv: return
    if t.op == 'at' and t.args[0] is v and v not in t.args[1].fv:
        trees.add(t.args[1])
        return
    if t is v:
        yield t
        return
    for a in t.args: yield from walk_at(a, v, trees)


def zip_leaves(trees):
    """list of (binders, guards, [elem per tree]) or None when shapes differ"""
    r = zip_leaves_at(trees)
    return None if r is None else [x[:3] for x in r]


def zip_leaves_at(trees):
    """the same with the position of the leaf"""
    t0 = trees[0]
    if any(t.op != t0.op or len(t.args) != len(t0.args) for t in trees): return None
    if t0.op == 'cseq':
        out, off = [], tm.ZI
        for i in range(len(t0.args)):
            r = zip_leaves_at([t.args[i] for t in trees])
            if r is None: return None
            out += [(b, g, e, tm.add(off, o)) for b, g, e, o in r]
            off = tm.add(off, tm.clen(t0.args[i]))
        return out
    if t0.op == 'cleaf':
        if any(t.args[0] is not t0.args[0] for t in trees): return None
        g = t0.args[0]
        return [([], [] if g is tm.TRUE else [g], [t.args[1] for t in trees], tm.ZI)]
    if t0.op == 'cloop':
        if any(t.args[0] is not t0.args[0] or t.args[1] is not t0.args[1] for t in trees): return None
        v, b0 = tm.open_binder(t0)
        bs = [b0] + [tm.open_binder(t, v)[1] for t in trees[1:]]
        r = zip_leaves_at(bs)
        if r is None: return None
        w, bw = tm.open_binder(t0)
        before = tm.Sum(w, t0.args[0], v, tm.clen(bw))
        return [([(v, t0.args[0], t0.args[1])] + b, g, e, tm.add(before, o)) for b, g, e, o in r]
    return None
