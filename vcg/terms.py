"""Hash-consed first-order terms with sums.  Integers are mathematical, doubles are reals.

Arithmetic terms (sorts I and R) are kept as canonical polynomials over atoms, so syntactic equality already decides
ring identities.  Binders (sum / forall / exists) are alpha-canonical: the bound variable is named by binder height."""
from fractions import Fraction
from math import gcd
import itertools

_tab = {}
_ids = itertools.count(1)


PERMS = {}       # name of a permutation function -> (length, name of its inverse)


class T:
    __slots__ = ('op', 'args', 'sort', 'data', 'id', 'fv', 'bh', '_p')

    def __repr__(self):
        return pp(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    # arithmetic sugar used by contracts and models
    def __add__(self, o): return add(self, lift(o, self.sort))
    def __radd__(self, o): return add(lift(o, self.sort), self)
    def __sub__(self, o): return sub(self, lift(o, self.sort))
    def __rsub__(self, o): return sub(lift(o, self.sort), self)
    def __mul__(self, o): return mul(self, lift(o, self.sort))
    def __rmul__(self, o): return mul(lift(o, self.sort), self)
    def __neg__(self): return neg(self)


_EMPTY = frozenset()


def _mk(op, args, sort, data=None):
    key = (op, tuple(a.id for a in args), sort, data)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.data = op, tuple(args), sort, data
        t.id = next(_ids)
        if op == 'var':
            t.fv, t.bh = frozenset((t,)), 0
        elif op in BINDERS:
            bv = data
            # args[-1] is the body, others (lo, hi) are outside the scope
            fv = args[-1].fv - {bv}
            for a in args[:-1]:
                fv |= a.fv
            t.fv = fv
            t.bh = max([args[-1].bh + 1] + [a.bh for a in args[:-1]])
        else:
            if not args:
                t.fv, t.bh = _EMPTY, 0
            elif len(args) == 1:
                t.fv, t.bh = args[0].fv, args[0].bh
            else:
                fv = args[0].fv
                for a in args[1:]:
                    if a.fv and not a.fv <= fv:
                        fv = fv | a.fv
                t.fv = fv
                t.bh = max(a.bh for a in args)
        t._p = None
        _tab[key] = t
    return t


BINDERS = ('sum', 'forall', 'exists', 'cloop')

TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def num(v, sort='I'):
    return _mk('num', (), sort, Fraction(v))


def I(v): return num(v, 'I')
def R(v): return num(v, 'R')


ZI, OI, ZR, OR1 = num(0, 'I'), num(1, 'I'), num(0, 'R'), num(1, 'R')


def var(name, sort):
    return _mk('var', (), sort, name)


_fresh = itertools.count(1)


def fresh(prefix, sort):
    return var('%s!%d' % (prefix, next(_fresh)), sort)


def bvar(h, sort):
    return var(('$', h), sort)


def app(name, sort, *args):
    return _mk('app', args, sort, name)


def lift(x, sort):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        return num(Fraction(x), sort)
    return num(x, sort)


def string(s):
    return _mk('str', (), 'S', s)


# ---------------------------------------------------------------- polynomials
# a poly is a dict {mono: coef}, mono = tuple of (atom, power) sorted by atom id
def poly(t):
    """dict mono->coef of an arithmetic term"""
    if t._p is not None:
        return t._p
    if t.op == 'num':
        p = {(): t.data} if t.data != 0 else {}
    elif t.op == 'poly':
        p = dict(t.data_items())
    else:
        p = {((t, 1),): Fraction(1)}
    t._p = p
    return p


def _data_items(self):
    # self.data is tuple of ((indices..),coef), atoms in args
    return [(tuple((self.args[i], k) for i, k in m), c) for m, c in self.data]


T.data_items = _data_items


def monokey(m):
    return tuple((a.id, k) for a, k in m)


def from_poly(p, sort):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return num(0, sort)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    atoms = sorted({a for m in p for a, _ in m}, key=lambda a: a.id)
    idx = {a: i for i, a in enumerate(atoms)}
    data = tuple(sorted(((tuple((idx[a], k) for a, k in m), c) for m, c in p.items())))
    t = _mk('poly', atoms, sort, data)
    return t


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, k in b:
        d[x] = d.get(x, 0) + k
    return tuple(sorted(((x, k) for x, k in d.items() if k), key=lambda q: q[0].id))


def add(*ts):
    ts = [t for t in ts]
    sort = 'R' if any(t.sort == 'R' for t in ts) else 'I'
    p = {}
    for t in ts:
        if sort == 'R' and t.sort == 'I':
            t = to_real(t)
        for m, c in poly(t).items():
            p[m] = p.get(m, 0) + c
    return from_poly(p, sort)


def scale(t, c):
    c = Fraction(c)
    if c == 1:
        return t
    return from_poly({m: k * c for m, k in poly(t).items()}, t.sort)


def neg(t): return scale(t, -1)


def sub(a, b):
    if a is b:
        return num(0, a.sort)
    return add(a, neg(b))


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return r


def mul(*ts):
    sort = 'R' if any(t.sort == 'R' for t in ts) else 'I'
    p = {(): Fraction(1)}
    for t in ts:
        if sort == 'R' and t.sort == 'I':
            t = to_real(t)
        p = pmul(p, poly(t))
    return from_poly(p, sort)


def to_real(t):
    if t.sort == 'R':
        return t
    if t.op == 'num':
        return num(t.data, 'R')
    if t.op == 'poly':
        p = {}
        for m, c in poly(t).items():
            q = {(): c}
            for a, k in m:
                for _ in range(k):
                    q = pmul(q, poly(to_real(a)))
            for mm, cc in q.items():
                p[mm] = p.get(mm, 0) + cc
        return from_poly(p, 'R')
    if t.op == 'ite':
        return ite(t.args[0], to_real(t.args[1]), to_real(t.args[2]))
    if t.op == 'sum':
        v, body = open_binder(t)
        return Sum(v, t.args[0], t.args[1], to_real(body))
    return _mk('app', (t,), 'R', 'toreal')


def inv(b):
    if b.op == 'num' and b.data != 0:
        return num(1 / b.data, 'R')
    # normalise scalar factor
    p = poly(b)
    if len(p) == 1:
        (m, c), = p.items()
        if c != 1 and m:
            return scale(inv(from_poly({m: Fraction(1)}, 'R')), 1 / c)
    return _mk('app', (b,), 'R', 'inv')


def div(a, b):
    a, b = to_real(a), to_real(b)
    if a is b and a.op == 'num' and a.data != 0:
        return OR1
    return mul(a, inv(b))


def idiv(a, b):
    """C++ integer division, for the non-negative operands it is used on"""
    if a.op == 'num' and b.op == 'num' and b.data != 0:
        q = abs(a.data) // abs(b.data)
        return num(q if (a.data >= 0) == (b.data > 0) else -q, 'I')
    if b.op == 'num' and b.data == 1:
        return a
    return app('idiv', 'I', a, b)


def imod(a, b):
    if a.op == 'num' and b.op == 'num' and b.data != 0:
        r = abs(a.data) % abs(b.data)
        return num(r if a.data >= 0 else -r, 'I')
    if b.op == 'num' and b.data == 1:
        return ZI
    return app('imod', 'I', a, b)


# ---------------------------------------------------------------- booleans
_NOT = {}


def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    r = _NOT.get(a)
    if r is None: r = _NOT[a] = _not(a)
    return r


def _not(a):
    if a.op == 'le0':
        p = a.args[0]
        if p.sort == 'I':
            return le0(add(neg(p), OI))
        return lt0(neg(p))
    if a.op == 'lt0':
        return le0(neg(a.args[0]))
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'forall':
        v, b = open_binder(a)
        return exists(v, not_(b))
    if a.op == 'exists':
        v, b = open_binder(a)
        return forall(v, not_(b))
    return _mk('not', (a,), 'B')


def and_(*xs):
    s = {}
    st = list(xs)
    out = []
    while st:
        x = st.pop(0)
        if x is TRUE or x.id in s:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            st = list(x.args) + st
            continue
        s[x.id] = x
        out.append(x)
    for x in out:
        n = not_(x) if x.op not in ('forall', 'exists') else None
        if n is not None and n.id in s:
            return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    j = join_div(out)
    if j is not None: return and_(*j)
    out.sort(key=lambda t: t.id)
    return _mk('and', out, 'B')


def join_div(out):
    """x / c == e and x % c == k  is  x == c e + k"""
    for q in out:
        if q.op != 'eq0' or q.args[0].sort != 'I': continue
        for mono, k in poly(q.args[0]).items():
            if len(mono) != 1 or mono[0][1] != 1 or k not in (1, -1): continue
            a = mono[0][0]
            if a.op != 'app' or a.data != 'idiv' or a.args[1].op != 'num' or a.args[1].data < 2 or a.args[0].op == 'num': continue
            c = int(a.args[1].data)
            e = sub(a, scale(q.args[0], k))         # q says a == e
            if a in subterms(e): continue
            m = imod(a.args[0], a.args[1])
            for r in out:
                v = None
                if r.op == 'eq0' and m in subterms(r):
                    d = sub(m, r.args[0])
                    if d.op != 'num': d = add(m, r.args[0])
                    if d.op == 'num': v = d.data
                elif c == 2 and r.op == 'not' and r.args[0] is eq(m, ZI): v = 1
                elif c == 2 and r.op == 'not' and r.args[0] is eq(m, OI): v = 0
                if v is None: continue
                if not 0 <= v < c: return [FALSE]
                return [x for x in out if x is not q and x is not r] + [eq(a.args[0], add(scale(e, c), num(v, 'I')))]
    return None


def or_(*xs):
    s = {}
    st = list(xs)
    out = []
    while st:
        x = st.pop(0)
        if x is FALSE or x.id in s:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            st = list(x.args) + st
            continue
        s[x.id] = x
        out.append(x)
    for x in out:
        n = not_(x) if x.op not in ('forall', 'exists', 'and') else None
        if n is not None and n.id in s:
            return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('or', out, 'B')


def implies(a, b): return or_(not_(a), b)


def _norm_cmp(p, sort, eqn):
    d = poly(p)
    if not d:
        return p
    if sort == 'I':
        l = 1
        for c in d.values():
            l = l * c.denominator // gcd(l, c.denominator)
        cs = {m: c * l for m, c in d.items()}
        g = 0
        for m, c in cs.items():
            if m != () or eqn:
                g = gcd(g, int(c))
        if g == 0: g = 1
        if eqn:
            cs = {m: c / g for m, c in cs.items()}
        else:
            # p <= 0 : divide and round the constant up (c + k*x <= 0)
            k = cs.get((), Fraction(0))
            cs = {m: c / g for m, c in cs.items() if m != ()}
            kk = -((-k) // g)  # ceil(k/g)
            cs[()] = Fraction(kk)
        d = cs
    else:
        key = min((m for m in d), key=lambda m: (m == (), monokey(m)))
        c = abs(d[key])
        d = {m: k / c for m, k in d.items()}
    if eqn:
        key = min((m for m in d), key=lambda m: (m == (), monokey(m)))
        if d[key] < 0:
            d = {m: -k for m, k in d.items()}
    return from_poly(d, sort)


def le0(p):
    if p.op == 'num':
        return TRUE if p.data <= 0 else FALSE
    return _mk('le0', (_norm_cmp(p, p.sort, False),), 'B')


def lt0(p):
    if p.op == 'num':
        return TRUE if p.data < 0 else FALSE
    if p.sort == 'I':
        return le0(add(p, OI))
    return _mk('lt0', (_norm_cmp(p, p.sort, False),), 'B')


def _coerce(a, b):
    if not isinstance(a, T): a = lift(a, b.sort)
    if not isinstance(b, T): b = lift(b, a.sort)
    if a.sort != b.sort:
        if {a.sort, b.sort} == {'I', 'R'}:
            return to_real(a), to_real(b)
        if {a.sort, b.sort} == {'I', 'B'}:
            f = lambda t: ite(t, OI, ZI) if t.sort == 'B' else t
            return f(a), f(b)
    return a, b


def le(a, b):
    a, b = _coerce(a, b)
    d = sub(a, b)
    if d.sort == 'I' and d.op == 'poly' and all(c <= 0 and all(nonneg(x) for x, k in m if k % 2) for m, c in poly(d).items()): return TRUE
    return le0(d)


def lt(a, b):
    a, b = _coerce(a, b)
    return lt0(sub(a, b))


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    a, b = _coerce(a, b)
    if a is b: return TRUE
    if a.sort in 'IR' and len(a.sort) == 1:
        p = sub(a, b)
        if p.op == 'num':
            return TRUE if p.data == 0 else FALSE
        d = poly(p)
        if p.sort == 'I' and len(d) <= 2:
            # a number chosen by a condition
            ms = [(m, c) for m, c in d.items() if m]
            if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][1] == 1:
                x = ms[0][0][0][0]
                if x.op == 'ite' and x.args[1].op == 'num' and x.args[2].op == 'num':
                    k = d.get((), 0)
                    t, f = ms[0][1] * x.args[1].data + k == 0, ms[0][1] * x.args[2].data + k == 0
                    return (TRUE if f else x.args[0]) if t else (not_(x.args[0]) if f else FALSE)
        q = _norm_cmp(p, p.sort, True)
        if p.sort == 'I' and any(c.denominator != 1 for c in poly(q).values()):
            return FALSE if all(not m or True for m in poly(q)) and _int_unsat(q) else _mk('eq0', (q,), 'B')
        return _mk('eq0', (q,), 'B')
    if a.sort == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if a.op == 'ite' and a.sort not in 'IR':
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and b.sort not in 'IR':
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == 'app' and b.op == 'app' and isinstance(a.data, str) and isinstance(b.data, str) and a.data.startswith('obj#') and b.data.startswith('obj#'):
        # objects allocated at different places, or in different iterations, are different
        if a.data != b.data: return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if b.id < a.id: a, b = b, a
    return _mk('eq', (a, b), 'B')


def _int_unsat(q):
    return False


def ne(a, b): return not_(eq(a, b))


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort:
            a, b = _coerce(a, b)
        if a.sort == 'B':
            return and_(or_(not_(c), a), or_(c, b))
        if c.op == 'not' or (c.op == 'lt0'):
            nc = not_(c)
            if nc.op in ('le0', 'eq', 'eq0', 'app') or c.op == 'not':
                return ite(nc, b, a)
        # collapse nested same-condition
        a = _under(a, c, True)
        b = _under(b, c, False)
        if a is b: return a
        if c.op == 'app' and isinstance(c.data, str) and c.data.endswith('|nz'):
            # an entry that is not stored is zero
            e = app(c.data[:-3] + '|[,]', 'R', *c.args)
            b = subst(b, {e: ZR})
            if subst(a, {e: ZR}) is b: return a
        elif c.op in ('and', 'or'):
            for x in c.args:
                y = x if c.op == 'and' else x.args[0] if x.op == 'not' else None
                if y is not None and y.op == 'app' and isinstance(y.data, str) and y.data.endswith('|nz'):
                    z = {app(y.data[:-3] + '|[,]', 'R', *y.args): ZR}
                    if subst(a, z) is subst(b, z):
                        return ite((and_ if c.op == 'and' else or_)(*[w for w in c.args if w is not x]), a, b)
        return _mk('ite', (c, a, b), a.sort)
    raise TypeError('ite on %r %r' % (a, b))


def _under(t, c, val):
    if t.op == 'ite' and t.args[0] is c:
        return t.args[1] if val else t.args[2]
    return t


def max_(a, b):
    a, b = _coerce(a, b)
    return ite(le(a, b), b, a)


def min_(a, b):
    a, b = _coerce(a, b)
    return ite(le(a, b), a, b)


UNS = set()          # names of unsigned quantities


def nonneg_name(d): return isinstance(d, str) and (d.endswith('|#len') or d.endswith('|#rows') or d.endswith('|#cols') or d.endswith('|nnz') or d in UNS)


def nonneg(t):
    """syntactically certain non-negativity of an integer term"""
    if t.op == 'num': return t.data >= 0
    if t in NN: return True
    if t.op == 'app': return nonneg_name(t.data) or (t.data in ('idiv', 'imod') and nonneg(t.args[0]) and nonneg(t.args[1]))
    if t.op == 'ite':
        c, a, b = t.args
        if nonneg(a) and nonneg(b): return True
        # max(0, x)
        if b.op == 'num' and b.data >= 0 and c is le(ZI, a): return True
        if a.op == 'num' and a.data >= 0 and (c is le(b, ZI) or c is lt(b, ZI)): return True
        return False
    if t.op == 'sum':
        return nonneg(t.args[2])
    if t.op == 'poly':
        return all(c >= 0 and all(nonneg(a) for a, k in m if k % 2) for m, c in poly(t).items())
    return False


VALID_HOOK = [None]
NN = set()           # lengths of sequences: non-negative by construction


def is_len(t, ctx=()):
    if not ctx: NN.add(t)
    return t



def max0(n, ctx=()):
    if nonneg(n): return n
    if n.op == 'num': return ZI
    if ctx and VALID_HOOK[0] is not None and n.bh == 0 and VALID_HOOK[0](list(ctx), le(ZI, n)): return n
    return ite(le(ZI, n), n, ZI)


def abs_(a): return ite(le(lift(0, a.sort), a), a, neg(a))


# ---------------------------------------------------------------- binders
def _close(op, v, body, pre, sort):
    h = body.bh + 1
    b = bvar(h, v.sort)
    nb = subst(body, {v: b}) if v in body.fv else body
    # body height may change through simplification
    if nb.bh + 1 != h and v in body.fv:
        h2 = nb.bh + 1
        b2 = bvar(h2, v.sort)
        nb = subst(nb, {b: b2})
        b = b2
    return _mk(op, tuple(pre) + (nb,), sort, b)


def open_binder(t, v=None):
    """fresh variable and body of a binder term"""
    b = t.data
    v = v or fresh('k', b.sort)
    return v, subst(t.args[-1], {b: v})


def Sum(v, lo, hi, body):
    """sum of body for v in [lo,hi); zero when hi<=lo"""
    if not isinstance(lo, T): lo = lift(lo, 'I')
    if not isinstance(hi, T): hi = lift(hi, 'I')
    s = body.sort
    d = sub(hi, lo)
    if d.op == 'num' and d.data <= 0:
        return num(0, s)
    if d.op == 'num' and d.data <= 4:
        return add(num(0, s), *[subst(body, {v: add(lo, num(i))}) for i in range(int(d.data))])
    if v not in body.fv and s == 'I': return mul(body, max0(d))
    p = {}
    for m, c in poly(body).items():
        out, inn = [], []
        for a, k in m:
            (inn if v in a.fv else out).append((a, k))
        if not inn: st = max0(d) if s == 'I' else to_real(max0(d))
        else: st = _close('sum', v, from_poly({tuple(inn): Fraction(1)}, s), (lo, hi), s)
        for mm, cc in pmul({tuple(out): c}, poly(st)).items():
            p[mm] = p.get(mm, 0) + cc
    return from_poly(p, s)


def forall(v, body):
    if body in (TRUE, FALSE): return body
    if v not in body.fv: return body
    return _close('forall', v, body, (), 'B')


def exists(v, body):
    if body in (TRUE, FALSE): return body
    if v not in body.fv: return body
    return _close('exists', v, body, (), 'B')


def forall_in(lo, hi, f, sort='I'):
    v = fresh('q', sort)
    return forall(v, implies(and_(le(lo, v), lt(v, hi)), f(v)))


def exists_in(lo, hi, f):
    v = fresh('q', 'I')
    return exists(v, and_(le(lo, v), lt(v, hi), f(v)))


# ---------------------------------------------------------------- comprehension trees (irregular sequences)
def cseq(*ts):
    out = []
    for t in ts:
        if t.op == 'cseq':
            out.extend(t.args)
        else:
            out.append(t)
    if len(out) == 1: return out[0]
    return _mk('cseq', out, 'C')


def cleaf(guard, elem):
    return _mk('cleaf', (guard, elem), 'C')


def cloop(v, lo, hi, body):
    return _close('cloop', v, body, (lo, hi), 'C')


def clen(t, ctx=()): return is_len(clen_(t, ctx), ctx)


def clen_(t, ctx=()):
    if t.op == 'cseq':
        return add(ZI, *[clen(a, ctx) for a in t.args])
    if t.op == 'cleaf':
        return ite(t.args[0], OI, ZI)
    if t.op == 'cloop':
        v, b = open_binder(t)
        l = clen(b, tuple(ctx) + (le(t.args[0], v), lt(v, t.args[1])))
        if l is OI:
            return max0(sub(t.args[1], t.args[0]), ctx)
        return Sum(v, t.args[0], t.args[1], l)
    raise ValueError(t.op)


def cmap(t, f):
    """apply f to leaf elements"""
    if t.op == 'cseq':
        return cseq(*[cmap(a, f) for a in t.args])
    if t.op == 'cleaf':
        return cleaf(t.args[0], f(t.args[1]))
    v, b = open_binder(t)
    return cloop(v, t.args[0], t.args[1], cmap(b, f))


def leaf_count(ls):
    """number of the leaves that are taken"""
    pos = [x.args[0] for x in ls if x.args[0].op != 'not'] + [x.args[0].args[0] for x in ls if x.args[0].op == 'not']
    cs = [g for i, g in enumerate(pos) if g is not TRUE and g not in pos[:i]]
    if len(cs) != 1: return add(ZI, *[clen(x) for x in ls])
    c = cs[0]
    return ite(c, num(sum(1 for x in ls if x.args[0] is TRUE or x.args[0] is c)), num(sum(1 for x in ls if x.args[0] is TRUE or x.args[0] is not_(c))))


def cat_(k, tree, sort):
    r = _mk('at', (k, tree), sort)
    if tree.op == 'cloop' and any(s.op == 'sum' for s in subterms(k)):
        v, b = open_binder(tree)
        lo, hi = tree.args[0], tree.args[1]
        ls = b.args if b.op == 'cseq' else (b,)
        if all(x.op == 'cleaf' for x in ls):
            # a position named by the total of the iterations before some iteration t, plus a constant
            n = leaf_count(ls)
            p = Sum(v, lo, v, n)
            for s in subterms(k):
                if s.op != 'sum' or s.args[0] is not lo or any(isinstance(w.data, tuple) for w in s.fv): continue
                t = s.args[1]
                d = sub(k, subst(p, {v: t}))
                if d.op != 'num' or d.data < 0: continue
                good = and_(le(lo, t), lt(t, hi), lt(d, subst(n, {v: t})))
                m, res = ZI, None
                for x in ls:
                    gx, val = subst(x.args[0], {v: t}), subst(x.args[1], {v: t})
                    res = val if res is None else ite(and_(gx, eq(m, d)), val, res)
                    m = add(m, ite(gx, OI, ZI))
                return ite(good, res, r)
    return r


# ---------------------------------------------------------------- substitution
def rebuild(op, t, args):
    if op == 'app':
        if t.data == 'toreal': return to_real(args[0])
        if t.data == 'inv': return inv(args[0])
        if t.data == 'idiv': return idiv(*args)
        if t.data == 'imod': return imod(*args)
        return _mk('app', args, t.sort, t.data)
    if op == 'ite': return ite(*args)
    if op == 'not': return not_(args[0])
    if op == 'and': return and_(*args)
    if op == 'or': return or_(*args)
    if op == 'le0': return le0(args[0])
    if op == 'lt0': return lt0(args[0])
    if op == 'eq0': return eq(args[0], num(0, args[0].sort))
    if op == 'eq': return eq(*args)
    if op == 'cseq': return cseq(*args)
    if op == 'cleaf': return cleaf(*args)
    if op == 'at': return cat_(args[0], args[1], t.sort)
    if op == 'poly':
        p = {}
        for m, c in t.data:
            q = {(): c}
            for i, k in m:
                pa = poly(args[i])
                for _ in range(k):
                    q = pmul(q, pa)
            for mm, cc in q.items():
                p[mm] = p.get(mm, 0) + cc
        return from_poly(p, t.sort)
    raise ValueError(op)


def subst(t, m, memo=None):
    if not m: return t
    if memo is None:
        memo = {}
        keys = frozenset(m)
        memo['keys'] = keys
    keys = memo['keys']

    def go(t):
        if t in m:
            return m[t]
        if t.op == 'var' or not t.args or (t.fv.isdisjoint(keys)):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        if t.op in BINDERS:
            b = t.data
            v = fresh('k', b.sort)
            pre = [go(a) for a in t.args[:-1]]
            body = go(subst(t.args[-1], {b: v}))
            if t.op == 'sum': r = Sum(v, pre[0], pre[1], body)
            elif t.op == 'forall': r = forall(v, body)
            elif t.op == 'exists': r = exists(v, body)
            else: r = cloop(v, pre[0], pre[1], body)
        else:
            args = [go(a) for a in t.args]
            r = rebuild(t.op, t, args) if any(x is not y for x, y in zip(args, t.args)) else t
        memo[t] = r
        return r
    return go(t)


def replace_atoms(t, f, memo=None):
    """bottom-up rewriting: f(term)->term or None, applied after children; does not enter binders with bound vars open"""
    memo = {} if memo is None else memo

    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.op in BINDERS:
            v, b = open_binder(t)
            pre = [go(a) for a in t.args[:-1]]
            b2 = go(b)
            r = {'sum': lambda: Sum(v, pre[0], pre[1], b2), 'forall': lambda: forall(v, b2),
                 'exists': lambda: exists(v, b2), 'cloop': lambda: cloop(v, pre[0], pre[1], b2)}[t.op]()
        elif t.args:
            args = [go(a) for a in t.args]
            r = rebuild(t.op, t, args) if any(x is not y for x, y in zip(args, t.args)) else t
        else:
            r = t
        q = f(r)
        if q is not None: r = q
        memo[t] = r
        return r
    return go(t)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        st.extend(x.args)
    return seen


# ---------------------------------------------------------------- printing
def pp(t, d=0):
    if d > 14: return '...'
    q = lambda x: pp(x, d + 1)
    o = t.op
    if o == 'num': return str(t.data)
    if o == 'var': return t.data if isinstance(t.data, str) else '$%d' % t.data[1]
    if o == 'str': return repr(t.data)
    if o in ('true', 'false'): return o
    if o == 'app': return '%s(%s)' % (t.data, ', '.join(map(q, t.args))) if t.args else str(t.data)
    if o == 'poly':
        ms = []
        for m, c in t.data_items():
            f = '*'.join(q(a) + ('^%d' % k if k > 1 else '') for a, k in m)
            ms.append(f if c == 1 and f else (('-' + f) if c == -1 and f else (str(c) + ('*' + f if f else ''))))
        return '(' + ' + '.join(ms) + ')'
    if o in ('sum', 'cloop'):
        return '%s[%s:%s..%s](%s)' % (o, q(t.data), q(t.args[0]), q(t.args[1]), q(t.args[2]))
    if o in ('forall', 'exists'):
        return '%s %s.(%s)' % (o, q(t.data), q(t.args[0]))
    if o in ('le0', 'lt0', 'eq0'):
        return '%s %s 0' % (q(t.args[0]), {'le0': '<=', 'lt0': '<', 'eq0': '=='}[o])
    if o == 'eq': return '(%s == %s)' % (q(t.args[0]), q(t.args[1]))
    return '%s(%s)' % (o, ', '.join(map(q, t.args)))
