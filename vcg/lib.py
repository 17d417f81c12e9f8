"""Contracts assumed on library code: std:: containers and algorithms, smart pointers, Eigen dense and sparse algebra."""
import re
from fractions import Fraction
from . import terms as tm, smt
from .terms import T
from .values import *
from .values import obj_eq
from .cast import clean, qt, split_targs, strip_comments

GLOBALS = {'INFINITY': smt.INF, 'LINEAR_INF': None}
for _k in list(GLOBALS):
    if GLOBALS[_k] is None: del GLOBALS[_k]

DYN = -1


# ---------------------------------------------------------------- matrices
def mat(rows, cols, f, kind='mat', sort='R', tag=None):
    return Arr(kind, (sort,), (rows, cols), FnBase(f), tag=tag)


def isvec(a): return a.kind in ('mat', 'smat') and (a.dims[1] is tm.OI or a.dims[0] is tm.OI)


def size(a):
    if a.kind in ('mat', 'smat'): return tm.mul(*a.dims)
    return a.dims[0]


def ij(a, i):
    if a.kind == 'vec': return (i,)
    return (tm.ZI, i) if a.dims[0] is tm.OI and a.dims[1] is not tm.OI else (i, tm.ZI)


def elem(a, i): return a.get(*ij(a, i))


def sortof(a): return a.ety[0] if isinstance(a.ety, tuple) else 'R'


def like(a, f, sort=None, tag=0):
    return mat(a.dims[0], a.dims[1], f, 'mat', sort or sortof(a), a.tag if tag == 0 else tag)


def cw(a, f, sort=None): return like(a, lambda i, j: f(a.get(i, j)), sort)


def cw2(s, st, a, b, f, sort=None):
    s.oblige(st, 'dims', tm.and_(tm.eq(a.dims[0], b.dims[0]), tm.eq(a.dims[1], b.dims[1])), 'equal matrix dimensions')
    return like(a, lambda i, j: f(a.get(i, j), b.get(i, j)), sort)


def matmul(s, st, a, b):
    s.oblige(st, 'dims', tm.eq(a.dims[1], b.dims[0]), 'inner matrix dimensions agree')
    n = a.dims[1]
    da, db = getattr(a.base, 'diag', None) if not a.log else None, getattr(b.base, 'diag', None) if not b.log else None
    if da is not None: return mat(a.dims[0], b.dims[1], lambda i, j: tm.mul(da(i), b.get(i, j)))
    if db is not None: return mat(a.dims[0], b.dims[1], lambda i, j: tm.mul(a.get(i, j), db(j)))

    def f(i, j):
        v = tm.fresh('m', 'I')
        return tm.Sum(v, tm.ZI, n, tm.mul(a.get(i, v), b.get(v, j)))
    return mat(a.dims[0], b.dims[1], f)


def summ(a, f=lambda x: x, sort=None):
    i, j = tm.fresh('m', 'I'), tm.fresh('m', 'I')
    if a.kind == 'vec': return tm.Sum(i, tm.ZI, a.dims[0], f(a.get(i)))
    if a.dims[1] is tm.OI: return tm.Sum(i, tm.ZI, a.dims[0], f(a.get(i, tm.ZI)))
    if a.dims[0] is tm.OI: return tm.Sum(j, tm.ZI, a.dims[1], f(a.get(tm.ZI, j)))
    return tm.Sum(i, tm.ZI, a.dims[0], tm.Sum(j, tm.ZI, a.dims[1], f(a.get(i, j))))


def dot(s, st, a, b):
    s.oblige(st, 'dims', tm.eq(size(a), size(b)), 'dot product of equal lengths')
    i = tm.fresh('m', 'I')
    return tm.Sum(i, tm.ZI, size(a), tm.mul(elem(a, i), elem(b, i)))


def matop(s, st, op, x, y):
    s.trusted.add('Eigen/std arithmetic operators')
    if x is None:
        return cw(y, tm.neg)
    if isinstance(x, Arr) and isinstance(y, Arr):
        if op in ('==', '!=') and x.kind == 'vec':
            c = arr_eq(x, y)
            return c if op == '==' else tm.not_(c)
        if x.kind in ('mat', 'smat') and y.kind in ('mat', 'smat'):
            if op == '+': return cw2(s, st, x, y, tm.add)
            if op == '-': return cw2(s, st, x, y, tm.sub)
            if op == '*':
                if x.tag == 'arr' or y.tag == 'arr': return cw2(s, st, x, y, tm.mul)
                return matmul(s, st, x, y)
            if op == '/': return cw2(s, st, x, y, tm.div)
            if x.tag == 'arr' and op in ('<', '<=', '>', '>=', '==', '!='):
                f = {'<': tm.lt, '<=': tm.le, '>': tm.gt, '>=': tm.ge, '==': tm.eq, '!=': tm.ne}[op]
                return cw2(s, st, x, y, f, 'B')
            if op in ('==', '!='):
                c = arr_eq(x, y)
                return c if op == '==' else tm.not_(c)
            if op in ('&&', '||'): return cw2(s, st, x, y, tm.and_ if op == '&&' else tm.or_, 'B')
    if isinstance(x, Arr) and isinstance(y, T):
        if op == '*': return cw(x, lambda e: tm.mul(e, y))
        if op == '/': return cw(x, lambda e: tm.div(e, y))
        if op in '+-': return cw(x, lambda e: tm.add(e, y if op == '+' else tm.neg(y)))
        if op in ('<', '<=', '>', '>=', '==', '!='):
            f = {'<': tm.lt, '<=': tm.le, '>': tm.gt, '>=': tm.ge, '==': tm.eq, '!=': tm.ne}[op]
            return cw(x, lambda e: f(e, y), 'B')
    if isinstance(y, Arr) and isinstance(x, T):
        if op == '*': return cw(y, lambda e: tm.mul(x, e))
        if op == '/': return cw(y, lambda e: tm.div(x, e))
        if op == '+': return cw(y, lambda e: tm.add(x, e))
        if op == '-': return cw(y, lambda e: tm.sub(x, e))
    raise Unsupported('operator %s on %s,%s' % (op, type(x).__name__, type(y).__name__))


def arr_eq(x, y):
    if x.kind == 'vec':
        i = tm.fresh('q', 'I')
        e = tm.eq(x.get(i), y.get(i))
        return tm.and_(tm.eq(x.dims[0], y.dims[0]), tm.forall(i, tm.implies(tm.and_(tm.le(tm.ZI, i), tm.lt(i, x.dims[0])), e)))
    i, j = tm.fresh('q', 'I'), tm.fresh('q', 'I')
    e = tm.eq(x.get(i, j), y.get(i, j))
    rng = tm.and_(tm.le(tm.ZI, i), tm.lt(i, x.dims[0]), tm.le(tm.ZI, j), tm.lt(j, x.dims[1]))
    return tm.and_(tm.eq(x.dims[0], y.dims[0]), tm.eq(x.dims[1], y.dims[1]), tm.forall(i, tm.forall(j, tm.implies(rng, e))))


def nz(s, m, ij_):
    """is (i,j) stored in the sparse matrix"""
    if not m.log and isinstance(m.base, SymBase):
        s.notes.add('entries that a sparse matrix does not store are zero')
        return m.base.nzt(ij_) if not s.__dict__.get('dense_inner') else tm.TRUE
    return tm.TRUE


# ---------------------------------------------------------------- views
class Block:
    def __init__(s, r0, c0, nr, nc): s.r0, s.c0, s.nr, s.nc = r0, c0, nr, nc
    def get(s, a):
        if a.kind == 'vec':
            return mat(s.nr, s.nc, lambda i, j: a.get(tm.add(s.r0, i)), sort=sortof(a) if isinstance(a.ety, tuple) else 'R')
        return mat(s.nr, s.nc, lambda i, j: a.get(tm.add(s.r0, i), tm.add(s.c0, j)), sort=sortof(a), tag=a.tag)

    def index(s, idx): return (tm.add(s.r0, idx[0]), tm.add(s.c0, idx[1]))

    def ops(s, kind, val):
        v, w = tm.fresh('a', 'I'), tm.fresh('b', 'I')
        one = lambda x: x.op == 'num' and x.data == 1
        i, j = (tm.ZI if one(s.nr) else v), (tm.ZI if one(s.nc) else w)
        op = (kind, tm.TRUE, s.index((i, j)), val(i, j))
        if not one(s.nc): op = ('loop', tm.TRUE, w, tm.ZI, s.nc, (op,))
        if not one(s.nr): op = ('loop', tm.TRUE, v, tm.ZI, s.nr, (op,))
        return op

    def put(s, old, val, ex):
        return old.with_log(s.ops('set', val.get))

    def addto(s, old, f): return old.with_log(s.ops('add', f))


class Whole(Block):
    def __init__(s, a): Block.__init__(s, tm.ZI, tm.ZI, a.dims[0], a.dims[1] if len(a.dims) > 1 else tm.OI)


class Trans:
    def get(s, a): return mat(a.dims[1], a.dims[0], lambda i, j: a.get(j, i), sort=sortof(a), tag=a.tag)
    def index(s, idx): return (idx[1], idx[0])
    def put(s, old, val, ex): return mat(old.dims[0], old.dims[1], lambda i, j: val.get(j, i), old.kind, sortof(old))


class Diag:
    def __init__(s, off=0): s.off = off
    def get(s, a):
        n = tm.min_(a.dims[0], a.dims[1])
        return mat(n, tm.OI, lambda i, j: a.get(i, i), sort=sortof(a))
    def index(s, idx): return (idx[0], idx[0])
    def put(s, old, val, ex):
        v = tm.fresh('a', 'I')
        return old.with_log(('loop', tm.TRUE, v, tm.ZI, tm.min_(*old.dims), (('set', tm.TRUE, (v, v), val.get(v, tm.ZI)),)))


class Flat:
    """an Eigen vector seen as a 1-d sequence and vice versa (Map over std::vector data)"""
    def get(s, a): return mat(a.dims[0], tm.OI, lambda i, j: a.get(i))
    def index(s, idx): return (idx[0],)
    def put(s, old, val, ex):
        v = tm.fresh('a', 'I')
        return old.with_log(('loop', tm.TRUE, v, tm.ZI, old.dims[0], (('set', tm.TRUE, (v,), val.get(v, tm.ZI)),)))


class MapView:
    def __init__(s, off, n, m): s.off, s.n, s.m = off, n, m
    def get(s, a):
        if s.n is tm.ZI: return mat(s.n, s.m, lambda i, j: tm.num(0, 'R'))      # no element
        return mat(s.n, s.m, lambda i, j: elem(a, tm.add(s.off, i, tm.mul(j, s.n))))
    def index(s, idx): return (tm.add(s.off, idx[0], tm.mul(idx[1], s.n)),)
    def put(s, old, val, ex):
        v = tm.fresh('a', 'I')
        if s.m is not tm.OI: raise Unsupported('write through a matrix Map')
        return old.with_log(('loop', tm.TRUE, v, tm.ZI, s.n, (('set', tm.TRUE, ij(old, tm.add(s.off, v)), val.get(v, tm.ZI)),)))


class TagView:
    def __init__(s, tag): s.tag = tag
    def get(s, a): return a.retag(s.tag)
    def index(s, idx): return idx
    def put(s, old, val, ex): return val.retag(old.tag)


def view(obj, v):
    if isinstance(obj, LV): return obj.ext(('v', v))
    return v.get(obj)


# ---------------------------------------------------------------- containers
def emplace(s, st, lv, val):
    a = s.read(st, lv)
    s.write(st, lv, a.with_log(('push', tm.TRUE, val)))


def resize_vec(s, st, a, n, fillv):
    old = a
    if old.dims[0] is tm.ZI:
        return Arr('vec', a.ety, (n,), FillBase(fillv))
    L = a.dims[0]
    d = tm.sub(n, L)
    return Arr('vec', a.ety, (n,), FnBase(lambda i: vite(tm.lt(i, L), old.get(i), fillv)))


def entry_form(s, st, g, r, c):
    """entries of a matrix built from a list, the positions in the list resolved once"""
    from .contract import normal
    i, j = tm.fresh('i', 'I'), tm.fresh('j', 'I')
    inr = [tm.le(tm.ZI, i), tm.lt(i, r), tm.le(tm.ZI, j), tm.lt(j, c)]
    e0 = g(i, j)
    e = normal(st.all() + inr, e0)
    if e is e0: return g
    nm = s.freshname('outside')
    return lambda a, b: tm.ite(tm.and_(*[tm.subst(x, {i: a, j: b}) for x in inr]), tm.subst(e, {i: a, j: b}), tm.app(nm, 'R', a, b))


def seq_from_range(s, st, b, e, ety=None):
    """values of [b,e) as (length, function)"""
    if isinstance(b, It) and isinstance(e, It):
        c = s.read(st, b.lv)
        if b.mv and isinstance(c, Arr) and c.kind == 'vec' and s.tkind(c.ety)[0] not in ('I', 'R', 'B'):
            nm, la = s.freshname('moved'), tuple(s.loopvars)
            s.write(st, b.lv, Arr('vec', c.ety, c.dims, FnBase(lambda i: s.symval(c.ety, nm, la + (i,)))))
        if b.rev:
            n = tm.sub(b.pos, e.pos)
            return n, (lambda i: elem(c, tm.sub(b.pos, i, tm.OI))), c
        n = tm.sub(e.pos, b.pos)
        return n, (lambda i: elem(c, tm.add(b.pos, i))), c
    raise Unsupported('iterator range')


def length_nonneg(n): return n


def empty_map(s, k):
    from . import maps
    return maps.empty(k)


def vec_method(s, st, name, obj, args, n):
    a = s.read(st, obj) if isinstance(obj, LV) else obj
    if not isinstance(obj, LV): obj = s.newcell(st, a)
    rv = lambda i: s.rv(st, args[i])
    if name == 'operator=' and len(args) == 1:
        b = s.ev(st, args[0])
        v = s.read(st, b) if isinstance(b, LV) else b
        if not isinstance(v, Arr): raise Unsupported('std::vector::operator=')
        same = isinstance(b, LV) and b.same(obj)
        if args[0].get('valueCategory') == 'xvalue' and not same: s.write(st, b, s.emptyvec(v.ety)) if isinstance(b, LV) else None
        s.write(st, obj, v)
        return obj
    if name in ('size', 'max_size'): return a.dims[0]
    if name == 'capacity': return a.dims[0]
    if name == 'empty': return tm.eq(a.dims[0], tm.ZI)
    if name in ('at', 'operator[]'):
        i = rv(0)
        if name == 'at' and not s.quiet and s.safety:
            pass
        s.bounds(st, a, (i,))
        return obj.ext(('i', (i,)))
    if name in ('back', 'front'):
        i = tm.sub(a.dims[0], tm.OI) if name == 'back' else tm.ZI
        s.bounds(st, a, (i,))
        return obj.ext(('i', (i,)))
    if name in ('push_back', 'emplace_back'):
        v = emplace_value(s, st, a.ety, args)
        emplace(s, st, obj, v)
        return obj.ext(('i', (a.dims[0],)))
    if name == 'pop_back':
        s.bounds(st, a, (tm.sub(a.dims[0], tm.OI),))
        if a.log and a.log[-1][0] == 'push' and a.log[-1][1] is tm.TRUE:
            s.write(st, obj, Arr(a.kind, a.ety, (tm.sub(a.dims[0], tm.OI),), a.base, a.log[:-1], a.dims0))
        else: s.write(st, obj, Arr('vec', a.ety, (tm.sub(a.dims[0], tm.OI),), FnBase(lambda i: a.get(i))))
        return VOID
    if name in ('begin', 'cbegin'): return It(obj, tm.ZI)
    if name in ('end', 'cend'): return It(obj, a.dims[0])
    if name in ('rbegin', 'crbegin'): return It(obj, a.dims[0], True)
    if name in ('rend', 'crend'): return It(obj, tm.ZI, True)
    if name == 'data': return It(obj, tm.ZI)
    if name in ('reserve', 'shrink_to_fit'):
        for x in args: s.rv(st, x)
        return VOID
    if name == 'clear':
        s.write(st, obj, s.emptyvec(a.ety))
        return VOID
    if name == 'resize':
        m = rv(0)
        f = s.coerce(st, rv(1), a.ety) if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr' else s.default(st, a.ety)
        s.write(st, obj, resize_vec(s, st, a, m, f))
        return VOID
    if name == 'assign':
        x, y = rv(0), rv(1)
        if isinstance(x, It):
            m, f, c = seq_from_range(s, st, x, y)
            s.write(st, obj, Arr('vec', a.ety, (m,), FnBase(f)))
        else: s.write(st, obj, Arr('vec', a.ety, (x,), FillBase(s.coerce(st, y, a.ety))))
        return VOID
    if name == 'insert':
        p = rv(0)
        if len(args) == 3 and isinstance(p, It):
            b, e = rv(1), rv(2)
            if isinstance(b, It):
                m, f, c = seq_from_range(s, st, b, e)
                if m.op == 'num' and m.data <= 8 and p.pos is a.dims[0]:
                    w = a
                    for i in range(int(m.data)): w = w.with_log(('push', tm.TRUE, f(tm.num(i))))
                    if w is not a: s.write(st, obj, w)
                elif p.pos is a.dims[0]:
                    v = tm.fresh('q', 'I')
                    s.write(st, obj, a.with_log(('loop', tm.TRUE, v, tm.ZI, m, (('push', tm.TRUE, f(v)),))))
                else:
                    L = tm.add(a.dims[0], m)
                    s.write(st, obj, Arr('vec', a.ety, (L,), FnBase(lambda i: vite(tm.lt(i, p.pos), a.get(i), vite(tm.lt(i, tm.add(p.pos, m)), f(tm.sub(i, p.pos)), a.get(tm.sub(i, m)))))))
                return It(obj, p.pos)
            x = s.coerce(st, e, a.ety)
            cnt = b
            L = tm.add(a.dims[0], cnt)
            s.write(st, obj, Arr('vec', a.ety, (L,), FnBase(lambda i: vite(tm.lt(i, p.pos), a.get(i), vite(tm.lt(i, tm.add(p.pos, cnt)), x, a.get(tm.sub(i, cnt)))))))
            return It(obj, p.pos)
        if len(args) == 2 and isinstance(p, It):
            x = s.coerce(st, rv(1), a.ety)
            if p.pos is a.dims[0]:
                s.write(st, obj, a.with_log(('push', tm.TRUE, x)))
            else:
                s.write(st, obj, Arr('vec', a.ety, (tm.add(a.dims[0], tm.OI),), FnBase(lambda i: vite(tm.lt(i, p.pos), a.get(i), vite(tm.eq(i, p.pos), x, a.get(tm.sub(i, tm.OI)))))))
            return It(obj, p.pos)
    if name == 'erase':
        p = rv(0)
        if len(args) == 1 and isinstance(p, It):
            s.bounds(st, a, (p.pos,))
            s.write(st, obj, Arr('vec', a.ety, (tm.sub(a.dims[0], tm.OI),), FnBase(lambda i: vite(tm.lt(i, p.pos), a.get(i), a.get(tm.add(i, tm.OI))))))
            return It(obj, p.pos)
        if len(args) == 2:
            q = rv(1)
            m = tm.sub(q.pos, p.pos)
            if isinstance(p.pos, T) and q.pos is a.dims[0]:
                s.write(st, obj, Arr('vec', a.ety, (p.pos,), FnBase(lambda i: a.get(i))))
            else: s.write(st, obj, Arr('vec', a.ety, (tm.sub(a.dims[0], m),), FnBase(lambda i: vite(tm.lt(i, p.pos), a.get(i), a.get(tm.add(i, m))))))
            return It(obj, p.pos)
    if name == 'swap':
        o = s.ev(st, args[0])
        b = s.read(st, o)
        s.write(st, obj, b)
        s.write(st, o, a)
        return VOID
    if name == 'fill':
        x = s.coerce(st, rv(0), a.ety)
        s.write(st, obj, Arr('vec', a.ety, a.dims, FillBase(x)))
        return VOID
    raise Unsupported('std::vector::%s' % name)


def emplace_value(s, st, ety, args):
    if len(args) == 1:
        if s.tkind(ety)[0] == 'refw':
            r = s.ev(st, args[0])
            if isinstance(r, RefW): return r
            if isinstance(r, LV):
                w = s.read(st, r)
                return w if isinstance(w, RefW) else RefW(r)
            raise Unsupported('reference wrapper')
        r = s.rv(st, args[0])
        if isinstance(r, tuple) and r[0] == 'objref': r = s.obj_struct(st, r[1], s.tkind(ety)[1])
        k = s.tkind(ety)
        if k[0] == 'rec' and isinstance(r, T):
            return construct_vals(s, st, ety, [r])
        return s.coerce(st, r, ety)
    vals = [s.ev(st, x) for x in args]
    return construct_vals(s, st, ety, vals)


def construct_vals(s, st, ety, vals):
    k = s.tkind(ety)
    if k[0] == 'rec':
        cs = [f for f in s.db.byqual.get(k[1] + '::' + k[1].split('::')[-1], []) if len(f.params) == len(vals)]
        from .exec import _is_copy
        cs = [f for f in cs if not _is_copy(f.type, k[1])]
        if len(cs) != 1: raise Unsupported('emplace of %s' % ety)
        f = cs[0]
        bound = [s.bind(st, qt(p), v) for p, v in zip(f.params, vals)]
        tmp = s.newcell(st, s.blank(st, k[1]))
        s.run_ctor(st, k[1], f, bound, tmp)
        return s.read(st, tmp)
    return construct(s, st, ety, k, vals, None)


def construct(s, st, t, k, vals, n):
    rd = [s.read(st, v) if isinstance(v, LV) else v for v in vals]
    if k[0] in ('I', 'R', 'B'): return s.coerce(st, rd[0], t) if rd else s.default(st, t)
    if k[0] == 'dlist' and not rd: return s.default(st, t)
    if split_targs(clean(t))[0].split('::')[-1] == 'SelfAdjointEigenSolver' and len(rd) == 1 and isinstance(rd[0], Arr):
        a = rd[0]
        s.oblige(st, 'dims', tm.eq(a.dims[0], a.dims[1]), 'square matrix')
        i, j = tm.fresh('k', 'I'), tm.fresh('k', 'I')
        return Struct('eigensolver', {'n': a.dims[0], 'm': tm.cloop(i, tm.ZI, a.dims[0], tm.cloop(j, tm.ZI, a.dims[1], tm.cleaf(tm.TRUE, a.get(i, j))))})
    if k[0] == 'vec':
        if not rd: return s.emptyvec(k[1])
        if len(rd) == 1 and isinstance(rd[0], Arr):
            return Arr('vec', k[1], rd[0].dims, rd[0].base, rd[0].log, rd[0].dims0)
        if isinstance(rd[0], It) and len(rd) >= 2:
            m, f, c = seq_from_range(s, st, rd[0], rd[1])
            return Arr('vec', k[1], (m,), FnBase(f))
        if isinstance(rd[0], T) and rd[0].sort == 'I':
            x = rd[1] if len(rd) > 1 and not _alloc(n, 1) else s.default(st, k[1])
            x = s.coerce(st, x, k[1])
            s.oblige(st, 'alloc', tm.le(tm.ZI, rd[0]), 'non-negative container size')
            return Arr('vec', k[1], (rd[0],), FillBase(x))
    if k[0] == 'arr':
        if not rd: return s.default(st, t, True)
        if isinstance(rd[0], Arr): return rd[0]
    if k[0] in ('mat', 'smat'):
        if not rd: return s.default(st, t)
        if len(rd) >= 1 and isinstance(rd[0], Arr) and rd[0].kind in ('mat', 'smat'):
            a = rd[0]
            r = s.coerce(st, a, t)
            if k[0] == 'mat' and k[3] == 1 and r.dims[1] is not tm.OI and r.dims[0] is tm.OI and k[2] == -1:
                return mat(r.dims[1], tm.OI, lambda i, j: r.get(j, i), sort=sortof(r))
            if split_targs(clean(t))[0].split('::')[-1] == 'Ref' and isinstance(vals[0], LV): return vals[0]
            return r
        if split_targs(clean(t))[0].split('::')[-1] == 'Map' and isinstance(rd[0], It):
            nn = rd[1] if len(rd) > 1 else tm.num(k[2])
            m = rd[2] if len(rd) > 2 and isinstance(rd[2], T) and rd[2].sort == 'I' else tm.OI
            c = s.read(st, rd[0].lv)
            if isinstance(c, Arr) and c.kind == 'vec': s.oblige(st, 'index', tm.and_(tm.le(tm.ZI, rd[0].pos), tm.le(tm.add(rd[0].pos, tm.mul(nn, m)), c.dims[0])), 'mapped range within the sequence')
            return rd[0].lv.ext(('v', MapView(rd[0].pos, nn, m)))
        if all(isinstance(x, T) for x in rd):
            fixed = [x for x in (k[2], k[3])] if k[0] == 'mat' else [-1, -1 if k[2] is None else 1]
            if k[0] == 'mat' and k[2] > 0 and k[3] > 0 and len(rd) == k[2] * k[3] and len(rd) > 1:
                vs = [tm.to_real(x) for x in rd]
                return mat(tm.num(k[2]), tm.num(k[3]), lambda i, j: _sel(vs, i if k[3] == 1 else j))
            if len(rd) == 1: d = (rd[0], tm.OI) if fixed[1] == 1 else (tm.OI, rd[0])
            else: d = (rd[0], rd[1])
            if k[0] == 'smat': return Arr('smat', (k[1],), d, FillBase(tm.num(0, k[1])))
            return Arr('mat', (k[1],), d, s.uninit_base(k[1], 2), tag=k[4])
    if k[0] == 'pair':
        if len(rd) == 2: return Struct('pair', {'first': s.coerce(st, rd[0], k[1]), 'second': s.coerce(st, rd[1], k[2])})
        if len(rd) == 1: return rd[0]
        if not rd: return s.default(st, t)
    if k[0] == 'trip':
        if len(rd) >= 2: return Struct('Triplet', {'row': rd[0], 'col': rd[1], 'val': tm.to_real(rd[2]) if len(rd) > 2 else tm.ZR})
        return rd[0] if rd else s.default(st, t)
    if k[0] == 'S':
        if not rd: return tm.string('')
        if isinstance(rd[0], T) and rd[0].sort == 'S': return rd[0]
        return s.fresh_app('str', 'S')
    if k[0] == 'ptr':
        if not rd: return smt.NULLPTR
        return rd[0]
    if k[0] == 'func': return rd[0] if rd else smt.NULLPTR
    if k[0] in ('umap', 'uset'):
        if rd: return rd[0]
        return empty_map(s, k)
    if k[0] == 'refw':
        if isinstance(rd[0], RefW): return rd[0]
        if isinstance(vals[0], LV): return RefW(vals[0])
        raise Unsupported('reference wrapper')
    if k[0] == 'opaque':
        if len(rd) == 1 and not isinstance(rd[0], T): return rd[0]
        if len(rd) == 1 and isinstance(rd[0], T) and rd[0].sort == 'O': return rd[0]
        b = split_targs(clean(t))[0].split('::')[-1]
        if b in ('__normal_iterator', 'reverse_iterator', 'move_iterator') and rd: return rd[0]
        return s.fresh_app('opaque', 'O')
    raise Unsupported('constructor of %s' % t)


def _alloc(n, i): return False


def _sel(vs, i):
    r = vs[-1]
    for q in range(len(vs) - 2, -1, -1): r = vite(tm.eq(i, tm.num(q)), vs[q], r)
    return r


# ---------------------------------------------------------------- member calls on library objects
def method_ptr(s, st, name, p, args, n, me):
    if isinstance(p, IteV):
        raise Unsupported('method %s through conditional pointer' % name)
    if isinstance(p, T) and p.sort == 'O':
        t = qt(me['inner'][0])
        pt = clean(t).rstrip('*').strip()
        k = s.tkind(pt)
        if k[0] in ('opaque', 'func'): return opaque_method(s, st, name, p, args, n)
        lv = LV(('obj', p), (('f', '*', 'ext:' + pt),))
        return method(s, st, name, lv, args, n, me)
    return method(s, st, name, s.deref(st, p), args, n, me)


def opaque_method(s, st, name, p, args, n):
    h = s.contracts.get('opaque:' + name)
    if h: return h(s, st, p, [s.ev(st, a) for a in args], n)
    raise Unsupported('method %s of a library object' % name)


def heap_external(s, st, cls):
    raise Unsupported('heap object of type %s' % cls)


def method(s, st, name, obj, args, n, me):
    v = s.read(st, obj) if isinstance(obj, LV) else obj
    s.trusted.add('library method %s' % name)
    if isinstance(v, Arr):
        if v.kind == 'vec': return vec_method(s, st, name, obj, args, n)
        if v.kind in ('mat', 'smat'): return eigen_method(s, st, name, obj, v, args, n)
    if isinstance(v, RefW):
        if name == 'get': return v.lv
        if name.startswith('operator ') : return v.lv
        raise Unsupported('reference wrapper method %s' % name)
    from .maps import is_map, map_method
    if is_map(v): return map_method(s, st, name, obj if isinstance(obj, LV) else s.newcell(st, v), v, args, n)
    if isinstance(v, Struct) and v.cls == 'eigensolver':
        # library contract: a function of the matrix; nothing is assumed about it but the sizes
        if name == 'eigenvalues': return mat(v.get('n'), tm.OI, lambda i, j: tm.app('eigenvalue', 'R', i, v.get('m')))
        if name == 'eigenvectors': return mat(v.get('n'), v.get('n'), lambda i, j: tm.app('eigenvector', 'R', i, j, v.get('m')))
    from .dlist import is_dlist, method as list_method
    if is_dlist(v): return list_method(s, st, name, obj, v, args, n)
    if isinstance(v, Struct):
        if v.cls == 'InnerIterator':
            m = st.meta.get(('inner', obj.root[1])) if isinstance(obj, LV) else None
            if name == 'row': return v.get('row')
            if name == 'col': return v.get('col')
            if name == 'index': return v.get('idx')
            if name in ('value', 'valueRef'):
                if isinstance(m, LV): return m.ext(('i', (v.get('row'), v.get('col'))))
                return m.get(v.get('row'), v.get('col'))
        if v.cls == 'Triplet': return {'row': v.get('row'), 'col': v.get('col'), 'value': v.get('val')}[name]
        if name == 'get': return v
        if name == 'operator=' : 
            w = s.rv(st, args[0]); s.write(st, obj, w); return obj
    if isinstance(v, T):
        if v.sort == 'S':
            if name in ('c_str', 'str', 'data'): return v
            if name in ('size', 'length'): return tm.app('strlen', 'I', v)
            if name == 'empty': return tm.eq(v, tm.string(''))
            raise Unsupported('std::string::%s' % name)
        if v.sort == 'O':
            # smart pointers
            if name in ('get', 'lock'): return v
            if name == 'reset':
                w = s.rv(st, args[0]) if args and args[0].get('kind') != 'CXXDefaultArgExpr' else smt.NULLPTR
                s.write(st, obj, w)
                return VOID
            if name == 'operator bool': return tm.not_(obj_eq(v, smt.NULLPTR))
            if name == 'use_count': return s.fresh_app('usecount', 'I')
            return opaque_method(s, st, name, v, args, n)
        if name == 'operator bool' and v.sort == 'B': return v
        if name in ('load',): return v
        if name == 'count' and v.sort == 'R':
            m = re.search(r'ratio<(\d+)L?, ?(\d+)L?>', _objtype(n))
            return tm.mul(v, tm.num(Fraction(int(m.group(2)), int(m.group(1))))) if m else v
        if name in ('store',):
            s.write(st, obj, s.rv(st, args[0]))
            return VOID
    if isinstance(v, (Ptr, Lam)) and name in ('get', 'operator bool'):
        return v if name == 'get' else tm.TRUE
    if isinstance(v, It) and name == 'base': return v
    if isinstance(v, tuple) and v[0] == 'cursor': return cursor_method(s, st, name, obj, v, args)
    raise Unsupported('method %s on %s' % (name, type(v).__name__))


def view_lv(s, st, obj, v, vw):
    if isinstance(obj, LV): return obj.ext(('v', vw))
    return vw.get(v)


def eigen_method(s, st, name, obj, v, args, n):
    rv = lambda i: s.rv(st, args[i])
    r, c = v.dims
    nargs = len([a for a in args if a.get('kind') != 'CXXDefaultArgExpr'])
    ob = lambda g, d: s.oblige(st, 'dims', g, d)
    if name == 'size': return size(v)
    if name == 'rows': return r
    if name == 'cols': return c
    if name in ('outerSize', 'innerSize'):
        if v.kind != 'smat': return max_(r, c) if False else (r if (r is tm.OI) == (name == 'outerSize') else c)
        rm = is_rowmajor(_objtype(n))
        return r if rm == (name == 'outerSize') else c
    if name == 'nonZeros':
        if v.kind == 'mat': return size(v)
        if isinstance(v.base, SymBase) and not v.log: return tm.app(v.base.name + '|nnz', 'I', *v.base.args)
        nn = s.fresh_app('nnz', 'I')
        # stored entries: none of them means that every entry is zero
        i, j = tm.fresh('q', 'I'), tm.fresh('q', 'I')
        st.assume(tm.le(tm.ZI, nn))
        rng = tm.and_(tm.le(tm.ZI, i), tm.lt(i, r), tm.le(tm.ZI, j), tm.lt(j, c))
        e = v.get(i, j)
        st.assume(tm.forall(i, tm.forall(j, tm.implies(tm.and_(tm.le(nn, tm.ZI), rng), tm.eq(e, tm.num(0, e.sort))))))
        if s.zero_unstored and isinstance(obj, LV):     # the same matrix, written so that case splits on the count see it
            z = tm.eq(nn, tm.ZI)
            s.write(st, obj, Arr(v.kind, v.ety, v.dims, FnBase(lambda a, b: tm.ite(z, tm.num(0, e.sort), v.get(a, b))), tag=v.tag))
        return nn
    if name in ('operator()', 'coeff', 'coeffRef', 'operator[]', 'insert', 'insertBack', 'valueRef', 'value'):
        if nargs == 0 and name == 'value': return v.get(tm.ZI, tm.ZI)
        if nargs == 1: idx = ij(v, rv(0))
        else: idx = (rv(0), rv(1))
        s.bounds(st, v, idx)
        if name in ('insert', 'insertBack') and v.kind == 'smat' and isinstance(obj, LV):
            ob(tm.eq(v.get(*idx), tm.num(0, 'R')), 'insertion into an occupied entry')
            return obj.ext(('ins', idx))
        if isinstance(obj, LV): return obj.ext(('i', idx))
        return v.get(*idx)
    if name in ('row', 'col'):
        i = rv(0)
        ob(tm.and_(tm.le(tm.ZI, i), tm.lt(i, r if name == 'row' else c)), 'row/col index')
        return view_lv(s, st, obj, v, Block(i, tm.ZI, tm.OI, c) if name == 'row' else Block(tm.ZI, i, r, tm.OI))
    if name in ('segment', 'head', 'tail', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols', 'block',
                'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'innerVector', 'innerVectors'):
        a = [rv(i) for i in range(nargs)]
        tmpl = _template_ints(n)
        Z = tm.ZI
        if name == 'block':
            if nargs == 2: a += [tm.num(tmpl[0]), tm.num(tmpl[1])]
            b = (a[0], a[1], a[2], a[3])
        elif name in ('segment',):
            if nargs == 1: a.append(tm.num(tmpl[0]))
            b = (a[0], Z, a[1], tm.OI) if c is tm.OI or r is not tm.OI else (Z, a[0], tm.OI, a[1])
        else:
            if nargs == 0: a = [tm.num(x) for x in tmpl]
            if nargs == 1 and name in ('middleRows', 'middleCols'): a.append(tm.num(tmpl[0]))
            if name == 'head': b = (Z, Z, a[0], tm.OI) if c is tm.OI or r is not tm.OI else (Z, Z, tm.OI, a[0])
            elif name == 'tail': b = (tm.sub(r, a[0]), Z, a[0], tm.OI) if c is tm.OI or r is not tm.OI else (Z, tm.sub(c, a[0]), tm.OI, a[0])
            elif name == 'topRows': b = (Z, Z, a[0], c)
            elif name == 'bottomRows': b = (tm.sub(r, a[0]), Z, a[0], c)
            elif name == 'leftCols': b = (Z, Z, r, a[0])
            elif name == 'rightCols': b = (Z, tm.sub(c, a[0]), r, a[0])
            elif name == 'middleRows': b = (a[0], Z, a[1], c)
            elif name == 'middleCols': b = (Z, a[0], r, a[1])
            elif name == 'topLeftCorner': b = (Z, Z, a[0], a[1])
            elif name == 'topRightCorner': b = (Z, tm.sub(c, a[1]), a[0], a[1])
            elif name == 'bottomLeftCorner': b = (tm.sub(r, a[0]), Z, a[0], a[1])
            elif name == 'bottomRightCorner': b = (tm.sub(r, a[0]), tm.sub(c, a[1]), a[0], a[1])
            else: raise Unsupported(name)
        ob(tm.and_(*[tm.le(Z, x) for x in b], tm.le(tm.add(b[0], b[2]), r), tm.le(tm.add(b[1], b[3]), c)), 'block within the matrix')
        return view_lv(s, st, obj, v, Block(*b))
    if name in ('transpose', 'adjoint'): return view_lv(s, st, obj, v, Trans())
    if name == 'diagonal': return view_lv(s, st, obj, v, Diag())
    if name == 'array': return view_lv(s, st, obj, v, TagView('arr'))
    if name == 'matrix': return view_lv(s, st, obj, v, TagView(None))
    if name in ('noalias', 'derived', 'const_cast_derived', 'reshaped'): return obj
    if name in ('eval', 'toDense', 'finalize', 'pruned', 'sparseView'): return v
    if name in ('makeCompressed', 'reserve', 'uncompress', 'startVec', 'prune', 'data_squeeze'):
        if name == 'prune': s.notes.add('SparseMatrix::prune only drops stored zeros/negligible entries')
        return VOID
    if name == 'isCompressed': return tm.TRUE
    if name == 'sum': return summ(v) if sortof(v) != 'B' else summ(v, lambda x: tm.ite(x, tm.OI, tm.ZI))
    if name == 'count': return summ(v, lambda x: tm.ite(x, tm.OI, tm.ZI))
    if name == 'mean': return tm.div(summ(v), tm.to_real(size(v)))
    if name == 'squaredNorm': return summ(v, lambda x: tm.mul(x, x))
    if name == 'norm': return tm.app('sqrt', 'R', summ(v, lambda x: tm.mul(x, x)))
    if name == 'lpNorm':
        tmpl = _template_ints(n)
        if tmpl and tmpl[0] == 1: return summ(v, tm.abs_)
        raise Unsupported('lpNorm')
    if name == 'trace':
        i = tm.fresh('m', 'I')
        return tm.Sum(i, tm.ZI, r, v.get(i, i))
    if name == 'dot': return dot(s, st, v, rv(0))
    if name in ('cwiseProduct',): return cw2(s, st, v, rv(0), tm.mul)
    if name == 'cwiseQuotient': return cw2(s, st, v, rv(0), tm.div)
    if name in ('cwiseAbs', 'abs'): return cw(v, tm.abs_)
    if name in ('cwiseAbs2', 'square', 'abs2'): return cw(v, lambda x: tm.mul(x, x))
    if name in ('cwiseSqrt', 'sqrt'): return cw(v, lambda x: tm.app('sqrt', 'R', x))
    if name in ('cwiseInverse', 'inverse') and (v.tag == 'arr' or name == 'cwiseInverse'): return cw(v, tm.inv)
    if name in ('cwiseMax', 'max', 'cwiseMin', 'min'):
        y = rv(0)
        f = tm.max_ if 'ax' in name else tm.min_
        if isinstance(y, T): return cw(v, lambda x: f(x, y))
        return cw2(s, st, v, y, f)
    if name in ('pow',):
        y = rv(0)
        return cw(v, lambda x: power(s, x, y))
    if name in ('minCoeff', 'maxCoeff'):
        s.oblige(st, 'dims', tm.lt(tm.ZI, size(v)), 'min/max of a non-empty vector')
        if nargs: raise Unsupported('minCoeff with index')
        return extremum(s, st, v, name == 'maxCoeff')
    if name in ('all', 'any', 'allFinite', 'hasNaN'):
        if name == 'allFinite': return tm.TRUE
        if name == 'hasNaN': return tm.FALSE
        i, j = tm.fresh('q', 'I'), tm.fresh('q', 'I')
        rng = tm.and_(tm.le(tm.ZI, i), tm.lt(i, r), tm.le(tm.ZI, j), tm.lt(j, c))
        if c is tm.OI:
            rng = tm.and_(tm.le(tm.ZI, i), tm.lt(i, r)); j = tm.ZI
            e = v.get(i, j)
            return tm.forall(i, tm.implies(rng, e)) if name == 'all' else tm.exists(i, tm.and_(rng, e))
        e = v.get(i, j)
        return tm.forall(i, tm.forall(j, tm.implies(rng, e))) if name == 'all' else tm.exists(i, tm.exists(j, tm.and_(rng, e)))
    if name == 'select':
        x, y = rv(0), rv(1)
        g = lambda q, i, j: q.get(i, j) if isinstance(q, Arr) else q
        return mat(r, c, lambda i, j: tm.ite(v.get(i, j), g(x, i, j), g(y, i, j)))
    if name == 'asDiagonal':
        b = FnBase(lambda i, j: tm.ite(tm.eq(i, j), elem(v, i), tm.ZR))
        b.diag = lambda i: elem(v, i)
        return Arr('mat', ('R',), (size(v), size(v)), b)
    if name == 'replicate':
        a, b = rv(0), rv(1)
        return mat(tm.mul(r, a), tm.mul(c, b), lambda i, j: v.get(i if a is tm.OI else tm.imod(i, r), j if b is tm.OI else (tm.ZI if c is tm.OI else tm.imod(j, c))))
    if name in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity', 'setRandom'):
        a = [rv(i) for i in range(nargs)]
        val = {'setZero': tm.num(0, sortof(v)), 'setOnes': tm.num(1, sortof(v)), 'setIdentity': None}.get(name)
        if name in ('setConstant', 'fill'): val = s.coerce(st, a.pop(), 'double') if sortof(v) == 'R' else a.pop()
        dims = (r, c)
        if len(a) == 1: dims = (a[0], tm.OI) if c is tm.OI or r is not tm.OI else (tm.OI, a[0])
        elif len(a) == 2: dims = tuple(a)
        if name == 'setIdentity': w = Arr(v.kind, v.ety, dims, FnBase(lambda i, j: tm.ite(tm.eq(i, j), tm.OR1, tm.ZR)), tag=v.tag)
        elif name == 'setRandom': raise Unsupported('random')
        else: w = Arr(v.kind, v.ety, dims, FillBase(val), tag=v.tag)
        s.write(st, obj, w)
        return obj
    if name in ('resize', 'conservativeResize'):
        a = [rv(i) for i in range(nargs)]
        dims = ((a[0], tm.OI) if c is tm.OI else (tm.OI, a[0])) if len(a) == 1 else tuple(a)
        if v.kind == 'smat' and name == 'resize': w = Arr('smat', v.ety, dims, FillBase(tm.num(0, sortof(v))))
        elif name == 'resize':
            if dims == v.dims: return VOID
            w = Arr('mat', v.ety, dims, s.uninit_base(sortof(v), 2), tag=v.tag)
        else:
            ub = s.uninit_base(sortof(v), 2) if v.kind == 'mat' else FillBase(tm.num(0, sortof(v)))
            def cr(i, j):
                g = tm.and_(tm.lt(i, r), tm.lt(j, c)) if c is not tm.OI or dims[1] is not tm.OI else tm.lt(i, r)
                return vite(g, v.get(i, j), ub.get(None, (i, j)))
            w = Arr(v.kind, v.ety, dims, FnBase(cr), tag=v.tag)
        s.write(st, obj, w)
        return VOID
    if name in ('operator const double', 'operator double'):
        s.oblige(st, 'shape', tm.and_(tm.eq(r, tm.OI), tm.eq(c, tm.OI)), 'a number from a product with one entry')
        return v.get(tm.ZI, tm.ZI)
    if name == 'setFromTriplets':
        b, e = rv(0), rv(1)
        m, f, cc = seq_from_range(s, st, b, e)
        q = tm.fresh('q', 'I')
        if m is tm.ZI:
            s.write(st, obj, Arr('smat', v.ety, (r, c), FnBase(lambda i, j: tm.ZR)))
            return VOID
        if not s.quiet and s.safety:
            t0 = f(q)
            rng = tm.and_(tm.le(tm.ZI, q), tm.lt(q, m))
            s.oblige(st, 'index', tm.forall(q, tm.implies(rng, tm.and_(tm.le(tm.ZI, t0.get('row')), tm.lt(t0.get('row'), r), tm.le(tm.ZI, t0.get('col')), tm.lt(t0.get('col'), c)))), 'triplets within the matrix')

        def g(i, j):
            x = tm.fresh('q', 'I')
            t = f(x)
            return tm.Sum(x, tm.ZI, m, tm.ite(tm.and_(tm.eq(t.get('row'), i), tm.eq(t.get('col'), j)), t.get('val'), tm.ZR))
        if s.entry_forms and not s.loopvars and not s.quiet: g = entry_form(s, st, g, r, c)
        s.write(st, obj, Arr('smat', v.ety, (r, c), FnBase(g)))
        return VOID
    if name in ('data', 'begin', 'cbegin'):
        if isinstance(obj, LV): return It(obj, tm.ZI)
        return It(s.newcell(st, v), tm.ZI)
    if name in ('end', 'cend'):
        if isinstance(obj, LV): return It(obj, size(v))
    if name in ('isApprox', 'isZero', 'isConstant'):
        return s.fresh_app('approx', 'B')
    if name == 'cast': return v if sortof(v) == 'R' else cw(v, tm.to_real, 'R')
    if name == 'unaryExpr':
        f = rv(0)
        return cw(v, lambda x: s.read(st, s.call_lambda(st, f, [s.newcell(st, x)])) if isinstance(f, Lam) else (_ for _ in ()).throw(Unsupported('unaryExpr')))
    if name in ('swap',):
        o = s.ev(st, args[0])
        w = s.read(st, o)
        s.write(st, obj, w); s.write(st, o, v)
        return VOID
    if name in ('normalized',):
        nn = tm.app('sqrt', 'R', summ(v, lambda x: tm.mul(x, x)))
        return cw(v, lambda x: tm.div(x, nn))
    if name == 'triangularView' or name == 'selfadjointView' or name == 'template': raise Unsupported(name)
    if name == 'operator=' or name == 'assign':
        s.write(st, obj, rv(0)); return obj
    if name == 'finished': return v
    if name in ('colwise', 'rowwise'): return ('vectorwise', name, obj, v)
    raise Unsupported('Eigen method %s' % name)


def _template_ints(n):
    """template arguments of m.head<3>() etc., from the result type of the call"""
    t = n.get('type', {})
    q = t.get('desugaredQualType') or t.get('qualType', '')
    m = re.search(r'(?:Block|VectorBlock)<.*?, (-?\d+)(?:, (-?\d+))?(?:, (?:true|false))?>', q)
    return [int(x) for x in m.groups() if x is not None] if m else []


def power(s, x, y):
    if y.op == 'num' and y.data.denominator == 1 and 0 <= y.data <= 6:
        r = tm.OR1
        for _ in range(int(y.data)): r = tm.mul(r, x)
        return r
    return tm.app('pow', 'R', tm.to_real(x), tm.to_real(y))


def extremum(s, st, v, mx):
    m = s.fresh_app('ens', sortof(v))
    i, j = tm.fresh('q', 'I'), tm.fresh('q', 'I')
    n = size(v)
    e = elem(v, i) if isvec(v) or v.kind == 'vec' else None
    if e is None:
        rng = tm.and_(tm.le(tm.ZI, i), tm.lt(i, v.dims[0]), tm.le(tm.ZI, j), tm.lt(j, v.dims[1]))
        e = v.get(i, j)
        st.assume(tm.forall(i, tm.forall(j, tm.implies(rng, tm.le(e, m) if mx else tm.le(m, e)))))
        st.assume(tm.exists(i, tm.exists(j, tm.and_(rng, tm.eq(e, m)))))
        return m
    rng = tm.and_(tm.le(tm.ZI, i), tm.lt(i, n))
    st.assume(tm.forall(i, tm.implies(rng, tm.le(e, m) if mx else tm.le(m, e))))
    st.assume(tm.implies(tm.lt(tm.ZI, n), tm.exists(i, tm.and_(rng, tm.eq(e, m)))))
    return m


def is_rowmajor(t):
    """storage order of a sparse matrix type"""
    m = re.search(r'SparseMatrix<\s*[\w ]+(?:,\s*([^,>]+))?', t)
    if m:
        if m.group(1) is None: return False
        o = m.group(1).strip()
        return o.endswith('RowMajor') or (o.isdigit() and int(o) & 1 == 1)
    if re.search(r'\bJacobian\b', t): return True
    raise Unsupported('storage order of ' + t)


def inner_iterator(s, init, st):
    """recognise  SparseMatrix<..>::InnerIterator it(M, k)  in a for-init"""
    if init.get('kind') != 'DeclStmt': return None
    d = init['inner'][0]
    if d.get('kind') != 'VarDecl' or 'InnerIterator' not in d.get('type', {}).get('qualType', ''): return None
    ctor = strip_comments(d)[0]
    while ctor.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr'): ctor = ctor['inner'][0]
    a = ctor['inner']
    m = s.ev(st, a[0])
    k = s.rv(st, a[1]) if len(a) > 1 else tm.ZI
    mt = qt(a[0])
    if 'SparseVector' in mt: return m, tm.ZI, False, d['id']
    rowmajor = is_rowmajor(mt)
    s.trusted.add('SparseMatrix::InnerIterator')
    return m, k, rowmajor, d['id']


def range_of(s, st, r, c0):
    h = s.contracts.get('opaque:range')
    return h(s, st, c0) if h and isinstance(c0, T) and c0.sort == 'O' else None


def trunc(s, v):
    if v.op == 'num': return tm.num(int(v.data))
    for a in [v]:
        if a.op == 'app' and a.data == 'toreal': return a.args[0]
    if v.op == 'app' and v.data in ('ceil', 'floor', 'round'):
        return tm.app('rtoi', 'I', v)
    return tm.app('trunc', 'I', v)


def dyncast(s, st, v, t):
    cls = clean(t).rstrip('*').strip()
    if isinstance(v, T) and v.sort == 'O':
        dc = s.dyn.get(v) or (s.dyn.get(v.data) if v.op == 'app' else None)
        r = s.db.rec(cls)
        if dc and r:
            ok = dc == r.qual or any(b.qual == r.qual for b in s.db.all_bases(s.db.recs[dc]))
            return v if ok else smt.NULLPTR
        is_ = tm.app('is:' + (r.qual if r else cls), 'B', v)
        return tm.ite(is_, v, smt.NULLPTR)
    raise Unsupported('dynamic_cast')


def ext_enum(s, rd):
    n = rd.get('name')
    known = {'Dynamic': -1, 'Infinity': -1, 'RowMajor': 1, 'ColMajor': 0, 'Upper': 2, 'Lower': 1}
    if n in known: return tm.num(known[n])
    return tm.num(abs(hash(n)) % 1000003 + 1000) if n is None else tm.num(sum(ord(c) * 131 ** i for i, c in enumerate(n)) % 1000003 + 1000)


def _matrix_type(s, t):
    """first Eigen::Matrix<...>/Array in a type string"""
    for key in ('Eigen::Matrix<', 'Matrix<', 'Eigen::Array<', 'Array<'):
        i = t.find(key)
        if i >= 0:
            depth = 0
            for j in range(i, len(t)):
                if t[j] == '<': depth += 1
                elif t[j] == '>':
                    depth -= 1
                    if depth == 0: return t[i:j + 1]
    return None


# ---------------------------------------------------------------- free functions
def limit_of(s, t, name):
    if s.tkind(t)[0] == 'R':
        if name == 'min': raise Unsupported('numeric_limits::min')
        m = smt.DBLMAX
        return m if name == 'max' else tm.neg(m)
    c = clean(t)
    w = 8 if 'char' in c else 16 if 'short' in c else 32 if c in ('int', 'unsigned int', 'unsigned', 'int32_t', 'uint32_t') else 64
    if 'unsigned' in c or c in ('size_t', 'std::size_t', 'uint32_t', 'uint64_t', 'uint8_t', 'uint16_t'):
        return tm.num(2 ** w - 1 if name == 'max' else 0)
    return tm.num(2 ** (w - 1) - 1 if name == 'max' else -2 ** (w - 1))


def call(s, st, name, q, args, n, rd):
    h = s.contracts.get('std::' + name) if name else None
    if h:
        r = h(s, st, None, [s.ev(st, a) for a in args if a.get('kind') != 'CXXDefaultArgExpr'], n)
        if r is not NotImplemented: return r
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    rv = lambda i: s.rv(st, args[i])
    s.trusted.add('library function %s' % name)
    t = qt(n)
    if name in ('move', 'forward', 'as_const', 'ref', 'cref', 'move_if_noexcept'):
        if len(args) == 1:
            r = s.ev(st, args[0])
            if name in ('ref', 'cref'): return s.addr(r)
            return r
    if name == '__assert_fail' or name in ('abort', 'exit', 'terminate', '_exit'):
        s.oblige(st, 'assert', tm.FALSE, 'assertion / abort unreachable')
        st.dead = True
        return VOID
    if name in ('fabs', 'abs', 'fabsl'): return tm.abs_(rv(0)) if isinstance(rv(0), T) else cw(rv(0), tm.abs_)
    if name == 'getenv': return tm.app('getenv', 'S', rv(0))
    if name == '__errno_location': return Ptr(s.newcell(st, s.fresh_app('errno', 'I')))      # any error number
    if name == 'now' and not args: return s.fresh_app('now', 'R')      # the clock: an arbitrary time
    if name == 'sqrt': return tm.app('sqrt', 'R', tm.to_real(rv(0))) if isinstance(rv(0), T) else cw(rv(0), lambda x: tm.app('sqrt', 'R', x))
    if name == 'pow':
        x = rv(0)
        return power(s, tm.to_real(x), rv(1))
    if name in ('ceil', 'floor', 'round', 'exp', 'log', 'sin', 'cos', 'tan', 'atan2', 'acos', 'asin', 'log10', 'cbrt', 'fmod', 'lround'):
        return tm.app(name, 'R', *[tm.to_real(rv(i)) for i in range(len(args))])
    if name in ('max', 'fmax', 'min', 'fmin'):
        f = tm.max_ if 'max' in name else tm.min_
        if not args: return limit_of(s, t, name)
        x = rv(0)
        if isinstance(x, Arr) and len(args) == 1:      # initializer list
            r = x.get(tm.ZI)
            nn = x.dims[0]
            for i in range(1, int(nn.data)): r = f(r, x.get(tm.num(i)))
            return r
        if len(args) == 0 or (len(args) == 1): raise Unsupported(name)
        return f(x, rv(1))
    if name == 'clamp':
        v, lo, hi = rv(0), rv(1), rv(2)
        s.oblige(st, 'clamp', tm.le(lo, hi), 'std::clamp needs lo <= hi')
        return tm.ite(tm.lt(v, lo), lo, tm.ite(tm.lt(hi, v), hi, v))
    if name in ('isinf', 'isfinite', 'isnan'):
        x = rv(0)
        if name == 'isnan': return tm.FALSE
        c = tm.or_(tm.le(smt.INF, x), tm.le(x, tm.neg(smt.INF)))
        return c if name == 'isinf' else tm.not_(c)
    if name in ('infinity', '__builtin_inff', '__builtin_inf', '__builtin_huge_val', '__builtin_huge_valf'): return smt.INF
    if name in ('__builtin_nanf', '__builtin_nan'): return tm.app('nan', 'R')      # some number: nothing is known of it
    if name == 'epsilon': return tm.num(Fraction(1, 2 ** 52), 'R')
    if name == 'lowest': return limit_of(s, t, name)
    if name == 'GetLogLevel': return s.fresh_app('loglevel', 'I')
    if name in ('make_shared', 'make_unique', 'allocate_shared'):
        k = s.tkind(t)
        cls = k[1] if k[0] == 'ptr' else clean(t)
        return make_obj(s, st, cls, args)
    if name in ('static_pointer_cast', 'const_pointer_cast', 'reinterpret_pointer_cast'): return rv(0)
    if name == 'dynamic_pointer_cast':
        k = s.tkind(t)
        return dyncast(s, st, rv(0), k[1])
    if name in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'data'):
        o = s.ev(st, args[0])
        if not isinstance(o, LV): o = s.newcell(st, o)
        a = s.read(st, o)
        if isinstance(a, Arr):
            if name in ('begin', 'cbegin', 'data'): return It(o, tm.ZI)
            if name in ('end', 'cend'): return It(o, size(a))
            if name == 'size': return size(a)
            return tm.eq(size(a), tm.ZI)
    if name == 'distance':
        a, b = rv(0), rv(1)
        return tm.sub(b.pos, a.pos)
    if name in ('next', 'prev'):
        d = rv(1) if len(args) > 1 else tm.OI
        return s.shift(st, rv(0), d if name == 'next' else tm.neg(d))
    if name == 'advance':
        lv = s.ev(st, args[0])
        s.write(st, lv, s.shift(st, s.read(st, lv), rv(1)))
        return VOID
    if name == 'swap':
        a, b = s.ev(st, args[0]), s.ev(st, args[1])
        x, y = s.read(st, a), s.read(st, b)
        s.write(st, a, y); s.write(st, b, x)
        return VOID
    if name == 'make_move_iterator':
        a = rv(0)
        return It(a.lv, a.pos, a.rev, True)
    if name == 'make_pair':
        return Struct('pair', {'first': rv(0), 'second': rv(1)})
    if name == 'back_inserter':
        return ('backins', s.ev(st, args[0]))
    if name in ('Zero', 'Ones', 'Constant', 'Identity', 'Unit', 'LinSpaced', 'Random'):
        return nullary(s, st, name, [rv(i) for i in range(len(args))], t, rd)
    if name in ('fill', 'copy', 'transform', 'accumulate', 'sort', 'stable_sort', 'find', 'find_if', 'any_of', 'all_of', 'none_of', 'iota',
                'inner_product', 'for_each', 'copy_if', 'remove_if', 'count_if', 'count', 'max_element', 'min_element', 'fill_n', 'copy_n',
                'reverse', 'unique', 'replace', 'generate', 'partial_sum', 'equal', 'minmax_element', 'is_sorted', 'rotate', 'lower_bound', 'upper_bound'):
        from . import algo
        return algo.call(s, st, name, args, n)
    if name in ('to_string',): return tm.app('to_string', 'S', tm.to_real(rv(0)) if rv(0).sort != 'S' else rv(0))
    if name in ('printf', 'fprintf', 'fflush', 'sprintf', 'snprintf', 'fclose', 'puts', 'perror', 'setprecision', 'setw', 'fixed', 'endl', 'flush',
                'getLogger', 'log', 'console_bridge_log', 'print', 'omp_set_num_threads', 'time'):
        for a in args: pass
        return s.fresh_app('void', 'I')
    if name in ('strcmp',): return tm.ite(tm.eq(rv(0), rv(1)), tm.ZI, tm.OI)
    if name in ('getenv',): return s.fresh_app('getenv', 'O')
    if name == 'get':
        v = s.ev(st, args[0])
        raise Unsupported('std::get')
    if name in ('lowest', 'quiet_NaN', 'denorm_min'):
        if name == 'lowest': return tm.neg(tm.num(Fraction(2) ** 1024 - Fraction(2) ** 971, 'R'))
        raise Unsupported(name)
    if name == 'max' and not args: return tm.num(Fraction(2) ** 1024 - Fraction(2) ** 971, 'R')
    raise Unsupported('call of %s' % (q or name))


def make_obj(s, st, cls, args):
    k = s.tkind(cls)
    if k[0] == 'rec':
        q = k[1]
        from .exec import _is_copy
        vals = [s.ev(st, a) for a in args]
        c = s.contracts.get('new:' + q)
        if c is not None:
            r = c(s, st, None, vals, None)
            if r is not NotImplemented:
                s.used_contracts['new:' + q] = 1
                return r
        cs = [f for f in s.db.byqual.get(q + '::' + q.split('::')[-1], []) if not _is_copy(f.type, q)]
        cs2 = [f for f in cs if len(f.params) == len(vals)] or [f for f in cs if len(f.params) >= len(vals) and all(_has_default(s, f, i) for i in range(len(vals), len(f.params)))]
        if len(cs2) > 1:
            cs2 = [f for f in cs2 if all(_fits(s, st, qt(p), v) for p, v in zip(f.params, vals))] or cs2
        o = s.alloc(st, q)
        lv = LV(('obj', o))
        if not cs2:
            if vals:
                v0 = s.read(st, vals[0]) if isinstance(vals[0], LV) else vals[0]
                if isinstance(v0, tuple) and v0[0] == 'objref': v0 = s.obj_struct(st, v0[1], q)
                if isinstance(v0, Struct):
                    s.write(st, lv, v0)
                    return o
                raise Unsupported('constructor of %s' % q)
            s.run_ctor(st, q, None, [], lv)
            return o
        f = cs2[0]
        bound = [s.bind(st, qt(p), v) for p, v in zip(f.params, vals)]
        for i in range(len(vals), len(f.params)):
            e, tu = s.default_arg(f, i)
            from .exec import Frame
            f2 = Frame(None, None); f2.tu = tu
            s.frames.append(f2)
            try: r = s.ev(st, e)
            finally: s.frames.pop()
            bound.append(s.bind(st, qt(f.params[i]), r))
        s.run_ctor(st, q, f, bound, lv)
        return o
    if k[0] in ('vec', 'mat', 'smat'):
        vals = [s.ev(st, a) for a in args]
        v = construct(s, st, cls, k, vals, None)
        o = s.alloc(st, 'ext:' + cls)
        s.write(st, LV(('obj', o), (('f', '*', 'ext:' + clean(cls)),)), v)
        return o
    return s.fresh_app('opaque', 'O')


def _has_default(s, f, i):
    try:
        s.default_arg(f, i)
        return True
    except Unsupported: return False


def _fits(s, st, t, v):
    v = s.read(st, v) if isinstance(v, LV) else v
    k = s.tkind(t)
    if isinstance(v, T): return k[0] in {'I': ('I', 'R'), 'R': ('R',), 'B': ('B', 'I'), 'S': ('S',), 'O': ('ptr', 'opaque', 'func')}.get(v.sort, ())
    if isinstance(v, Arr): return k[0] == v.kind or (k[0] == 'arr' and v.kind == 'vec')
    if isinstance(v, Struct): return k[0] == 'rec' and k[1] == v.cls
    return True


def nullary(s, st, name, a, t, rd):
    mt = _matrix_type(s, t) or _matrix_type(s, rd.get('type', {}).get('qualType', ''))
    k = s.tkind(mt) if mt else ('mat', 'R', -1, 1, None)
    val = None
    if name == 'Constant': val = a.pop()
    if name == 'Unit': ui = a.pop()
    if name == 'LinSpaced':
        hi, lo = a.pop(), a.pop()
    fx = (k[2], k[3])
    if len(a) == 2: d = (a[0], a[1])
    elif len(a) == 1: d = (a[0], tm.OI) if fx[1] == 1 else (tm.OI, a[0]) if fx[0] == 1 else (a[0], tm.OI)
    else: d = (tm.num(fx[0]), tm.num(fx[1]))
    so = k[1]
    tag = k[4]
    if name == 'Zero': return Arr('mat', (so,), d, FillBase(tm.num(0, so)), tag=tag)
    if name == 'Ones': return Arr('mat', (so,), d, FillBase(tm.num(1, so)), tag=tag)
    if name == 'Constant': return Arr('mat', (so,), d, FillBase(tm.to_real(val) if so == 'R' else val), tag=tag)
    if name == 'Identity': return Arr('mat', (so,), d, FnBase(lambda i, j: tm.ite(tm.eq(i, j), tm.num(1, so), tm.num(0, so))))
    if name == 'Unit': return Arr('mat', (so,), d, FnBase(lambda i, j: tm.ite(tm.eq(i, ui), tm.num(1, so), tm.num(0, so))))
    if name == 'LinSpaced':
        m = tm.to_real(tm.sub(d[0], tm.OI))
        return mat(d[0], d[1], lambda i, j: tm.add(lo, tm.div(tm.mul(tm.sub(hi, lo), tm.to_real(i)), m)))
    raise Unsupported('Eigen %s' % name)


# ---------------------------------------------------------------- operators
def operator(s, st, name, args, n):
    op = name[len('operator'):]
    if op in ('<<', '>>'):
        return shift_op(s, st, op, args, n)
    if op == ',':
        return comma(s, st, args, n)
    if op == '=':
        v = s.rv(st, args[1])
        lv = s.ev(st, args[0])
        if isinstance(v, tuple) and v and v[0] == 'objref':
            v = s.obj_struct(st, v[1], s.tkind(qt(args[0]))[1])
        old = None
        if isinstance(lv, LV):
            if lv.root[0] == 'cell' and not lv.path: old = st.cells.get(lv.root[1])
            assign(s, st, lv, v, qt(args[0]))
            return lv
        if isinstance(lv, tuple) and lv and lv[0] == 'backins': return lv
        raise Unsupported('assignment to r-value')
    if op in ('+=', '-=', '*=', '/='):
        y = s.rv(st, args[1])
        lv = s.ev(st, args[0])
        x = s.read(st, lv) if isinstance(lv, LV) else lv
        if isinstance(x, (It,)):
            s.write(st, lv, s.shift(st, x, y if op == '+=' else tm.neg(y)))
            return lv
        if isinstance(x, T) and x.sort == 'S':
            s.write(st, lv, tm.app('strcat', 'S', x, y if y.sort == 'S' else tm.app('tostr', 'S', y)))
            return lv
        if isinstance(x, Arr) and isinstance(y, Arr) and op in ('+=', '-=') and isinstance(lv, LV):
            s.oblige(st, 'dims', tm.and_(tm.eq(x.dims[0], y.dims[0]), tm.eq(x.dims[1], y.dims[1])), 'equal matrix dimensions')
            sg = (lambda e: e) if op == '+=' else tm.neg
            block_add(s, st, lv, x, lambda i, j: sg(y.get(i, j)))
            return lv
        if isinstance(x, Arr) and isinstance(y, T) and x.tag == 'arr' and op in ('+=', '-='):
            w = cw(x, lambda e: tm.add(e, y if op == '+=' else tm.neg(y)))
        else: w = matop(s, st, op[0], x, y) if isinstance(x, Arr) else s.binop(st, op[0], x, y, qt(args[0]), qt(args[0]))
        if isinstance(x, Arr): w = Arr(x.kind, x.ety, w.dims, w.base, w.log, w.dims0, tag=x.tag)
        s.write(st, lv, w)
        return lv
    if op in ('[]', '()'):
        o = s.ev(st, args[0])
        v = s.read(st, o) if isinstance(o, LV) else o
        if isinstance(v, Arr):
            if v.kind == 'vec': return vec_method(s, st, 'operator[]', o, args[1:], n)
            return eigen_method(s, st, 'operator()', o, v, args[1:], n)
        from .maps import is_map, map_method
        if is_map(v): return map_method(s, st, 'operator[]', o, v, args[1:], n)
        if isinstance(v, It):
            k = s.rv(st, args[1])
            c = s.read(st, v.lv)
            return v.lv.ext(('i', s.seqidx(c, tm.add(v.pos, k))))
        if op == '()' and len(args) == 3 and 'equal_to<' in str(args[0].get('type', {})):
            x, y = s.rv(st, args[1]), s.rv(st, args[2])
            if isinstance(x, T) and isinstance(y, T): return tm.eq(x, y)
        if op == '()': return s.call_value(st, v, args[1:], n)
        if isinstance(v, T) and v.sort == 'O' and s.contracts.get('opaque:[]'):
            return s.contracts['opaque:[]'](s, st, v, [s.ev(st, a) for a in args[1:]], n)
        raise Unsupported('operator%s on %s' % (op, type(v).__name__))
    if op == '->':
        v = s.rv(st, args[0])
        if isinstance(v, T) and v.sort == 'O': return v
        if isinstance(v, It):
            return Ptr(s.deref(st, v))
        if isinstance(v, (Ptr, IteV)): return v
        if isinstance(v, tuple) and v and v[0] == 'cursor':
            return Ptr(cursor_deref(s, st, v))
        raise Unsupported('operator-> on %s' % type(v).__name__)
    if op == '*' and len(args) == 1:
        v = s.rv(st, args[0])
        if isinstance(v, T) and v.sort == 'I' and '_List_' in str(args[0].get('type', {})): return v
        if isinstance(v, T) and v.sort == 'O':
            k = s.tkind(qt(args[0]))
            if k[0] == 'ptr':
                pk = s.tkind(k[1])
                if pk[0] not in ('rec', 'opaque'): return LV(('obj', v), (('f', '*', 'ext:' + clean(k[1])),))
            return LV(('obj', v))
        if isinstance(v, tuple) and v and v[0] == 'cursor': return cursor_deref(s, st, v)
        return s.deref(st, v)
    if op in ('++', '--'):
        lv = s.ev(st, args[0])
        old = s.read(st, lv)
        if isinstance(old, tuple) and old and old[0] == 'cursor': raise Unsupported('cursor')
        s.write(st, lv, s.shift(st, old, tm.OI if op == '++' else tm.neg(tm.OI)))
        return old if len(args) > 1 else lv
    if op == '!': return tm.not_(s.tobool(st, s.rv(st, args[0])))
    if op == '-' and len(args) == 1: return matop(s, st, '-', None, s.rv(st, args[0]))
    if op == 'bool' or op == ' bool': return s.tobool(st, s.rv(st, args[0]))
    if op in ('+', '-', '*', '/', '==', '!=', '<', '<=', '>', '>=', '&&', '||', '%'):
        x, y = s.rv(st, args[0]), s.rv(st, args[1])
        x, y = unstr(s, x, y)
        if op == '+' and isinstance(x, T) and isinstance(y, T) and 'S' in (x.sort, y.sort):
            f = lambda z: z if z.sort == 'S' else tm.app('tostr', 'S', z)
            return tm.app('strcat', 'S', f(x), f(y))
        if isinstance(x, tuple) or isinstance(y, tuple):
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'cursor':
                c = cursor_eq(x, y)
                return c if op == '==' else tm.not_(c)
        if isinstance(x, Struct) and isinstance(y, Struct) and op in ('==', '!='):
            c = tm.and_(*[tm.eq(x.f[k], y.f[k]) for k in x.f])
            return c if op == '==' else tm.not_(c)
        return s.binop(st, op, x, y, qt(n), qt(args[0]))
    raise Unsupported(name)


def unstr(s, x, y): return x, y


def assign(s, st, lv, v, t):
    """Eigen / container assignment keeps the declared kind of the target"""
    cur = None
    try: cur = s.read(st, lv)
    except Unsupported: pass
    if isinstance(cur, Arr) and isinstance(v, Arr):
        if lv.path and lv.path[-1][0] == 'v':
            if isinstance(cur, Arr) and cur.kind in ('mat', 'smat'):
                s.oblige(st, 'dims', tm.and_(tm.eq(cur.dims[0], v.dims[0]), tm.eq(cur.dims[1], v.dims[1])) if not (isvec(cur) and isvec(v)) else tm.eq(size(cur), size(v)), 'assigned block has the same size')
                if isvec(cur) and isvec(v) and cur.dims[1] is not v.dims[1] and cur.dims != v.dims and (cur.dims[1] is tm.OI) != (v.dims[1] is tm.OI):
                    w = v
                    v = mat(w.dims[1], w.dims[0], lambda i, j: w.get(j, i))
                if isinstance(v, Arr) and v.kind in ('mat', 'smat') and tuple(v.dims) != tuple(cur.dims):
                    # equal by the obligation above: use the destination's extent
                    w2 = v
                    v = mat(cur.dims[0], cur.dims[1], lambda i, j: w2.get(i, j))
            if isinstance(lv.path[-1][1], TagView): v = v.retag('arr')
        else:
            if cur.kind in ('mat', 'smat'):
                if cur.dims[1] is tm.OI and v.dims[1] is not tm.OI and v.dims[0] is tm.OI:
                    w = v
                    v = mat(w.dims[1], tm.OI, lambda i, j: w.get(j, i))
                v = Arr(cur.kind, cur.ety, v.dims, v.base, v.log, v.dims0, None, cur.tag)
            elif cur.kind == 'vec' and v.ety != cur.ety: v = Arr('vec', cur.ety, v.dims, v.base, v.log, v.dims0)
    s.write(st, lv, s.coerce(st, v, t) if isinstance(v, T) else v)


def block_add(s, st, lv, x, f):
    if lv.path and lv.path[-1][0] == 'v':
        vw = lv.path[-1][1]
        pre = LV(lv.root, lv.path[:-1])
        old = s.read(st, pre)
        if isinstance(vw, TagView) or (isinstance(vw, Block) and pre.path and pre.path[-1][0] == 'v' and isinstance(pre.path[-1][1], TagView)):
            if isinstance(vw, TagView): return block_add(s, st, pre, old, f)
        if isinstance(vw, Block) and not (pre.path and pre.path[-1][0] == 'v'):
            s.write(st, pre, vw.addto(old, f))
            return
        if isinstance(vw, MapView) and vw.m is tm.OI and not (pre.path and pre.path[-1][0] == 'v'):
            v = tm.fresh('a', 'I')
            s.write(st, pre, old.with_log(('loop', tm.TRUE, v, tm.ZI, vw.n, (('add', tm.TRUE, ij(old, tm.add(vw.off, v)), f(v, tm.ZI)),))))
            return
        s.write(st, lv, mat(x.dims[0], x.dims[1], lambda i, j: tm.add(x.get(i, j), f(i, j))))
        return
    s.write(st, lv, Whole(x).addto(x, f))


def shift_op(s, st, op, args, n):
    a = args[0]
    t = qt(a)
    if 'Matrix<' in t or 'VectorX' in t or 'Array<' in t or 'Vector' in t and 'Eigen' in t:
        lv = s.ev(st, args[0])
        v = s.rv(st, args[1])
        return ('commainit', lv, fill_comma(s, st, lv, 0, v))
    # string streams collect what is written; other streams have no effect on the modelled state
    e = a
    while e.get('kind') in ('CXXOperatorCallExpr', 'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'):
        e = e['inner'][1] if e['kind'] == 'CXXOperatorCallExpr' else e['inner'][0]
    if op == '<<' and e.get('kind') == 'DeclRefExpr' and e['referencedDecl'].get('id') in s.frames[-1].env:
        lv = s.ev(st, a)
        if isinstance(lv, LV):
            x = s.read(st, lv)
            if isinstance(x, T) and x.sort == 'S':
                try: y = s.rv(st, args[1])
                except Unsupported: y = None
                if isinstance(y, T) and y.sort == 'S': y = y
                elif isinstance(y, T) and y.sort in 'IRB': y = tm.app('tostr', 'S', y)
                else: y = s.fresh_app('text', 'S')
                s.write(st, lv, y if x is tm.string('') else tm.app('strcat', 'S', x, y))
                return lv
    return s.fresh_app('stream', 'O')


def fill_comma(s, st, lv, pos, v):
    a = s.read(st, lv)
    if not isvec(a): raise Unsupported('comma initialiser of a matrix')
    if isinstance(v, T):
        s.write(st, LV(lv.root, lv.path + (('i', ij(a, tm.lift(pos, 'I'))),)), tm.to_real(v))
        return tm.add(tm.lift(pos, 'I'), tm.OI)
    p = tm.lift(pos, 'I')
    n = size(v)
    b = Block(p, tm.ZI, n, tm.OI) if a.dims[1] is tm.OI else Block(tm.ZI, p, tm.OI, n)
    w = v if (v.dims[1] is tm.OI) == (a.dims[1] is tm.OI) else mat(v.dims[1], v.dims[0], lambda i, j: v.get(j, i))
    s.write(st, lv, b.put(a, w, s))
    return tm.add(p, n)


def comma(s, st, args, n):
    l = s.ev(st, args[0])
    if isinstance(l, LV): l = s.read(st, l)
    if isinstance(l, tuple) and l[0] == 'commainit':
        v = s.rv(st, args[1])
        return ('commainit', l[1], fill_comma(s, st, l[1], l[2], v))
    raise Unsupported('operator,')


def cursor_deref(s, st, v):
    from .maps import cursor_deref as f
    return f(s, st, v)


def cursor_eq(a, b):
    from .maps import cursor_eq as f
    return f(a, b)


def cursor_method(s, st, name, obj, v, args): raise Unsupported('cursor.' + name)


def _objtype(n):
    """type of the object expression of a member call"""
    m = n['inner'][0]
    while m.get('kind') not in ('MemberExpr',): m = m['inner'][0]
    o = m['inner'][0]
    t = qt(o)
    while o.get('kind') == 'ImplicitCastExpr' and o.get('castKind') in ('UncheckedDerivedToBase', 'DerivedToBase', 'NoOp'):
        o = o['inner'][0]
        t = qt(o)
    return t
