"""Symbolic values of C++ objects: terms, records, arrays with an update log, l-values."""
from . import terms as tm
from .terms import T


class Unsupported(Exception):
    """the extraction or the symbolic semantics does not cover this construct"""


class Struct:
    __slots__ = ('cls', 'f')

    def __init__(s, cls, f): s.cls, s.f = cls, f
    def get(s, n):
        if n not in s.f: raise Unsupported('field %s of %s' % (n, s.cls))
        return s.f[n]
    def set(s, n, v):
        d = dict(s.f); d[n] = v
        return Struct(s.cls, d)
    def __repr__(s): return '%s%r' % (s.cls, s.f)


class Lam:
    """closure"""
    __slots__ = ('fn', 'caps', 'this')
    def __init__(s, fn, caps, this=None): s.fn, s.caps, s.this = fn, caps, this


class Void:
    pass


VOID = Void()


class Unset:
    pass


UNSET = Unset()


class It:
    """iterator / raw pointer into a sequence"""
    __slots__ = ('lv', 'pos', 'rev', 'mv')
    def __init__(s, lv, pos, rev=False, mv=False): s.lv, s.pos, s.rev, s.mv = lv, pos, rev, mv


class Ptr:
    """address of an l-value that is not a heap object"""
    __slots__ = ('lv',)
    def __init__(s, lv): s.lv = lv


class RefW(Ptr):
    """std::reference_wrapper"""
    __slots__ = ()


class IteV:
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b


class LV:
    __slots__ = ('root', 'path')
    def __init__(s, root, path=()): s.root, s.path = root, tuple(path)
    def ext(s, *st): return LV(s.root, s.path + tuple(st))
    def __repr__(s): return 'LV(%r,%r)' % (s.root, s.path)
    def same(s, o): return s.root == o.root and s.path == o.path


# ---------------------------------------------------------------- arrays
class Base:
    nz = None
    def get(s, arr, idx): raise NotImplementedError


class SymBase(Base):
    def __init__(s, world, name, args, ety, step):
        s.world, s.name, s.args, s.ety, s.step = world, name, args, ety, step
    def get(s, arr, idx): return s.world.symval(s.ety, s.name + '|' + s.step, s.args + tuple(idx))
    def nzt(s, idx): return tm.app(s.name + '|nz', 'B', *(s.args + tuple(idx)))


class FillBase(Base):
    def __init__(s, v): s.v = v
    def get(s, arr, idx):
        if s.v is None: return UNSET
        return s.v


class FnBase(Base):
    def __init__(s, fn): s.fn = fn; s.memo = {}
    def get(s, arr, idx):
        r = s.memo.get(idx)
        if r is None:
            r = s.memo[idx] = s.fn(*idx)
        return r


class MapBase(Base):
    """element-wise image under a term substitution"""
    def __init__(s, b, f): s.b, s.f = b, f; s.memo = {}
    def get(s, arr, idx):
        r = s.memo.get(idx)
        if r is None:
            ph = tuple(tm.fresh('ix', i.sort) for i in idx)
            v = vmap(s.b.get(arr, ph), s.f)
            r = s.memo[idx] = vsubst(v, dict(zip(ph, idx)))
        return r


# log operations (tuples):
#  ('set', guard, idx, val) ('add', guard, idx, delta) ('push', guard, val) ('loop', guard, v, lo, hi, ops)
class Arr:
    __slots__ = ('kind', 'ety', 'dims', 'base', 'log', 'dims0', 'nz', 'tag', '_lens')

    def __init__(s, kind, ety, dims, base, log=(), dims0=None, nz=None, tag=None):
        s.kind, s.ety, s.dims, s.base, s.log = kind, ety, tuple(dims), base, tuple(log)
        s.dims0 = tuple(dims0) if dims0 is not None else s.dims
        s.nz = nz
        s.tag = tag
        s._lens = None

    def __repr__(s): return 'Arr<%s>%r' % (s.kind, s.dims)

    def with_log(s, op):
        if op[0] == 'loop' and s.kind == 'mat':
            f = filled(s.dims, op)
            if f is not None: return Arr(s.kind, s.ety, s.dims, FnBase(f), (), s.dims, None, s.tag)
        dims = s.dims
        n = oplen(op)
        if n is not tm.ZI: dims = (tm.is_len(tm.add(dims[0], n)),) + dims[1:]
        log = s.log
        if op[0] == 'set' and op[1] is tm.TRUE and log and log[-1][0] in ('set', 'add') and log[-1][2] == op[2]:
            log = log[:-1]
        elif op[0] == 'set' and op[1] is tm.TRUE and log and log[-1][0] == 'push' and log[-1][1] is tm.TRUE and len(op[2]) == 1 and tm.sub(op[2][0], dims[0]) is tm.num(-1):
            log, op = log[:-1], ('push', tm.TRUE, op[3])     # the element just appended
        return Arr(s.kind, s.ety, dims, s.base, log + (op,), s.dims0, None, s.tag)

    def retag(s, tag): return Arr(s.kind, s.ety, s.dims, s.base, s.log, s.dims0, s.nz, tag)

    def lens(s):
        if s._lens is None:
            l = s.dims0[0] if s.dims0 else tm.ZI
            out = []
            for op in s.log:
                out.append(l)
                l = tm.add(l, oplen(op))
            s._lens = out
        return s._lens

    def get(s, *idx):
        r = eval_log(s, len(s.log), idx)
        if r is UNSET: raise Unsupported('read of an unset element')
        return r

    def len(s): return s.dims[0]


def filled(dims, op):
    """a loop that writes every element of an array, each once: the element as a function of its index"""
    need, bs = list(dims), []
    o = op
    while o[0] == 'loop' and o[1] is tm.TRUE and len(o[5]) == 1 and o[3] is tm.ZI:
        bs.append((o[2], o[4]))
        o = o[5][0]
    if o[0] != 'set' or o[1] is not tm.TRUE or not bs or len(o[2]) != len(dims): return None
    if any(w in n.fv for w, _ in bs for _, n in bs): return None
    m, used = {}, set()
    for k, (i, n) in enumerate(zip(o[2], dims)):
        hit = next((b for b in bs if b[0] is i and b[0] not in used), None)
        if hit is not None and hit[1] is n:
            m[hit[0]] = k
            used.add(hit[0])
        elif not (i is tm.ZI and n.op == 'num' and n.data == 1): return None
    if len(used) != len(bs): return None
    return lambda *ix: vsubst(o[3], {w: ix[k] for w, k in m.items()})


def oplen(op, ctx=()):
    k = op[0]
    if k in ('set', 'add', 'fill'): return tm.ZI
    if k == 'push': return tm.ite(op[1], tm.OI, tm.ZI)
    if k == 'loop':
        if not has_push(op): return tm.ZI
        c2 = tuple(ctx) + (tm.le(op[3], op[2]), tm.lt(op[2], op[4]))
        l = oplen_list(op[5], c2)
        if l is tm.ZI: return l
        n = tm.max0(tm.sub(op[4], op[3]), ctx) if l is tm.OI else tm.Sum(op[2], op[3], op[4], l)
        return tm.ite(op[1], n, tm.ZI)
    raise Unsupported(k)


def has_push(op):
    if op[0] == 'loop': return any(has_push(o) for o in op[5])
    return op[0] == 'push'


def oplen_list(ops, ctx=()):
    return tm.add(tm.ZI, *[oplen(o, ctx) for o in ops])


def opkinds(op):
    if op[0] == 'loop':
        r = set()
        for o in op[5]: r |= opkinds(o)
        return r
    return {op[0]}


def eval_log(arr, n, idx):
    if n == 0:
        return arr.base.get(arr, idx)
    op = arr.log[n - 1]
    prev = lambda: eval_log(arr, n - 1, idx)
    L = arr.lens()[n - 1] if arr.kind == 'vec' else None
    return eval_op(op, idx, prev, L)


def idxeq(a, b):
    return tm.and_(*[obj_eq(x, y) if x.sort == 'O' else tm.eq(x, y) for x, y in zip(a, b)])


def is_alloc(t): return t.op == 'app' and isinstance(t.data, str) and t.data.startswith('obj#')


def zip2(a, b, f):
    """f of the corresponding leaves of two comprehensions; None when the shapes differ"""
    if a.op != b.op or len(a.args) != len(b.args): return None
    if a.op == 'cleaf': return [f(a.args[1], b.args[1])] if a.args[0] is b.args[0] else None
    if a.op == 'cloop':
        if a.args[0] is not b.args[0] or a.args[1] is not b.args[1]: return None
        v, x = tm.open_binder(a)
        return zip2(x, tm.open_binder(b, v)[1], f)
    out = []
    for x, y in zip(a.args, b.args):
        r = zip2(x, y, f)
        if r is None: return None
        out += r
    return out


def leaf_elems(t):
    """elements of a comprehension"""
    if t.op == 'cleaf': return [t.args[1]]
    if t.op == 'cloop': return leaf_elems(tm.open_binder(t)[1])
    return [e for a in t.args for e in leaf_elems(a)]


def obj_eq(a, b):
    if a is b: return tm.TRUE
    if a.op == 'ite': return tm.ite(a.args[0], obj_eq(a.args[1], b), obj_eq(a.args[2], b))
    if b.op == 'ite': return tm.ite(b.args[0], obj_eq(a, b.args[1]), obj_eq(a, b.args[2]))
    xa, xb = is_alloc(a), is_alloc(b)
    if xa and xb:
        if a.data != b.data: return tm.FALSE
        return tm.and_(*[tm.eq(x, y) for x, y in zip(a.args, b.args)])
    if xa or xb:
        o = b if xa else a
        # freshly allocated objects differ from everything that existed before and from null
        if o.op in ('var', 'app'):
            nm = o.data if isinstance(o.data, str) else ''
            if not nm.startswith('h!') and not nm.startswith('rec!'): return tm.FALSE
        if o.op == 'at':
            n = a if xa else b
            # n may itself name the iteration by the same position of a comprehension of the same shape
            inner = [x for x in n.args if x.op == 'at' and x.args[0] is o.args[0]]
            if not inner and all(obj_eq(n, e) is tm.FALSE for e in leaf_elems(o.args[1])): return tm.FALSE
            if len(inner) == 1:
                bs = zip2(o.args[1], inner[0].args[1], lambda e, i: obj_eq(tm.subst(n, {inner[0]: i}), e))
                if bs is not None:
                    if all(x is tm.TRUE for x in bs): return tm.TRUE
                    if all(x is tm.FALSE for x in bs): return tm.FALSE
    if a.data == 'nullptr' and b.op == 'var' and isinstance(b.data, str) and b.data.startswith('&'): return tm.FALSE
    if b.data == 'nullptr' and a.op == 'var' and isinstance(a.data, str) and a.data.startswith('&'): return tm.FALSE
    return tm.eq(a, b)


def eval_op(op, idx, prev, L):
    k = op[0]
    if k == 'set':
        c = tm.and_(op[1], idxeq(idx, op[2]))
        if c is tm.FALSE: return prev()
        if c is tm.TRUE: return op[3]
        return vite(c, op[3], prev())
    if k == 'add':
        c = tm.and_(op[1], idxeq(idx, op[2]))
        if c is tm.FALSE: return prev()
        return tm.add(prev(), tm.ite(c, op[3], tm.num(0, op[3].sort)))
    if k == 'push':
        c = tm.and_(op[1], tm.eq(idx[0], L))
        if c is tm.FALSE: return prev()
        if c is tm.TRUE: return op[2]
        return vite(c, op[2], prev())
    if k == 'fill':        # ('fill', guard, off, tree): tree elements written from index off on
        n = tree_len(op[3])
        c = tm.and_(op[1], tm.le(op[2], idx[0]), tm.lt(idx[0], tm.add(op[2], n)))
        if c is tm.FALSE: return prev()
        return vite(c, tree_at(op[3], tm.sub(idx[0], op[2])), prev())
    if k == 'loop':
        ks = opkinds(op)
        if ks == {'push'}:
            tree = [optree(op)]
            n = oplen(op)
            c = tm.and_(tm.le(L, idx[0]), tm.lt(idx[0], tm.add(L, n)))
            if c is tm.FALSE: return prev()
            v = tree_at(tree, tm.sub(idx[0], L))
            return v if c is tm.TRUE else vite(c, v, prev())
        if ks == {'add'}:
            d = add_total(op, idx)
            return tm.add(prev(), d)
        if ks == {'set'}:
            return eval_setloop(op, idx, prev)
        if ks <= {'set', 'add'}:
            raise Unsupported('mixed set/add loop')
        raise Unsupported('mixed loop ops %s' % ks)
    raise Unsupported(k)


def add_total(op, idx):
    if op[0] == 'loop':
        # increments whose index determines the iteration need no sum
        hits = []

        def walk(o, binders, guards):
            if o[0] == 'loop':
                for x in o[5]: walk(x, binders + [(o[2], o[3], o[4])], guards + [o[1]])
            else: hits.append((o, binders, guards + [o[1]]))
        walk(op, [], [])
        tot = []
        for o, binders, guards in hits:
            need = [b for b in binders]
            sol = solve_idx(o[2], idx, need) if all(any(v in p.fv for p in o[2]) for v, _, _ in binders) else None
            if sol is None: break
            m, conds = sol
            g = tm.and_(*conds, *[tm.subst(x, m) for x in guards])
            tot.append(tm.ite(g, tm.subst(o[3], m), tm.num(0, o[3].sort)) if g is not tm.FALSE else tm.num(0, o[3].sort))
        else:
            return tm.add(*tot)
    if op[0] == 'add':
        c = tm.and_(op[1], idxeq(idx, op[2]))
        return tm.ite(c, op[3], tm.num(0, op[3].sort))
    v = tm.fresh('k', 'I')
    s = {op[2]: v}
    b = tm.add(*[vsubst(add_total(o, idx), s) for o in op[5]])
    t = tm.Sum(v, op[3], op[4], b)
    return tm.ite(op[1], t, tm.num(0, t.sort))


def eval_setloop(op, idx, prev):
    """last write wins: search each set op in reverse program order, solving its index for the loop variables"""
    hits = []

    def walk(o, binders, guards):
        if o[0] == 'loop':
            for x in reversed(o[5]): walk(x, binders + [(o[2], o[3], o[4])], guards + [o[1]])
        else:
            hits.append((o, binders, guards + [o[1]]))
    walk(op, [], [])
    # several set statements: the latest write wins (iterations compared lexicographically over the loops they share,
    # then textual order)
    outs = []
    for o, binders, guards in hits:
        sol = solve_idx(o[2], idx, binders, guards)
        if sol is None and len(hits) == 1:
            r = by_object(o, idx, binders, guards, prev)
            if r is not None: return r
        if sol is None: raise Unsupported('array write with an index that does not determine the iteration: %s for %s' % (tm.show(o[2][0])[:80] if hasattr(tm,'show') else o[2][0], [b[0] for b in binders]))
        m, conds = sol
        g = tm.and_(*conds, *[tm.subst(x, m) for x in guards])
        if g is not tm.FALSE: outs.append((g, o, m, binders))

    def notlater(i, j):
        """write j (earlier in the text than i) does not come after write i"""
        bi, mi, bj, mj = outs[i][3], outs[i][2], outs[j][3], outs[j][2]
        common = [x[0] for x, y in zip(bi, bj) if x[0] is y[0]]
        r = tm.TRUE
        for v in reversed(common): r = tm.or_(tm.lt(mj[v], mi[v]), tm.and_(tm.eq(mj[v], mi[v]), r))
        return r
    for i, (g, o, m, binders) in enumerate(outs):
        for j in range(i + 1, len(outs)):
            g = tm.and_(g, tm.or_(tm.not_(outs[j][0]), notlater(i, j)))
        outs[i] = (g, o, m, binders)
    def build(i):
        if i == len(outs): return prev()
        g, o, m, _ = outs[i]
        if g is tm.FALSE: return build(i + 1)
        val = vsubst(o[3], m)
        return val if g is tm.TRUE else vite(g, val, build(i + 1))
    return build(0)


def by_object(o, idx, binders, guards, prev):
    """writes to objects whose new value depends on the object only: whichever iterations wrote it, the value is that of the object"""
    if len(o[2]) != 1 or o[2][0].sort != 'O': return None
    pat, e = o[2][0], idx[0]
    bv = {v for v, _, _ in binders}
    val = vmap(o[3], lambda t: tm.replace_atoms(t, lambda x: e if x is pat else None))
    if any(v in x.fv for v in bv for x in vterms(val)): return None
    rng = []
    for v, lo, hi in binders: rng += [tm.le(lo, v), tm.lt(v, hi)]
    c = tm.and_(*rng, *guards, idxeq((pat,), idx))
    w = c
    for v, _, _ in reversed(binders): w = tm.exists(v, w)
    m = {}
    if match_term(pat, e, bv, m) and all(v in m for v in bv): w = tm.or_(tm.subst(c, m), w)
    return vite(w, val, prev())


def vterms(v):
    out = []
    vmap(v, lambda t: (out.append(t), t)[1])
    return out


def match_term(p, e, bv, m):
    if p is e and not (p.fv & bv): return True
    if p in bv:
        if p in m: return m[p] is e
        m[p] = e
        return True
    if p.op != e.op or p.data != e.data or len(p.args) != len(e.args) or p.op in tm.BINDERS or not p.args: return False
    return all(match_term(a, b, bv, m) for a, b in zip(p.args, e.args))


def lin(e, v):
    c = None
    for m, k in tm.poly(e).items():
        occ = [a for a, _ in m if v in a.fv]
        if not occ: continue
        if len(m) == 1 and m[0] == (v, 1): c = k
        else: return None
    return c


def solve_idx(pat, idx, binders, guards=()):
    """binders [(v,lo,hi)], outermost first: find v's with pat==idx; returns (map, conditions) or None.
    Also accepts binders that do not occur in the index when their last iteration wins."""
    m = {}
    conds = []
    eqs = [(p, i) for p, i in zip(pat, idx)]
    todo = list(binders)
    progress = True
    while todo and progress:
        progress = False
        for b in list(todo):
            v, lo, hi = b
            for e in list(eqs):
                p = tm.subst(e[0], m)
                others = [w for w, _, _ in todo if w is not v]
                if v in p.fv and not any(w in p.fv for w in others):
                    c = lin(p, v)
                    if c in (1, -1):
                        rest = tm.sub(p, tm.scale(v, c))
                        s = tm.scale(tm.sub(e[1], rest), c)
                        m = {k: tm.subst(x, {v: s}) for k, x in m.items()}
                        m[v] = s
                        eqs.remove(e)
                        todo.remove(b)
                        progress = True
                        break
            if progress: break
        if progress: continue
        # row-major flattened index  a*w + b + off  with b a todo binder of range [0,w) and coefficient 1
        for e in list(eqs):
            p = tm.subst(e[0], m)
            ts = [b for b in todo if b[0] in p.fv]
            if len(ts) != 2: continue
            for (v, lo, hi), (w, lo2, hi2) in ((ts[0], ts[1]), (ts[1], ts[0])):
                if lin(p, w) != 1 or lo2 is not tm.ZI: continue
                rest = tm.sub(p, w)
                # coefficient of v as a term
                q0 = tm.subst(rest, {v: tm.ZI})
                q1 = tm.sub(tm.subst(rest, {v: tm.OI}), q0)
                if v in q1.fv or w in q1.fv or tm.sub(rest, tm.add(q0, tm.mul(q1, v))) is not tm.ZI: continue
                if tm.sub(hi2, q1) is not tm.ZI or v in hi2.fv: continue
                x = tm.sub(e[1], q0)
                conds.append(tm.le(tm.ZI, x))
                m[v] = tm.idiv(x, q1)
                m[w] = tm.imod(x, q1)
                eqs.remove(e)
                todo.remove((v, lo, hi)); todo.remove((w, lo2, hi2))
                progress = True
                break
            if progress: break
    for b in list(todo):
        v, lo, hi = b
        es = [e for e in eqs if v in tm.subst(e[0], m).fv]
        if len(todo) == 1 and len(es) == 1 and es[0][0].sort == 'O':
            t = injective(tm.subst(es[0][0], m), v, lo, hi, es[0][1])
            if t is not None:
                m = {k: tm.subst(x, {v: t}) for k, x in m.items()}
                m[v] = t
                todo.remove(b)
    for b in list(todo):
        v, lo, hi = b
        if not any(v in tm.subst(p, m).fv for p, _ in eqs):
            # index independent of this binder: the last iteration wins, provided every iteration writes alike
            if any(v in g.fv for g in guards) or any(v in x.fv for w, l, h in binders if w is not v for x in (l, h)): return None
            m[v] = tm.sub(hi, tm.OI)
            todo.remove(b)
            conds.append(tm.lt(lo, hi))
            if True: conds.append(('last', v))
    for b in list(todo):
        v, lo, hi = b
        es = [e for e in eqs if v in tm.subst(e[0], m).fv]
        if len(todo) != 1 or len(es) != 1: return None
        r = invert(tm.subst(es[0][0], m), v, lo, hi, es[0][1], guards)
        if r is None: return None
        m = {k: tm.subst(x, {v: r[0]}) for k, x in m.items()}
        m[v] = r[0]
        conds += r[1]
        todo.remove(b)
    if todo: return None
    if any(isinstance(c, tuple) for c in conds): return None if len(binders) == 0 else _strip(m, conds, eqs, binders)
    return m, conds + _ranges(m, eqs, binders)


def step_of(p, v):
    """p(v+1) - p(v) for an index that is a running total of the iterations before v; None for other shapes"""
    st = tm.ZI
    for mono, k in tm.poly(p).items():
        occ = [a for a, _ in mono if v in a.fv]
        if not occ: continue
        if len(mono) != 1 or mono[0][1] != 1: return None
        a = mono[0][0]
        if a is v: st = tm.add(st, tm.num(k))
        elif a.op == 'sum' and a.args[1] is v and v not in a.args[0].fv and v not in a.args[-1].fv:
            st = tm.add(st, tm.scale(tm.open_binder(a, v)[1], k))
        else: return None
    return st


def candidates(p, v, idx):
    """iterations t for which the running total p is named by the sums of idx"""
    out = []
    pats = [(a, k) for mono, k in tm.poly(p).items() for a, _ in mono if a.op == 'sum' and v in a.fv]
    for s in tm.subterms(idx):
        if s.op != 'sum': continue
        for a, _ in pats:
            if a.args[-1] is s.args[-1] and a.args[0] is s.args[0] and s.args[1] not in out: out.append(s.args[1])
    if p.sort == 'I':
        d = tm.sub(idx, p)
        if v not in d.fv: out.append(v)
        st = step_of(p, v)
        if st is not None and st.op == 'num' and st.data > 1:        # evenly spaced: divide the distance from the first one
            t, c = tm.ZI, int(st.data)
            for mono, k in tm.poly(tm.sub(idx, tm.subst(p, {v: tm.ZI}))).items():
                if k % c and mono: break
                q = tm.num(int(k) // c, 'I')
                for a, e in mono:
                    for _ in range(e): q = tm.mul(q, a)
                t = tm.add(t, q)
            else: out.append(t)
    return out


def settled(t, ctx):
    """decide the conditions inside t that hold or fail for every value of the variables in the given range"""
    def go(x):
        if not any(y.op == 'ite' for y in tm.subterms(x)): return x
        if x.op in tm.BINDERS: return x
        if x.op == 'ite':
            c = go(x.args[0])
            if c.bh == 0 and c.op in ('le0', 'lt0', 'eq0', 'and', 'or', 'not') and not any(y.op in ('sum', 'at') for y in tm.subterms(c)):
                if tm.VALID_HOOK[0](ctx, c): return go(x.args[1])
                if tm.VALID_HOOK[0](ctx, tm.not_(c)): return go(x.args[2])
            return tm.ite(c, go(x.args[1]), go(x.args[2]))
        return tm.rebuild(x.op, x, [go(a) for a in x.args]) if x.args else x
    return go(t)


def settled_total(p, v, lo, hi):
    """the running total p with the conditions of its summands decided for the iterations v ranges over"""
    mp = {}
    for mono, k in tm.poly(p).items():
        for a, _ in mono:
            if a.op == 'sum' and a.args[1] is v and a.args[0] is lo and v not in a.args[-1].fv:
                w, b = tm.open_binder(a)
                b2 = settled(b, [tm.le(lo, w), tm.lt(w, hi)])
                if b2 is not b: mp[a] = tm.Sum(w, lo, v, b2)
    return tm.replace_atoms(p, lambda x: mp.get(x)) if mp else p


GLOBALS = []         # preconditions of the contract being verified (they hold in every state)
RANGES = {}          # iteration number of a loop -> facts that hold for it at the loop head
_inj = {}


def injective(p, v, lo, hi, idx):
    """t with p[v:=t] being idx, where p names a different object in every iteration of [lo,hi)"""
    if is_alloc(p) and idx.op == 'ite':
        a, b = (injective(p, v, lo, hi, x) for x in idx.args[1:])
        return None if a is None or b is None else tm.ite(idx.args[0], a, b)
    if is_alloc(p) and idx.op == 'at' and obj_eq(p, idx) is not tm.FALSE:
        bad = []

        def back(e):
            r = injective(p, v, lo, hi, e)
            if r is None: bad.append(e)
            return tm.ZI if r is None else r
        tree = tm.cmap(idx.args[1], back)
        return None if bad else tm.cat_(idx.args[0], tree, 'I')
    if is_alloc(p) and obj_eq(p, idx) is tm.FALSE: return lo     # no iteration: the equation itself is false
    if p.op != 'app' or idx.op != 'app' or p.data != idx.data or len(p.args) != len(idx.args): return None
    t = None
    for a, b in zip(p.args, idx.args):
        if v not in a.fv:
            if a is not b: return None
        elif a is v:
            if t is not None and t is not b: return None
            t = b
        else: return None
    if t is None: return None
    if is_alloc(p): return t
    key = (tm.cloop(v, lo, hi, tm.cleaf(tm.TRUE, p)), len(GLOBALS))
    r = _inj.get(key)
    if r is None:
        a, b = tm.fresh('q', 'I'), tm.fresh('q', 'I')
        rng = [tm.le(lo, a), tm.lt(a, b), tm.lt(b, hi)]
        for x in hi.fv | lo.fv: rng += RANGES.get(x, [])
        r = _inj[key] = tm.VALID_HOOK[0](GLOBALS + rng, tm.ne(tm.subst(p, {v: a}), tm.subst(p, {v: b})))
    return t if r else None


def invert(p, v, lo, hi, idx, guards=()):
    """the iteration whose running total p is idx: exact where idx is a named total, otherwise an unknown one"""
    if tm.VALID_HOOK[0] is None: return None
    p = settled_total(p, v, lo, hi)
    st = step_of(p, v)
    if st is None: return None
    inr = [tm.le(lo, v), tm.lt(v, hi)]
    gs = [g for g in guards if isinstance(g, T)]
    valid = lambda f, g: tm.VALID_HOOK[0](f, g)
    if not valid(inr, tm.le(tm.ZI, st)) or not valid(inr + gs, tm.lt(tm.ZI, st)): return None
    w = tm.app('iteration', 'I', tm.cloop(v, lo, hi, tm.cleaf(tm.TRUE, p)), idx)
    for t in candidates(p, v, idx):
        d = tm.sub(idx, tm.subst(p, {v: t}))
        good = tm.and_(tm.le(lo, t), tm.lt(t, hi))
        if d.op != 'num':                       # named up to sizes that are equal on the paths that matter
            if any(x.op in ('sum', 'ite', 'at') or x is v for x in tm.subterms(d)): continue
            k = tm.num(dict(tm.poly(d)).get((), 0), 'I')
            good = tm.and_(good, tm.eq(d, k))
            d = k
        d = d.data
        if d >= 0: good = tm.and_(good, tm.lt(tm.num(d), tm.subst(st, {v: t})))
        elif not valid(inr + gs, tm.lt(tm.num(-d), st)): continue
        w = tm.ite(good, t, w)
    return w, [tm.le(tm.subst(p, {v: lo}), idx), tm.lt(idx, tm.subst(p, {v: hi}))]


def _ranges(m, eqs, binders):
    out = [idxeq([tm.subst(p, m)], [i]) for p, i in eqs]
    for v, lo, hi in binders:
        out.append(tm.le(tm.subst(lo, m), m[v]))
        out.append(tm.lt(m[v], tm.subst(hi, m)))
    return out


def _strip(m, conds, eqs, binders):
    return m, [c for c in conds if not isinstance(c, tuple)] + _ranges(m, eqs, binders)


# -- trees of appended values: list of ('leaf', guard, value) | ('loop', guard, v, lo, hi, [..])
def optree(op):
    if op[0] == 'push': return ('leaf', op[1], op[2])
    if op[0] == 'loop': return ('loop', op[1], op[2], op[3], op[4], [optree(o) for o in op[5]])
    raise Unsupported('tree of %s' % op[0])


def tree_len(tree, ctx=()):
    out = tm.ZI
    for t in tree:
        if t[0] == 'leaf': out = tm.add(out, tm.ite(t[1], tm.OI, tm.ZI))
        else:
            l = tree_len(t[5], tuple(ctx) + (tm.le(t[3], t[2]), tm.lt(t[2], t[4])))
            n = tm.max0(tm.sub(t[4], t[3]), ctx) if l is tm.OI else tm.Sum(t[2], t[3], t[4], l)
            out = tm.add(out, tm.ite(t[1], n, tm.ZI))
    return tm.is_len(out, ctx)


def tree_term(tree, leaf):
    """term comprehension tree for one scalar leaf selector"""
    out = []
    for t in tree:
        if t[0] == 'leaf': out.append(tm.cleaf(t[1], leaf(t[2])))
        else:
            b = tree_term(t[5], leaf)
            if t[1] is not tm.TRUE:
                lo, hi = t[3], tm.ite(t[1], t[4], t[3])
            else: lo, hi = t[3], t[4]
            out.append(tm.cloop(t[2], lo, hi, b))
    return tm.cseq(*out)


def first_leaf(tree):
    for t in tree:
        if t[0] == 'leaf': return t[2]
        r = first_leaf(t[5])
        if r is not None: return r
    return None


def tree_map(tree, f):
    out = []
    for t in tree:
        if t[0] == 'leaf': out.append(('leaf', t[1], f(t[2])))
        else: out.append(t[:5] + (tree_map(t[5], f),))
    return out


def tree_at(tree, k):
    """value at position k of the flattened tree"""
    if len(tree) == 1 and tree[0][0] == 'leaf': return tree[0][2]
    if len(tree) == 1 and tree[0][0] == 'loop':
        _, g, v, lo, hi, sub_ = tree[0]
        if all(t[0] == 'leaf' and t[1] is tm.TRUE for t in sub_):
            n = len(sub_)
            if n == 1: return vsubst(sub_[0][2], {v: tm.add(lo, k)})
            it = tm.add(lo, tm.idiv(k, tm.num(n)))
            r = tm.imod(k, tm.num(n))
            res = vsubst(sub_[-1][2], {v: it})
            for j in range(n - 2, -1, -1):
                res = vite(tm.eq(r, tm.num(j)), vsubst(sub_[j][2], {v: it}), res)
            return res
    if all(t[0] == 'leaf' and t[1] is tm.TRUE for t in tree):
        res = tree[-1][2]
        for j in range(len(tree) - 2, -1, -1): res = vite(tm.eq(k, tm.num(j)), tree[j][2], res)
        return res
    r = tree_named(tree, k)
    if r is not None: return r
    v0 = first_leaf(tree)
    if isinstance(v0, T):
        return tm.cat_(k, tree_term(tree, lambda x: _numeric(x, v0.sort)), v0.sort)
    if isinstance(v0, Struct):
        return Struct(v0.cls, {n: tree_at(tree_map(tree, lambda x, n=n: x.get(n)), k) for n in v0.f})
    if isinstance(v0, Arr):
        dims = [tree_at(tree_map(tree, lambda x, i=i: x.dims[i]), k) for i in range(len(v0.dims))]
        return Arr(v0.kind, v0.ety, dims, FnBase(lambda *i: tree_at(tree_map(tree, lambda x: x.get(*i)), k)))
    raise Unsupported('comprehension of %s' % type(v0).__name__)


def tree_named(tree, k):
    """the element at a position named by the total of the iterations before some iteration t, plus a constant"""
    if len(tree) != 1 or tree[0][0] != 'loop' or not all(x[0] == 'leaf' for x in tree[0][5]): return None
    _, g, v, lo, hi, sub_ = tree[0]
    p = tm.Sum(v, lo, v, tree_len(sub_))
    for t in candidates(p, v, k):
        d = tm.sub(k, tm.subst(p, {v: t}))
        if d.op != 'num' or d.data < 0: continue
        good = tm.and_(tm.le(lo, t), tm.lt(t, hi), tm.lt(d, tm.subst(tree_len(sub_), {v: t})))
        n = tm.ZI
        res = None
        for x in sub_:
            gx = tm.subst(x[1], {v: t})
            val = vsubst(x[2], {v: t})
            res = val if res is None else vite(tm.and_(gx, tm.eq(n, d)), val, res)
            n = tm.add(n, tm.ite(gx, tm.OI, tm.ZI))
        v0 = first_leaf(tree)
        if isinstance(v0, T):
            return tm.ite(good, _numeric(res, v0.sort), tm.cat_(k, tree_term(tree, lambda x: _numeric(x, v0.sort)), v0.sort))
        if good is tm.TRUE: return res
    return None


def _numeric(x, sort):
    if x.sort == sort: return x
    if sort == 'R': return tm.to_real(x)
    raise Unsupported('sort mismatch in comprehension')


# ---------------------------------------------------------------- generic maps
def vmap(v, f):
    if isinstance(v, T): return f(v)
    if isinstance(v, Struct): return Struct(v.cls, {k: vmap(x, f) for k, x in v.f.items()})
    if isinstance(v, Arr):
        b = v.base
        if isinstance(b, FillBase): b = FillBase(vmap(b.v, f)) if b.v is not None else b
        else: b = MapBase(b, f)
        return Arr(v.kind, v.ety, [f(d) for d in v.dims], b, tuple(opmap(o, f) for o in v.log), [f(d) for d in v.dims0], None, v.tag)
    if isinstance(v, It): return It(lvmap(v.lv, f), f(v.pos), v.rev)
    if isinstance(v, Ptr): return type(v)(lvmap(v.lv, f))
    if isinstance(v, IteV): return vite(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, Lam): return Lam(v.fn, {k: (x[0], vmap(x[1], f)) if x[0] == 'val' else x for k, x in v.caps.items()}, v.this)
    return v


def lvmap(lv, f):
    root = lv.root
    if root[0] == 'obj': root = ('obj', f(root[1]))
    return LV(root, tuple(('i', tuple(f(x) for x in s[1])) if s[0] == 'i' else s for s in lv.path))


def opmap(o, f):
    if o[0] in ('set', 'add'): return (o[0], f(o[1]), tuple(f(i) for i in o[2]), vmap(o[3], f))
    if o[0] == 'push': return ('push', f(o[1]), vmap(o[2], f))
    if o[0] == 'fill': return ('fill', f(o[1]), f(o[2]), tree_fmap(o[3], f))
    return ('loop', f(o[1]), o[2], f(o[3]), f(o[4]), tuple(opmap(x, f) for x in o[5]))


def tree_fmap(tree, f):
    return [('leaf', f(t[1]), vmap(t[2], f)) if t[0] == 'leaf' else ('loop', f(t[1]), t[2], f(t[3]), f(t[4]), tree_fmap(t[5], f)) for t in tree]


def vsubst(v, m):
    if isinstance(v, T): return tm.subst(v, m)
    m = {k: x for k, x in m.items() if k is not x}
    if not m: return v
    memo = {'keys': frozenset(m)}
    return vmap(v, lambda t: tm.subst(t, m, memo))


def same(a, b):
    """surely identical values"""
    if a is b: return True
    if isinstance(a, T) or isinstance(b, T): return a is b
    if type(a) is not type(b): return False
    if isinstance(a, Struct):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Arr):
        return a.base is b.base and a.dims == b.dims and a.log == b.log
    if isinstance(a, It): return a.pos is b.pos and a.lv.same(b.lv)
    if isinstance(a, Ptr): return a.lv.same(b.lv)
    return False


def guard_op(o, c):
    return (o[0], tm.and_(o[1], c)) + tuple(o[2:])


def vite(c, a, b):
    if c is tm.TRUE: return a
    if c is tm.FALSE: return b
    if a is b: return a
    if b is UNSET: return a
    if a is UNSET: return b
    if isinstance(a, T) and isinstance(b, T): return tm.ite(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if a.f.keys() != b.f.keys(): raise Unsupported('merge of different records %s %s' % (a.cls, b.cls))
        return Struct(a.cls, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Arr) and isinstance(b, Arr):
        if same(a, b): return a
        if a.base is b.base and a.dims0 == b.dims0 and a.kind == b.kind:
            n = 0
            while n < len(a.log) and n < len(b.log) and a.log[n] is b.log[n]: n += 1
            la = tuple(guard_op(o, c) for o in a.log[n:])
            nc = tm.not_(c)
            lb = tuple(guard_op(o, nc) for o in b.log[n:])
            pushes = any('push' in opkinds(o) or 'fill' in opkinds(o) for o in la + lb)
            if not pushes or not (la and lb) or a.kind == 'vec':
                dims = [tm.ite(c, x, y) for x, y in zip(a.dims, b.dims)]
                r = Arr(a.kind, a.ety, dims, a.base, a.log[:n] + la + lb, a.dims0, None, a.tag)
                r.dims = tuple(dims)
                return r
        if len(a.dims) != len(b.dims): raise Unsupported('merge of arrays of different rank')
        dims = [tm.ite(c, x, y) for x, y in zip(a.dims, b.dims)]
        empty = lambda v: v.kind == 'vec' and v.dims[0] is tm.ZI
        if empty(a) and not empty(b): return Arr(a.kind, a.ety, dims, FnBase(b.get), tag=a.tag)     # nothing to read on one side
        if empty(b) and not empty(a): return Arr(a.kind, a.ety, dims, FnBase(a.get), tag=a.tag)
        return Arr(a.kind, a.ety, dims, FnBase(lambda *i: vite(c, a.get(*i), b.get(*i))), tag=a.tag)
    if isinstance(a, It) and isinstance(b, It) and a.lv.same(b.lv): return It(a.lv, tm.ite(c, a.pos, b.pos))
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv.same(b.lv): return a
    if a is VOID and b is VOID: return a
    if a is None or a is UNSET: return b
    if b is None or b is UNSET: return a
    return IteV(c, a, b)


# ---------------------------------------------------------------- havoc roots inside terms
_hv = {}


def roots(t):
    """set of havoc roots (strings 'h!n') occurring in a term"""
    r = _hv.get(t)
    if r is not None: return r
    s = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x is not t and x in _hv:
            s |= _hv[x]
            continue
        if x.op in ('app', 'var') and isinstance(x.data, str) and x.data.startswith('h!'):
            s.add(x.data.split('|', 1)[0])
        st.extend(x.args)
    r = frozenset(s)
    _hv[t] = r
    return r


def vroots(v):
    """havoc roots of a value (arrays are probed at fresh indices)"""
    if isinstance(v, T): return roots(v)
    if isinstance(v, Struct):
        r = frozenset()
        for x in v.f.values(): r |= vroots(x)
        return r
    if isinstance(v, Arr):
        r = frozenset()
        for d in v.dims: r |= roots(d)
        for o in v.log: r |= oproots(o)
        if isinstance(v.base, SymBase):
            if v.base.name.startswith('h!'): r |= frozenset((v.base.name.split('|')[0],))
            for a in v.base.args: r |= roots(a)
        elif isinstance(v.base, FillBase):
            if v.base.v is not None: r |= vroots(v.base.v)
        else:
            try: r |= vroots(v.base.get(v, tuple(tm.fresh('ix', 'O' if v.kind == 'map' else 'I') for _ in range(max(1, len(v.dims))))))
            except Unsupported: pass
        return r
    if isinstance(v, It): return roots(v.pos) | lvroots(v.lv)
    if isinstance(v, Ptr): return lvroots(v.lv)
    if isinstance(v, IteV): return roots(v.c) | vroots(v.a) | vroots(v.b)
    return frozenset()


def lvroots(lv):
    r = roots(lv.root[1]) if lv.root[0] == 'obj' else frozenset()
    for s in lv.path:
        if s[0] == 'i':
            for x in s[1]: r |= roots(x)
    return r


def oproots(o):
    r = roots(o[1])
    if o[0] in ('set', 'add'):
        for i in o[2]: r |= roots(i)
        return r | vroots(o[3])
    if o[0] == 'push': return r | vroots(o[2])
    if o[0] == 'fill': return r | roots(o[2]) | treeroots(o[3])
    r |= roots(o[3]) | roots(o[4])
    for x in o[5]: r |= oproots(x)
    return r


def treeroots(tree):
    r = frozenset()
    for t in tree:
        r |= roots(t[1])
        if t[0] == 'leaf': r |= vroots(t[2])
        else: r |= roots(t[3]) | roots(t[4]) | treeroots(t[5])
    return r


WRAP = tm.num(2 ** 64)


def iscounter(t):
    """iteration counters and bound indices range over 0, 1, ..."""
    return t.op == 'var' and (not isinstance(t.data, str) or t.data.startswith('k!') or t.data.startswith('q!'))


class Resolver:
    """replaces havoc symbols by closed forms"""

    def __init__(s, table, k=None):
        s.table = table          # root -> Value
        s.k = k                  # iteration counter: non-negative
        s.memo = {}

    def __call__(s, t):
        if not any(r in s.table for r in roots(t)): return t
        return tm.replace_atoms(t, s.one, s.memo)

    def one(s, t):
        if t.op == 'le0' and s.k is not None and s.k in t.fv:
            if all(c <= 0 and all(a is s.k or tm.nonneg(a) for a, _ in m) for m, c in tm.poly(t.args[0]).items()): return tm.TRUE
        if t.op == 'ite' and t.sort == 'I' and t.args[0].op == 'le0':
            # conversion of a sum of products of iteration counters and sizes to an unsigned type
            p = t.args[0].args[0]
            if tm.add(t.args[1], p) is tm.ZI and tm.sub(t.args[2], t.args[1]) is WRAP and all(c <= 0 and all(iscounter(a) or tm.nonneg(a) for a, _ in m) for m, c in tm.poly(p).items()):
                return t.args[1]
        if t.op in ('app', 'var') and isinstance(t.data, str) and t.data.startswith('h!'):
            parts = t.data.split('|')
            if parts[0] not in s.table: return None
            v = s.table[parts[0]]
            args = list(t.args)
            r = walk_path(v, parts[1:], args)
            if isinstance(r, T):
                if r.sort != t.sort and t.sort == 'R': r = tm.to_real(r)
                return s(r) if any(x in s.table and x != parts[0] for x in roots(r)) else r
            raise Unsupported('resolution of %s' % t.data)
        return None


def walk_path(v, parts, args):
    for p in parts:
        if isinstance(v, IteV): return vite(v.c, walk_path(v.a, [p] + parts[1:], args), walk_path(v.b, [p] + parts[1:], args))
        if p == '[]' or p == '[o]': v = v.get(args.pop(0))
        elif p == '[,]':
            a = args.pop(0); b = args.pop(0)
            v = v.get(a, b)
        elif p == '#len': v = v.dims[0]
        elif p == '#rows': v = v.dims[0]
        elif p == '#cols': v = v.dims[1]
        elif p == 'nz':
            a = args.pop(0); b = args.pop(0)
            v = v.base.nzt((a, b)) if isinstance(v, Arr) and isinstance(v.base, SymBase) and not v.log else tm.ne(v.get(a, b), tm.ZR)
        elif p.startswith('.'): v = v.get(p[1:])
        else: raise Unsupported('path ' + p)
    return v
