"""Loop rule: infer, for every location the loop modifies, its value after k iterations as a closed form, by executing one
iteration from a state in which these locations hold arbitrary values.  The closed form is the loop invariant; it is sound
because each rule below is an induction principle (sum of increments, pointwise update at an index that determines the
iteration, sequence of appended elements, ...) whose premises are checked on the arbitrary iteration."""
from . import terms as tm, smt
from .terms import T
from .values import *
from .values import opkinds
from . import values as V

NUM = ('I', 'R')


class Leaf:
    def __init__(s, key, path, old): s.key, s.path, s.old = key, path, old
    def __repr__(s): return 'Leaf(%r,%r)' % (s.key, s.path)


def diff(a, b, path=()):
    """paths of differing leaves between two values"""
    if a is b or same(a, b): return []
    if isinstance(a, Struct) and isinstance(b, Struct) and a.f.keys() == b.f.keys():
        out = []
        for k in a.f: out += diff(a.f[k], b.f[k], path + (('f', k, a.cls),))
        return out
    return [path]


def state_diff(h, b):
    out = []
    for c, v in h.cells.items():
        w = b.cells.get(c)
        if w is None or w is v: continue
        for p in diff(v, w): out.append((('c', c), p))
    for m, w in b.maps.items():
        v = h.maps.get(m)
        if v is None:
            if w.log: out.append((('m', m), ()))
        elif v is not w and not same(v, w): out.append((('m', m), ()))
    return out


def get_leaf(st, key, path):
    v = st.cells[key[1]] if key[0] == 'c' else st.maps.get(key[1])
    for p in path: v = v.get(p[1])
    return v


def set_leaf(st, key, path, val):
    if key[0] == 'm':
        st.maps[key[1]] = val
        return

    def go(v, path):
        if not path: return val
        return v.set(path[0][1], go(v.get(path[0][1]), path[1:]))
    st.cells[key[1]] = go(st.cells[key[1]], path)


def havoc_value(ex, old, root, varlen):
    if isinstance(old, T): return tm.app(root, old.sort)
    if isinstance(old, It): return It(old.lv, tm.app(root, 'I'), old.rev)
    if isinstance(old, Arr):
        step = {'vec': '[]', 'mat': '[,]', 'smat': '[,]', 'map': '[o]'}.get(old.kind)
        if step is None: raise Unsupported('loop over %s' % old.kind)
        dims = old.dims
        if varlen:
            dims = (tm.app(root + '|#len', 'I'),) + tuple(old.dims[1:])
            if old.kind in ('mat', 'smat'):
                dims = (tm.app(root + '|#rows', 'I') if 0 in varlen else old.dims[0], tm.app(root + '|#cols', 'I') if 1 in varlen else old.dims[1])
        r = Arr(old.kind, old.ety, dims, SymBase(ex, root, (), old.ety, step), (), None, None, old.tag)
        if old.kind == 'umap': raise Unsupported('map in loop')
        return r
    raise Unsupported('loop modifies %s' % type(old).__name__)


def dead_value(ex, old, keys):
    ex.nh += 1
    n = 'dead!%d' % ex.nh
    step = '[]' if old.kind == 'vec' else '[,]'

    def cf(q):
        dims = (tm.app(n + '|#len', 'I', q),) if old.kind == 'vec' else (tm.app(n + '|#rows', 'I', q), tm.app(n + '|#cols', 'I', q))
        return Arr(old.kind, old.ety, dims, SymBase(ex, n, (q,), old.ety, step), (), None, None, old.tag)
    return cf


def summarise(ex, st, cond, body, inc, node):
    orig = st.copy()
    try:
        return Summary(ex, st, cond, body, inc, node).run()
    except Unsupported as e:
        fn = ex.frames[-1].fn
        for fr in reversed(ex.frames):
            prov = ex.loop_contract(st, fr)
            if prov is not None:
                return houdini(ex, st, cond, body, inc, node, prov, e)
        x = orig.copy()
        c = cond(x)
        if c is tm.FALSE or (isinstance(c, T) and smt.valid(x.all(), tm.not_(c), 1500)): return [('n', x, None)]       # never entered
        raise


class Summary:
    def __init__(s, ex, st, cond, body, inc, node):
        s.ex, s.st, s.cond, s.body, s.inc, s.node = ex, st, cond, body, inc, node
        s.k = tm.fresh('k', 'I')
        s.leaves = {}
        s.varlen = {}

    def iterate(s, h, k):
        """one iteration from state h (already holding the loop-head values). returns (cond, after-cond state, normal, exits)"""
        ex = s.ex
        base, fb = len(h.pc), len(h.facts)
        c = s.cond(h)
        hc = h.copy()
        h.pc.append(c)
        saved = ex.throws
        ex.throws = []
        try:
            outs = s.body(h)
            outs = [(('n',) + o[1:]) if o[0] == 'cont' else o for o in outs]
            outs = ex.join(outs, base + 1, fb)
            nst = None
            exits = []
            for o in outs:
                if o[0] == 'n': nst = o[1]
                else: exits.append(o)
            if nst is not None and s.inc: s.inc(nst)
            if nst is not None and nst.dead: nst = None
            thr = ex.throws
        finally:
            ex.throws = saved
        return c, hc, nst, exits, thr, base, fb

    def discover(s):
        ex = s.ex
        for _ in range(12):
            h = s.st.copy()
            h.facts.append(tm.le(tm.ZI, s.k))
            roots_ = {}
            for (key, path), root in s.leaves.items():
                old = get_leaf(s.st, key, path)
                if old is None and key[0] == 'm':
                    old = Arr('map', s.mapty[key[1]], (), SymBase(ex, key[1], (), s.mapty[key[1]], '[o]'))
                set_leaf(h, key, path, havoc_value(ex, old, root, s.varlen.get((key, path))))
                if isinstance(old, T) and not path and key in ex.counters: ex.counting[root] = True
            h0 = h.copy()
            ex.quiet += 1
            ex.loopvars.append(s.k)
            try:
                c, hc, nst, exits, thr, base, fb = s.iterate(h, s.k)
            finally:
                ex.loopvars.pop()
                ex.quiet -= 1
            new = False
            targets = [hc] + ([nst] if nst is not None else [])
            for t in targets:
                for key, path in state_diff(h0, t):
                    if key[0] == 'm':
                        s.mapty = getattr(s, 'mapty', {})
                        s.mapty[key[1]] = t.maps[key[1]].ety
                    if (key, path) not in s.leaves:
                        # a longer path may be subsumed by an existing shorter one
                        ex.nh += 1
                        for (k2, p2) in list(s.leaves):
                            if k2 == key and p2[:len(path)] == path: del s.leaves[(k2, p2)]
                        if any(k2 == key and path[:len(p2)] == p2 for (k2, p2) in s.leaves): continue
                        s.leaves[(key, path)] = 'h!%d' % ex.nh
                        new = True
                    a, b = get_leaf(h0, key, path), get_leaf(t, key, path)
                    if isinstance(a, Arr) and isinstance(b, Arr) and a.kind != 'map' and a.dims != b.dims:
                        ch = {i for i, (x, y) in enumerate(zip(a.dims, b.dims)) if x != y}
                        if not ch <= s.varlen.get((key, path), set()):
                            s.varlen[(key, path)] = s.varlen.get((key, path), set()) | ch
                            new = True
            if not new:
                return h0, c, hc, nst, exits, thr, base, fb
        raise Unsupported('loop: modified locations do not stabilise')

    # -------- solving
    def solve(s, h0, nst):
        ex, k = s.ex, s.k
        s.cf = {}        # root -> function k -> Value
        s.inc_of = {}    # root -> increment term
        upd, old = {}, {}
        for (key, path), root in s.leaves.items():
            o = get_leaf(s.st, key, path)
            if o is None: o = Arr('map', s.mapty[key[1]], (), SymBase(ex, key[1], (), s.mapty[key[1]], '[o]'))
            old[root] = o
            upd[root] = get_leaf(nst, key, path)
        s.old = old
        todo = list(upd)
        s.allroots = set(todo)
        s.why = {}
        progress = True
        while todo and progress:
            progress = False
            for root in list(todo):
                res = Resolver({r: s.cf[r](k) for r in s.cf}, k)
                try:
                    f = s.solve_one(root, old[root], upd[root], res, nst)
                except Unsupported as e:
                    s.why[root] = str(e)
                    f = None
                if f is not None:
                    s.cf[root] = f
                    todo.remove(root)
                    progress = True
        # scratch objects written before they are read in every iteration: arbitrary at the head of an iteration
        for root in list(todo):
            if not isinstance(upd[root], Arr) or upd[root].kind not in ('mat', 'smat', 'vec'): continue
            if any(root in vroots(upd[r]) for r in upd if r != root): continue
            s.cf[root] = dead_value(ex, old[root], (key_ for key_, r in s.leaves.items() if r == root))
            todo.remove(root)
        if todo and len(s.cf):
            progress = True
            while todo and progress:
                progress = False
                for root in list(todo):
                    res = Resolver({r: s.cf[r](k) for r in s.cf}, k)
                    try: f = s.solve_one(root, old[root], upd[root], res, nst)
                    except Unsupported as e:
                        s.why[root] = str(e)
                        f = None
                    if f is not None:
                        s.cf[root] = f
                        todo.remove(root)
                        progress = True
        if todo:
            # general scalar recurrences as axiomatised functions of the iteration number
            rec = [r for r in todo if isinstance(upd[r], T)]
            if len(rec) == len(todo): 
                s.recurrence(rec, old, upd)
            else:
                raise Unsupported('loop: no closed form for %s (%s)' % ([kp for kp, r in s.leaves.items() if r in todo], s.why))

    def foreign(s, v, me):
        return [r for r in vroots(v) if r in s.allroots and r not in s.cf and r != me]

    def solve_one(s, root, old, u, res, nst):
        k = s.k
        if isinstance(u, T):
            u = res(u)
            if s.foreign(u, root): return None
            me = tm.app(root, u.sort)
            if root not in roots(u):
                return lambda q: tm.ite(tm.le(q, tm.ZI), old, tm.subst(u, {k: tm.sub(q, tm.OI)})) if k in u.fv else tm.ite(tm.le(q, tm.ZI), old, u)
            if u is me: return lambda q: old
            if u.sort in NUM:
                d = tm.sub(u, me)
                if root in roots(d):
                    d = lift_add(u, me)
                if d is not None and root not in roots(d):
                    s.inc_of[root] = d
                    if k not in d.fv: return lambda q: tm.add(old, tm.mul(q, d))
                    v = tm.fresh('q', 'I')
                    b = tm.subst(d, {k: v})
                    return lambda q: tm.add(old, tm.Sum(v, tm.ZI, q, b))
                return s.fold_max(root, old, u, me)
            if u.sort == 'B':
                f, t = _put(u, me, tm.FALSE), _put(u, me, tm.TRUE)
                if root in roots(f) or root in roots(t): return None
                if f is tm.FALSE:
                    v = tm.fresh('q', 'I')
                    b = tm.subst(t, {k: v})
                    return lambda q: tm.and_(old, tm.forall(v, tm.implies(tm.and_(tm.le(tm.ZI, v), tm.lt(v, q)), b)))
                if t is tm.TRUE:
                    v = tm.fresh('q', 'I')
                    b = tm.subst(f, {k: v})
                    return lambda q: tm.or_(old, tm.exists(v, tm.and_(tm.le(tm.ZI, v), tm.lt(v, q), b)))
            return None
        if isinstance(u, It):
            p = res(u.pos)
            me = tm.app(root, 'I')
            if s.foreign(p, root): return None
            d = tm.sub(p, me)
            if root in roots(d): return None
            s.inc_of[root] = d
            if k not in d.fv: return lambda q: It(u.lv, tm.add(old.pos, tm.mul(q, d)), u.rev)
            v = tm.fresh('q', 'I')
            b = tm.subst(d, {k: v})
            return lambda q: It(u.lv, tm.add(old.pos, tm.Sum(v, tm.ZI, q, b)), u.rev)
        if isinstance(u, Arr): return s.solve_arr(root, old, u, res)
        return None

    def solve_arr(s, root, old, u, res):
        k = s.k
        me_base = isinstance(u.base, SymBase) and u.base.name == root
        if not me_base:
            f = s.shrinks(root, old, u, res)
            if f is not None: return f
            w = vmap(u, res)
            if s.foreign(w, root): return None
            if root in vroots(w):
                return s.pointwise(root, old, w)
            return lambda q: vite(tm.le(q, tm.ZI), old, vsubst(w, {k: tm.sub(q, tm.OI)}))
        ops = u.log
        if not ops: return lambda q: old
        # counter-indexed writes (before the counters are resolved)
        fillop = s.try_fill(root, ops, res)
        if fillop is not None:
            off, tree = fillop
            v = tm.fresh('q', 'I')
            t2 = tree_fmap(tree, lambda t: tm.subst(t, {k: v}))
            return lambda q: old.with_log(('fill', tm.TRUE, off, [('loop', tm.TRUE, v, tm.ZI, q, t2)]))
        # 'last' structural writes in a map whose index does not depend on k (fields of one object)
        ops = tuple(opmap(o, res) for o in ops)
        if old.kind == 'map': ops = tuple(s.settled_key(o) for o in ops)
        fr = [r for o in ops for r in oproots(o) if r in s.allroots and r not in s.cf and r != root]
        if fr: return None
        if any(root in oproots(o) for o in ops):
            if old.kind in ('map',) or not any(opkinds(o) & {'push'} for o in ops):
                r = s.fixed_index(root, old, ops)
                if r is not None: return r
            ops = s.self_reads(root, old, ops)
            if ops is None: return None
        kinds = set()
        for o in ops: kinds |= opkinds(o)
        if kinds == {'set', 'add'} or (kinds == {'set'} and len(ops) > 1):
            r = s.fixed_index(root, old, ops)
            if r is not None: return r
            ops = s.fold_set_add(ops)
            if ops is None: raise Unsupported('mixed updates')
            kinds = set()
            for o in ops: kinds |= opkinds(o)
        if kinds == {'set'} and old.kind == 'map':
            r = s.fixed_index(root, old, ops)
            if r is not None: return r
        v = tm.fresh('q', 'I')
        b = tuple(opmap(o, lambda t: tm.subst(t, {k: v})) for o in ops)
        if len(kinds) > 1 or kinds & {'fill'}: raise Unsupported('array update pattern %s' % kinds)
        # check that get() on the summary works
        return lambda q: old.with_log(('loop', tm.TRUE, v, tm.ZI, q, b))

    def settled_key(s, o):
        """an update whose key contains conditions that the facts at the loop decide"""
        if o[0] != 'set' or not any(i.op == 'ite' for i in o[2]): return o
        from .contract import decided
        facts = list(s.st.all()) + [tm.le(tm.ZI, s.k)]
        return (o[0], o[1], tuple(decided(facts, i) for i in o[2])) + tuple(o[3:])

    def shrinks(s, root, old, u, res):
        """a sequence that loses its last elements in every iteration and is otherwise unchanged"""
        k = s.k
        if u.kind != 'vec' or u.log: return None
        ph = tm.fresh('ix', 'I')
        e = u.get(ph)
        if not same(e, s.ex.symval(u.ety, root + '|[]', (ph,))): return None
        d = res(tm.sub(tm.app(root + '|#len', 'I'), u.dims[0]))
        if root in roots(d) or any(r in s.allroots and r not in s.cf for r in roots(d)): return None
        if k not in d.fv: return lambda q: Arr('vec', old.ety, (tm.sub(old.dims[0], tm.mul(q, d)),), FnBase(lambda i: old.get(i)))
        v = tm.fresh('q', 'I')
        b = tm.subst(d, {k: v})
        return lambda q: Arr('vec', old.ety, (tm.sub(old.dims[0], tm.Sum(v, tm.ZI, q, b)),), FnBase(lambda i: old.get(i)))

    def pointwise(s, root, old, w):
        """whole-array update x = f(x) applied elementwise with the same index: x_i^{k+1} = x_i^k + d_i(k)"""
        k = s.k
        if any(root in roots(d) for d in w.dims): return None
        ph = tuple(tm.fresh('ix', 'I') for _ in range(len(w.dims)))
        e = w.get(*ph)
        if not isinstance(e, T) or e.sort not in NUM: return None
        me = tm.app(root + ('|[,]' if w.kind in ('mat', 'smat') else '|[]'), e.sort, *ph)
        d = tm.sub(e, me)
        if root in roots(d): return None
        v = tm.fresh('q', 'I')
        b = tm.subst(d, {k: v})

        def cf(q):
            return Arr(old.kind, old.ety, old.dims, FnBase(lambda *i: tm.add(old.get(*i), tm.Sum(v, tm.ZI, q, tm.subst(b, dict(zip(ph, i)))))), tag=old.tag)
        return cf

    def fixed_index(s, root, old, ops):
        """all updates go to locations that do not depend on the iteration: treat each as a scalar"""
        k = s.k
        if any(o[0] not in ('set', 'add') for o in ops): return None
        if any(k in i.fv for o in ops for i in o[2]): return None
        idxs = []
        for o in ops:
            if o[2] not in idxs: idxs.append(o[2])
        if len(idxs) > 12: return None
        # distinct indices must be provably distinct
        for a in range(len(idxs)):
            for b in range(a):
                e = V.idxeq(idxs[a], idxs[b])
                if e is not tm.FALSE and not smt.valid(s.st.all(), tm.not_(e), 500): return None
        head = havoc_value(s.ex, old, root, False)
        cur = head
        for o in ops: cur = Arr(cur.kind, cur.ety, cur.dims, cur.base, cur.log + (o,), cur.dims0)
        cfs = []
        for ix in idxs:
            o0 = old.get(*ix)
            n = cur.get(*ix)
            hv = head.get(*ix)
            f = s.scalar_family(root, o0, n, hv)
            if f is None: return None
            cfs.append((ix, f))

        def cf(q):
            r = old
            for ix, f in cfs: r = r.with_log(('set', tm.TRUE, ix, f(q)))
            return r
        return cf

    def scalar_family(s, root, o0, n, hv):
        """closed form of a value that evolves from o0 by n(hv,k)"""
        k = s.k
        if same(n, hv): return lambda q: o0
        if isinstance(n, T):
            if root not in roots(n):
                return lambda q: tm.ite(tm.le(q, tm.ZI), o0, tm.subst(n, {k: tm.sub(q, tm.OI)}))
            if n.sort in NUM:
                d = tm.sub(n, hv)
                if root in roots(d): return None
                v = tm.fresh('q', 'I')
                b = tm.subst(d, {k: v})
                return lambda q: tm.add(o0, tm.Sum(v, tm.ZI, q, b))
            return None
        if isinstance(n, Struct) and isinstance(hv, Struct):
            fs = {}
            for f in n.f:
                fs[f] = s.scalar_family(root, o0.get(f), n.get(f), hv.get(f))
                if fs[f] is None: return None
            return lambda q: Struct(n.cls, {f: g(q) for f, g in fs.items()})
        if isinstance(n, Arr) and isinstance(hv, Arr) and isinstance(n.base, SymBase) and isinstance(hv.base, SymBase) and n.base.name == hv.base.name:
            if any(root in oproots(o) for o in n.log): return None
            v = tm.fresh('q', 'I')
            b = tuple(opmap(o, lambda t: tm.subst(t, {k: v})) for o in n.log)
            return lambda q: o0.with_log(('loop', tm.TRUE, v, tm.ZI, q, b))
        return None

    def try_fill(s, root, ops, res):
        """writes at consecutive positions counted by a counter"""
        k = s.k
        first = _first_idx(ops[0])
        if first is None: return None
        rs = [r for r in roots(first) if r in s.inc_of]
        if len(rs) != 1: return None
        cr = rs[0]
        hc = tm.app(cr, 'I')
        rest = tm.sub(first, hc)
        if cr in roots(rest) or k in rest.fv or roots(rest) & s.allroots: return None
        d = s.inc_of[cr]
        if d is tm.OI or (k not in d.fv and d.op == 'num'): return None     # affine: the ordinary rule applies
        tree = []
        off = first
        for o in ops:
            t = _as_tree(o, off)
            if t is None: return None
            tree.append(t)
            off = tm.add(off, tree_len([t]))
        tot = tree_len(tree)
        tot = res(tot)
        if tot is not d and not smt.valid(s.st.all() + [tm.le(tm.ZI, k)], tm.eq(tot, d), 1000): return None
        tree = tree_fmap(tree, res)
        if root in treeroots(tree): return None
        if any(r in s.allroots and r not in s.cf for r in treeroots(tree)): return None
        c0 = s.old[cr]
        return tm.add(c0.pos if isinstance(c0, It) else c0, rest), tree

    def self_reads(s, root, old, ops):
        """replace reads of the array being written by the original element where no earlier iteration wrote it"""
        k = s.k
        sets = []

        def collect(o, binders, guards):
            if o[0] == 'loop':
                for x in o[5]: collect(x, binders + [(o[2], o[3], o[4])], guards + [o[1]])
            elif o[0] in ('set', 'add'): sets.append((o, binders, guards + [o[1]]))
            elif o[0] == 'push': sets.append((o, binders, guards + [o[1]]))
            else: sets.append(None)
        for o in ops: collect(o, [], [])
        if any(x is None for x in sets): return None
        inrange = []
        ck = Resolver({r: f(k) for r, f in s.cf.items()}, k)(s.c)
        if not any(r in s.allroots for r in roots(ck)):
            if ck.op == 'le0' and V.lin(ck.args[0], k) == 1: inrange.append(ck)
            elif ck.op == 'not' and ck.args[0].op == 'eq0' and V.lin(ck.args[0].args[0], k) in (1, -1):
                p = ck.args[0].args[0]
                c = V.lin(p, k)
                n = tm.neg(tm.sub(p, k)) if c == 1 else tm.add(p, k)
                if tm.nonneg(n) or smt.valid(s.st.all(), tm.le(tm.ZI, n), 500): inrange.append(tm.lt(k, n))
        for f in inrange: V.RANGES.setdefault(k, []).append(tm.le0(tm.sub(f.args[0], tm.OI)) if f.op == 'le0' else tm.le0(f.args[0]))

        def unwritten(idx, ctxfacts):
            for o, binders, guards in sets:
                if o[0] == 'push':
                    continue        # appended positions are beyond the original length; checked by bounds
                q = tm.fresh('q', 'I')
                ren = {k: q}
                bb = []
                for v, lo, hi in binders:
                    v2 = tm.fresh('q', 'I')
                    ren[v] = v2
                    bb.append((v2, tm.subst(lo, ren), tm.subst(hi, ren)))
                pat = tuple(tm.subst(i, ren) for i in o[2])
                rng = [tm.le(tm.ZI, q), tm.lt(q, k)]
                for v2, lo, hi in bb: rng += [tm.le(lo, v2), tm.lt(v2, hi)]
                e = V.idxeq(pat, idx)
                if e is tm.FALSE: continue
                if not smt.valid(s.st.all() + ([tm.le(tm.ZI, tm.app(r, 'I')) for r in s.ex.counting] if pat[0].sort == 'O' else []) + ctxfacts + rng, tm.not_(e), 1500): return False
            return True

        def fix(t, ctx):
            if root not in roots(t): return t

            def one(x):
                if x.op == 'app' and isinstance(x.data, str) and x.data.split('|')[0] == root:
                    parts = x.data.split('|')[1:]
                    if parts[0] in ('#len', '#rows', '#cols'):
                        # length at iteration k: only when it does not change
                        raise Unsupported('length of the array under construction')
                    n = 2 if parts[0] in ('[,]', 'nz') else 1
                    idx = x.args[:n]
                    if unwritten(idx, ctx): return walk_path(old, parts, list(x.args))
                    raise Unsupported('reads an element written by an earlier iteration')
                return None
            return tm.replace_atoms(t, one)

        def mp(o, ctx):
            ctx = ctx + ([o[1]] if o[1] is not tm.TRUE and root not in roots(o[1]) else [])
            f = lambda t: fix(t, ctx)
            if o[0] == 'loop':
                c2 = ctx + [tm.le(o[3], o[2]), tm.lt(o[2], o[4])]
                return ('loop', f(o[1]), o[2], f(o[3]), f(o[4]), tuple(mp(x, c2) for x in o[5]))
            return V.opmap(o, f)
        return tuple(mp(o, [tm.le(tm.ZI, k)] + inrange) for o in ops)

    def fold_set_add(self, ops):
        """set(i,v); add(i,d) on the same index becomes set(i,v+d)"""
        out = []
        for o in ops:
            if o[0] == 'add' and out and out[-1][0] == 'set' and out[-1][2] == o[2] and out[-1][1] is tm.TRUE:
                p = out.pop()
                out.append(('set', p[1], p[2], tm.add(p[3], tm.ite(o[1], o[3], tm.num(0, o[3].sort)))))
            elif o[0] == 'loop' and o[1] is tm.TRUE and opkinds(o) == {'add'} and out and out[-1][0] == 'set' and out[-1][1] is tm.TRUE:
                p = out[-1]
                tot = _add_same_index(o, p[2])
                if tot is None: out.append(o); continue
                out[-1] = ('set', p[1], p[2], tm.add(p[3], tot))
            elif o[0] == 'loop' and o[1] is tm.TRUE and set().union(*[opkinds(x) for x in o[5]]) == {'set', 'add'}:
                sub_ = self.fold_set_add(o[5])
                if sub_ is None: return None
                out.append(o[:5] + (tuple(sub_),))
            else: out.append(o)
        ks = set()
        for o in out: ks |= opkinds(o)
        if ks == {'set', 'add'}: return None
        return tuple(out)

    def fold_max(s, root, old, u, me):
        """x = max(x,e) / min(x,e)"""
        k = s.k
        if u.op != 'ite': return None
        c, a, b = u.args
        e = a if b is me else b if a is me else None
        if e is None or root in roots(e): return None
        take = c if a is not me else tm.not_(c)
        facts = s.st.all()
        mx = smt.valid(facts, tm.eq(u, tm.ite(tm.le(me, e), e, me)), 1000)
        mn = not mx and smt.valid(facts, tm.eq(u, tm.ite(tm.le(e, me), e, me)), 1000)
        if not mx and not mn: return None
        s.ex.nh += 1
        nm = ('maxof!' if mx else 'minof!') + str(s.ex.nh)
        v = tm.fresh('q', 'I')
        b = tm.subst(e, {k: v})
        args = tuple(s.ex.loopvars)

        def cf(q):
            r = tm.app(nm, u.sort, q, *args)
            cmpf = (lambda x: tm.le(x, r)) if mx else (lambda x: tm.le(r, x))
            rng = tm.and_(tm.le(tm.ZI, v), tm.lt(v, q))
            s.axioms.append(tm.and_(cmpf(old), tm.forall(v, tm.implies(rng, cmpf(b))),
                                    tm.or_(tm.eq(r, old), tm.exists(v, tm.and_(rng, tm.eq(r, b))))))
            return r
        return cf

    def recurrence(s, rec, old, upd):
        k = s.k
        args = tuple(s.ex.loopvars)
        names = {}
        for r in rec:
            s.ex.nh += 1
            names[r] = 'rec!%d' % s.ex.nh
            s.cf[r] = (lambda r: lambda q: tm.app(names[r], upd[r].sort, q, *args))(r)
        res = Resolver({r: s.cf[r](k) for r in s.cf}, k)
        for r in rec:
            s.axioms.append(tm.eq(s.cf[r](tm.ZI), old[r]))
            u = res(upd[r])
            N = s.trip_sym()
            s.late.append(lambda N, r=r, u=u: tm.forall(k, tm.implies(tm.and_(tm.le(tm.ZI, k), tm.lt(k, N)), tm.eq(s.cf[r](tm.add(k, tm.OI)), u))))

    def trip_sym(s): return None

    # -------- the rule
    def run(s):
        ex, k, st = s.ex, s.k, s.st
        s.axioms, s.late = [], []
        h0, c, hc, nst, exits, thr, base, fb = s.discover()
        if nst is None:
            # body never completes normally: at most one iteration
            return s.one_shot()
        s.c = c
        s.solve(h0, nst)
        res = Resolver({r: f(k) for r, f in s.cf.items()}, k)
        ck = res(c)
        if any(r in s.allroots for r in roots(ck)): raise Unsupported('loop condition')
        ex_conds = []
        for o in exits: ex_conds.append(tm.and_(*[res(x) for x in o[1].pc[base + 1:]]))
        thr_conds = [res(tm.and_(*t.st.pc[base + 1:])) for t in thr]
        N = s.trip(ck)
        allex = tm.or_(*(ex_conds + thr_conds))
        K0 = None
        extra = [f(N) for f in s.late]
        # generic iteration with the closed forms: obligations of the body
        g = st.copy()
        for (key, path), root in s.leaves.items(): set_leaf(g, key, path, s.cf[root](k))
        for a in s.axioms + extra: g.assume(a)
        for f in s.nfacts: g.assume(f)
        rng = [tm.le(tm.ZI, k), tm.lt(k, N)]
        for f in rng: g.facts.append(f)
        if allex is not tm.FALSE:
            q = tm.fresh('q', 'I')
            g.facts.append(tm.forall(q, tm.implies(tm.and_(tm.le(tm.ZI, q), tm.lt(q, k)), tm.not_(tm.subst(allex, {k: q})))))
        gfb = len(g.facts)
        newfacts = []
        if True:
            ex.loopvars.append(k)
            saved = ex.throws
            ex.throws = []
            try:
                c2, hc2, nst2, exits2, thr2, b2, f2 = s.iterate(g, k)
            finally:
                ex.loopvars.pop()
                ex.throws = saved
            if nst2 is not None:
                for f in nst2.facts[gfb:]:
                    if _skolem(f) and not any(r in s.allroots for r in roots(f)): newfacts.append(f)
        # state after the loop
        if allex is tm.FALSE:
            fin = st
            for (key, path), root in s.leaves.items(): set_leaf(fin, key, path, s.cf[root](N))
            for a in s.axioms + extra: fin.assume(a)
            for f in s.nfacts: fin.assume(f)
            for f in newfacts:
                fin.assume(tm.forall(k, tm.implies(tm.and_(*rng), f)) if k in f.fv else tm.implies(tm.lt(tm.ZI, N), f))
            _dedupe_maxof(fin)
            ex.quiet += 1
            try: s.cond(fin)            # side effects of the final test
            finally: ex.quiet -= 1
            return [('n', fin, None)]
        # early exits: first iteration K at which one of them happens
        K = ex.fresh_app('first', 'I')
        q = tm.fresh('q', 'I')
        noex = tm.forall(q, tm.implies(tm.and_(tm.le(tm.ZI, q), tm.lt(q, N)), tm.not_(tm.subst(allex, {k: q}))))
        defK = [tm.le(tm.ZI, K), tm.le(K, N),
                tm.forall(q, tm.implies(tm.and_(tm.le(tm.ZI, q), tm.lt(q, K)), tm.not_(tm.subst(allex, {k: q})))),
                tm.or_(tm.eq(K, N), tm.subst(allex, {k: K})),
                tm.or_(tm.and_(noex, tm.eq(K, N)), tm.and_(tm.not_(noex), tm.lt(K, N)))]
        outs = []
        b0 = len(st.pc)
        # normal completion
        fin = st.copy()
        for (key, path), root in s.leaves.items(): set_leaf(fin, key, path, s.cf[root](N))
        for a in s.axioms + extra + defK + s.nfacts: fin.assume(a)
        for f in newfacts:
            fin.assume(tm.forall(k, tm.implies(tm.and_(tm.le(tm.ZI, k), tm.lt(k, K)), f)) if k in f.fv else tm.implies(tm.lt(tm.ZI, K), f))
        fin.pc.append(noex)
        ex.quiet += 1
        try: s.cond(fin)
        finally: ex.quiet -= 1
        outs.append(('n', fin, None))
        # exits
        e = st.copy()
        for (key, path), root in s.leaves.items(): set_leaf(e, key, path, s.cf[root](K))
        for a in s.axioms + extra + defK + s.nfacts: e.assume(a)
        e.assume(tm.lt(K, N))
        e.assume(tm.subst(allex, {k: K}))
        e.pc.append(tm.not_(noex))
        eb = len(e.pc)
        ex.quiet += 1
        saved = ex.throws
        ex.throws = []
        try:
            c3, hc3, nst3, exits3, thr3, b3, f3 = s.iterate(e, K)
        finally:
            ex.quiet -= 1
            ex.throws = saved
        # the exit path conditions partition the exit case
        for o in exits3:
            suffix = o[1].pc[eb + 1:]
            o[1].pc = o[1].pc[:eb] + ([] if len(exits3) == 1 and not thr3 else suffix)
            outs.append(('n' if o[0] == 'brk' else o[0], o[1], o[2]))
        for t in thr3:
            suffix = t.st.pc[eb + 1:]
            t.st.pc = t.st.pc[:eb] + ([] if not exits3 and len(thr3) == 1 else suffix)
            ex.throws.append(type(t)(tm.and_(*t.st.pc), t.what, t.st))
        res_ = ex.join(outs, b0, len(st.facts))
        return res_

    def one_shot(s):
        """the body always leaves the loop"""
        ex, st = s.ex, s.st
        base, fb = len(st.pc), len(st.facts)
        c = s.cond(st)
        s2 = st.copy()
        s2.pc.append(tm.not_(c))
        s1 = st.copy()
        s1.pc.append(c)
        outs = s.body(s1)
        outs = [('n',) + o[1:] if o[0] == 'brk' else o for o in outs]
        return ex.join(outs + [('n', s2, None)], base, fb)

    def trip(s, ck):
        """number of iterations as a term; facts about it in s.nfacts"""
        k, ex, st = s.k, s.ex, s.st
        s.nfacts = []
        if k not in ck.fv and ck is not tm.FALSE:
            if ck is tm.TRUE:
                N = ex.fresh_app('trip', 'I')      # left only through an exit
                s.nfacts.append(tm.le(tm.ZI, N))
                s.inf = True
                return N
        if ck.op == 'le0':
            p = ck.args[0]
            c = V.lin(p, k)
            if c == 1:
                n = tm.add(tm.neg(tm.sub(p, k)), tm.OI)
                if tm.nonneg(n) or smt.valid(st.all(), tm.le(tm.ZI, n), 500): return n
                return _max0(n)
            if c is not None and c > 1:
                rest = tm.neg(tm.sub(p, tm.scale(k, c)))      # c*k <= rest
                return _max0(tm.add(tm.idiv(tm.add(rest, tm.ZI), tm.num(c)), tm.OI)) if s.st and smt.valid(st.all(), tm.le(tm.ZI, rest), 500) else \
                    tm.ite(tm.le(tm.ZI, rest), tm.add(tm.idiv(rest, tm.num(c)), tm.OI), tm.ZI)
        if ck.op == 'not' and ck.args[0].op == 'eq0':
            p = ck.args[0].args[0]
            c = V.lin(p, k)
            if c in (1, -1):
                n = tm.neg(tm.sub(p, tm.scale(k, c))) if c == 1 else tm.sub(p, tm.scale(k, c))
                if not ex.quiet:
                    ex.oblige(st, 'termination', tm.le(tm.ZI, n), 'loop bound reached from below')
                st.assume(tm.le(tm.ZI, n))
                return n
        if ck.op == 'and':
            # conjunction of an upper bound and an early-stop condition: N is the first failure
            pass
        N = ex.fresh_app('trip', 'I')
        q = tm.fresh('q', 'I')
        s.nfacts += [tm.le(tm.ZI, N), tm.forall(q, tm.implies(tm.and_(tm.le(tm.ZI, q), tm.lt(q, N)), tm.subst(ck, {k: q}))),
                     tm.not_(tm.subst(ck, {k: N}))]
        ex.notes.add('termination of a loop in %s is assumed' % (ex.frames[-1].fn.qual if ex.frames[-1].fn else '?'))
        return N


_max0 = tm.max0


def _dedupe_maxof(st): pass


def _put(u, me, v):
    return tm.replace_atoms(u, lambda x: v if x is me else None)


def lift_add(u, me):
    """increment when u is a nest of ites whose leaves are me + d"""
    if u.op == 'ite':
        c, a, b = u.args
        if me.data in roots(c): return None
        da, db = lift_add(a, me), lift_add(b, me)
        if da is None or db is None: return None
        return tm.ite(c, da, db)
    d = tm.sub(u, me)
    if me.data not in roots(d): return d
    # one ite with coefficient 1 carries me
    tops = [(m, c) for m, c in tm.poly(u).items() if any(me.data in roots(a) for a, _ in m)]
    if len(tops) == 1 and tops[0][1] == 1 and len(tops[0][0]) == 1 and tops[0][0][0][1] == 1 and tops[0][0][0][0].op == 'ite':
        a = tops[0][0][0][0]
        l = lift_add(a, me)
        if l is not None: return tm.add(l, tm.sub(u, a))
    return None


def _skolem(f):
    for x in tm.subterms(f):
        if x.op == 'app' and isinstance(x.data, str) and x.data.split('!')[0] in ('first', 'trip', 'rec', 'maxof', 'minof', 'ens'): return True
    return False


def _first_idx(o):
    if o[0] in ('set',): return o[2][0] if len(o[2]) == 1 else None
    if o[0] == 'fill': return o[2]
    if o[0] == 'loop':
        i = _first_idx(o[5][0])
        return tm.subst(i, {o[2]: o[3]}) if i is not None else None
    return None


def _as_tree(o, off):
    if o[0] == 'set':
        if len(o[2]) != 1 or o[2][0] is not off:
            if tm.sub(o[2][0], off) is not tm.ZI: return None
        return ('leaf', o[1], o[3])
    if o[0] == 'fill':
        if o[2] is not off or len(o[3]) != 1: return None
        t = o[3][0]
        return t[:1] + (tm.and_(t[1], o[1]),) + t[2:]
    if o[0] == 'loop':
        sub_ = []
        v, lo = o[2], o[3]
        # offset at inner iteration v must be off + (v-lo)*len
        l = []
        pos = None
        for x in o[5]:
            i = _first_idx(x)
            if i is None: return None
            if pos is None:
                pos = i
                if tm.sub(tm.subst(i, {v: lo}), off) is not tm.ZI: return None
            t = _as_tree(x, pos)
            if t is None: return None
            sub_.append(t)
            pos = tm.add(pos, tree_len([t]))
        i0 = _first_idx(o[5][0])
        step = tm.sub(tm.subst(i0, {v: tm.add(v, tm.OI)}), i0)
        if step is not tree_len(sub_): return None
        return ('loop', o[1], v, o[3], o[4], sub_)
    return None


def _add_same_index(o, idx):
    if o[0] == 'add': return tm.ite(o[1], o[3], tm.num(0, o[3].sort)) if o[2] == idx else None
    tot = []
    for x in o[5]:
        t = _add_same_index(x, idx)
        if t is None: return None
        tot.append(t)
    b = tm.add(*tot)
    t = tm.Sum(o[2], o[3], o[4], b)
    return tm.ite(o[1], t, tm.num(0, t.sort))


# ---------------------------------------------------------------- loops with stated invariants
class Restart(Exception):
    """the set of loop invariants has become smaller: the contract is checked again from the start"""


def houdini(ex, st, cond, body, inc, node, prov, why):
    """prov(ex, state) -> list of (name, term) candidate invariants; the inductive subset is used"""
    S = Summary(ex, st, cond, body, inc, node)
    frame = ex.frames[-1]
    mod = {}
    S.varlen = {}
    # find modified leaves (while doing so the invariants of inner loops are taken for granted: all is checked at the end)
    ex.optimistic = getattr(ex, 'optimistic', 0)
    # reruns that follow another way through the function find the same loop again: what was found is kept (and checked)
    mkey = None
    if not ex.quiet:
        ex.loop_count += 1
        mkey = (ex.loop_count, id(node), tuple(ex.taken), frame.fn.mangled)
    known = ex.loop_memo.get(mkey) if mkey else None
    if known:
        S.leaves, S.varlen, S.mapty = dict(known[0]), dict(known[1]), known[2]
    else:
        ex.optimistic += 1
        try: S.discover()
        finally: ex.optimistic -= 1
    names = {}
    from .contract import Prover, flat

    def holds(x, t): return smt.valid(x.all(), t, 3000) or Prover(3000).prove(x.all(), t)[0]
    cands = [n for n, t in prov(ex, st) if ex.optimistic or holds(st, t)]
    if known and set(known[3]) <= set(cands): cands = known[3]
    else: known = None

    def start():
        h = st.copy()
        for (key, path), root in S.leaves.items():
            old = get_leaf(st, key, path)
            if old is None: old = Arr('map', S.mapty[key[1]], (), SymBase(ex, key[1], (), S.mapty[key[1]], '[o]'))
            set_leaf(h, key, path, havoc_value(ex, old, 'inv!' + root[2:], S.varlen.get((key, path))))
        for n, t in prov(ex, h):
            if n in cands: h.facts.extend(flat(t))
        return h

    def kept(nst):
        if nst is None: return cands
        after = dict(prov(ex, nst))
        return [n for n in cands if holds(nst, after[n])]
    nested = [False]

    def inductive(optimistic):
        nonlocal cands, head
        while True:
            h = start()
            head = h.copy()
            ex.quiet += 1
            if optimistic: ex.optimistic += 1
            seen = ex.inner_loops = getattr(ex, 'inner_loops', 0)
            try: c, hc, nst, exits, thr, base, fb = S.iterate(h, None)
            finally:
                ex.quiet -= 1
                if optimistic: ex.optimistic -= 1
            if ex.inner_loops != seen: nested[0] = True
            keep = kept(nst)
            if keep == cands: break
            cands = keep
    head = start()
    if not ex.optimistic and not known: inductive(True)
    if known:
        nested[0] = True
        ex.nh, ex.ncell = known[4], known[5]       # names as in the run in which the loop was found
    if mkey and not known: ex.loop_memo[mkey] = (dict(S.leaves), dict(S.varlen), getattr(S, 'mapty', {}), list(cands), ex.nh, ex.ncell)
    ex.inner_loops = getattr(ex, 'inner_loops', 0) + 1
    ex.notes.add('loop in %s: invariants kept: %s' % (frame.fn.qual, ', '.join(cands)))
    ex.loopinv = getattr(ex, 'loopinv', [])
    ex.loopinv.append((frame.fn.qual, list(cands)))
    # obligations + exits from the generic iteration
    h0, h = head.copy(), head.copy()
    c, hc, nst, exits, thr, base, fb = S.iterate(h, None)
    if not ex.optimistic:
        for t in [hc] + ([nst] if nst is not None else []):
            for key, path in state_diff(h0, t):
                if (key, path) not in S.leaves and not any(k2 == key and path[:len(p2)] == p2 for (k2, p2) in S.leaves):
                    raise Unsupported('loop: a modified location was not discovered')
        if nested[0]:
            keep = kept(nst)
            if keep != cands:
                if mkey is None: raise Unsupported('loop: invariants are not inductive')
                ex.loop_memo[mkey] = ex.loop_memo[mkey][:3] + (keep,) + ex.loop_memo[mkey][4:]
                raise Restart()
    outs = []
    hb = len(st.pc)
    fin = head
    cc = S.cond(fin)
    fin.pc.append(tm.not_(cc))
    for t in thr: ex.throws.append(t)
    outs.append(('n', fin, None))
    for o in exits: outs.append(('n' if o[0] == 'brk' else o[0], o[1], o[2]))
    if c is tm.TRUE: outs = outs[1:]
    if len([o for o in outs if o[0] == 'n']) <= 1: return outs
    if ex.quiet: return ex.join(outs, hb, len(st.facts))
    return ex.choose([o for o in outs if not o[1].dead])
