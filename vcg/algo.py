"""std:: algorithms"""
from . import terms as tm, smt
from .terms import T
from .values import *
from .cast import qt


def call(s, st, name, args, n):
    from . import lib
    rv = lambda i: s.rv(st, args[i])

    def app(f, vals):
        if isinstance(f, Lam): 
            r = s.call_lambda(st, f, [s.newcell(st, v) if not isinstance(v, LV) else v for v in vals])
            return s.read(st, r) if isinstance(r, LV) else r
        if isinstance(f, tuple) and f[0] == 'fn':
            fn, q = s.find_fn(f[1])
            if fn is not None:
                from .exec import Frame
                bound = [s.newcell(st, v) if not isinstance(v, LV) else v for v in vals]
                r = s.call_body(st, fn, Frame(fn, None), bound)
                return s.read(st, r) if isinstance(r, LV) else r
        if isinstance(f, T) and f.sort == 'O':
            nm = None
        raise Unsupported('algorithm with an unknown functor')

    def rng(i):
        b, e = rv(i), rv(i + 1)
        m, f, c = lib.seq_from_range(s, st, b, e)
        return b, m, f, c

    def put(dst, m, f, src_ety=None):
        """write f(0..m) from iterator dst on"""
        v = tm.fresh('q', 'I')
        if isinstance(dst, tuple) and dst[0] == 'backins':
            a = s.read(st, dst[1])
            s.write(st, dst[1], a.with_log(('loop', tm.TRUE, v, tm.ZI, m, (('push', tm.TRUE, s.coerce(st, f(v), a.ety)),))))
            return dst
        a = s.read(st, dst.lv)
        w = f(v)
        if a.kind == 'vec': w = s.coerce(st, w, a.ety)
        s.oblige(st, 'index', tm.implies(tm.lt(tm.ZI, m), tm.and_(tm.le(tm.ZI, dst.pos), tm.le(tm.add(dst.pos, m), lib.size(a)))), 'destination range large enough')
        if dst.pos is tm.ZI and (m is lib.size(a)) and a.kind == 'vec':
            s.write(st, dst.lv, Arr('vec', a.ety, a.dims, FnBase(lambda i: s.coerce(st, f(i), a.ety))))
        else:
            s.write(st, dst.lv, a.with_log(('loop', tm.TRUE, v, tm.ZI, m, (('set', tm.TRUE, lib.ij(a, tm.add(dst.pos, v)), w),))))
        return It(dst.lv, tm.add(dst.pos, m), dst.rev)

    if name == 'fill':
        b, m, f, c = rng(0)
        x = rv(2)
        put(b, m, lambda i: x)
        return VOID
    if name == 'fill_n':
        b, m, x = rv(0), rv(1), rv(2)
        return put(b, m, lambda i: x)
    if name == 'copy':
        b, m, f, c = rng(0)
        return put(rv(2), m, f)
    if name == 'copy_n':
        b, m = rv(0), rv(1)
        c = s.read(st, b.lv)
        return put(rv(2), m, lambda i: lib.elem(c, tm.add(b.pos, i)))
    if name == 'iota':
        b, m, f, c = rng(0)
        x = rv(2)
        put(b, m, lambda i: tm.add(x, i if x.sort == 'I' else tm.to_real(i)))
        return VOID
    if name in ('transform', 'accumulate', 'for_each', 'any_of', 'all_of', 'none_of', 'inner_product', 'find_if', 'count_if', 'copy_if', 'find', 'count'):
        return as_loop(s, st, name, args, n, app)
    if name in ('max_element', 'min_element'):
        b, m, f, c = rng(0)
        if len(args) > 2: raise Unsupported(name)
        pos = s.fresh_app('first', 'I')
        q = tm.fresh('q', 'I')
        cmp_ = (lambda x: tm.le(x, f(pos))) if name == 'max_element' else (lambda x: tm.le(f(pos), x))
        st.assume(tm.implies(tm.lt(tm.ZI, m), tm.and_(tm.le(tm.ZI, pos), tm.lt(pos, m), tm.forall(q, tm.implies(tm.and_(tm.le(tm.ZI, q), tm.lt(q, m)), cmp_(f(q)))))))
        st.assume(tm.implies(tm.le(m, tm.ZI), tm.eq(pos, m)))
        return It(b.lv, tm.add(b.pos, pos))
    if name in ('sort', 'stable_sort'):
        b, m, f, c = rng(0)
        if b.pos is not tm.ZI: raise Unsupported('partial sort')
        cmp_ = rv(2) if len(args) > 2 else None
        if cmp_ is None: less = lambda x, y: tm.lt(x, y)
        else:
            def less(x, y):
                r = app(cmp_, [x, y])
                return r
        return sort(s, st, b.lv, c, less)
    if name == 'reverse':
        b, m, f, c = rng(0)
        s.write(st, b.lv, Arr(c.kind, c.ety, c.dims, FnBase(lambda *ix: vite(tm.and_(tm.le(b.pos, ix[0]), tm.lt(ix[0], tm.add(b.pos, m))), lib.elem(c, tm.sub(tm.add(b.pos, b.pos, m), ix[0], tm.OI)), c.get(*ix)))))
        return VOID
    if name == 'equal':
        b, m, f, c = rng(0)
        d = rv(2)
        c2 = s.read(st, d.lv)
        q = tm.fresh('q', 'I')
        return tm.forall(q, tm.implies(tm.and_(tm.le(tm.ZI, q), tm.lt(q, m)), tm.eq(f(q), lib.elem(c2, tm.add(d.pos, q)))))
    raise Unsupported('std::%s' % name)


def as_loop(s, st, name, args, n, app):
    """run the algorithm as an ordinary loop over the range"""
    from . import lib
    b, e = s.rv(st, args[0]), s.rv(st, args[1])
    m, f0, c0 = lib.seq_from_range(s, st, b, e)
    pos = s.newcell(st, tm.ZI)
    frame = s.frames[-1]

    def elv(x, i):
        c = s.read(x, b.lv)
        return b.lv.ext(('i', s.seqidx(c, tm.add(b.pos, i) if not b.rev else tm.sub(b.pos, i, tm.OI))))
    res = None
    extra = [s.rv(st, a) for a in args[2:]]

    def appx(x, f, vals):
        # call the functor in state x
        if isinstance(f, Lam):
            r = s.call_lambda(x, f, [v if isinstance(v, LV) else s.newcell(x, v) for v in vals])
            return s.read(x, r) if isinstance(r, LV) else r
        if isinstance(f, tuple) and f[0] == 'fn':
            fn, q = s.find_fn(f[1])
            if fn is None:
                if f[1].get('name') in ('fabs', 'abs'): return tm.abs_(vals[0])
                raise Unsupported('functor')
            from .exec import Frame
            r = s.call_body(x, fn, Frame(fn, None), [v if isinstance(v, LV) else s.newcell(x, v) for v in vals])
            return s.read(x, r) if isinstance(r, LV) else r
        raise Unsupported('functor')
    if name == 'accumulate':
        acc = s.newcell(st, s.coerce(st, extra[0], qt(n)) if isinstance(extra[0], T) else extra[0])

        def body(x):
            i = s.read(x, pos)
            v = s.read(x, elv(x, i))
            a = s.read(x, acc)
            s.write(x, acc, appx(x, extra[1], [a, v]) if len(extra) > 1 else (s.binop(x, '+', a, v, '', '')))
            return [('n', x, None)]
    elif name == 'inner_product':
        acc = s.newcell(st, s.coerce(st, extra[1], qt(n)))
        if len(extra) > 2: raise Unsupported(name)

        def body(x):
            i = s.read(x, pos)
            c2 = s.read(x, extra[0].lv)
            y = lib.elem(c2, tm.add(extra[0].pos, i))
            if not s.quiet: s.bounds(x, c2, s.seqidx(c2, tm.add(extra[0].pos, i)))
            s.write(x, acc, tm.add(s.read(x, acc), tm.mul(s.read(x, elv(x, i)), y)))
            return [('n', x, None)]
    elif name == 'for_each':
        def body(x):
            appx(x, extra[0], [elv(x, s.read(x, pos))])
            return [('n', x, None)]
    elif name == 'transform':
        two = len(extra) == 3
        dst = extra[1] if two else extra[0]
        f = extra[-1]
        fnode = None

        def body(x):
            i = s.read(x, pos)
            vals = [elv(x, i)]
            if two:
                c2 = s.read(x, extra[0].lv)
                vals.append(extra[0].lv.ext(('i', s.seqidx(c2, tm.add(extra[0].pos, i)))))
            if isinstance(f, T): raise Unsupported('functor')
            v = appx(x, f, vals)
            if isinstance(dst, tuple) and dst[0] == 'backins':
                a = s.read(x, dst[1])
                s.write(x, dst[1], a.with_log(('push', tm.TRUE, s.coerce(x, v, a.ety))))
            else:
                a = s.read(x, dst.lv)
                ix = s.seqidx(a, tm.add(dst.pos, i))
                s.bounds(x, a, ix)
                s.write(x, dst.lv.ext(('i', ix)), v)
            return [('n', x, None)]
    elif name in ('any_of', 'all_of', 'none_of', 'find_if', 'find', 'count_if', 'count', 'copy_if'):
        flag = s.newcell(st, tm.FALSE if name == 'any_of' else tm.TRUE if name in ('all_of', 'none_of') else tm.ZI)

        def test(x, i):
            if name in ('find', 'count'): return s.binop(x, '==', s.read(x, elv(x, i)), extra[0], 'bool', '')
            return s.tobool(x, appx(x, extra[-1], [elv(x, i)]))
        if name in ('find', 'find_if'):
            q = tm.fresh('q', 'I')
            c = test(st, q)
            K = s.fresh_app('first', 'I')
            none = tm.forall(q, tm.implies(tm.and_(tm.le(tm.ZI, q), tm.lt(q, m)), tm.not_(c)))
            st.assume(tm.and_(tm.le(tm.ZI, K), tm.le(K, m)))
            st.assume(tm.forall(q, tm.implies(tm.and_(tm.le(tm.ZI, q), tm.lt(q, K)), tm.not_(c))))
            st.assume(tm.or_(tm.eq(K, m), tm.subst(c, {q: K})))
            return It(b.lv, tm.add(b.pos, K))

        def body(x):
            i = s.read(x, pos)
            c = test(x, i)
            if name == 'any_of': s.write(x, flag, tm.or_(s.read(x, flag), c))
            elif name == 'all_of': s.write(x, flag, tm.and_(s.read(x, flag), c))
            elif name == 'none_of': s.write(x, flag, tm.and_(s.read(x, flag), tm.not_(c)))
            elif name in ('count', 'count_if'): s.write(x, flag, tm.add(s.read(x, flag), tm.ite(c, tm.OI, tm.ZI)))
            elif name == 'copy_if':
                dst = extra[0]
                if not (isinstance(dst, tuple) and dst[0] == 'backins'): raise Unsupported('copy_if')
                a = s.read(x, dst[1])
                s.write(x, dst[1], a.with_log(('push', c, s.read(x, elv(x, i)))))
            return [('n', x, None)]
        acc = flag
    outs = s.loop(st, lambda x: tm.lt(s.read(x, pos), m), body, lambda x: s.write(x, pos, tm.add(s.read(x, pos), tm.OI)), n)
    fin = [o[1] for o in outs]
    if len(fin) != 1: raise Unsupported('algorithm loop')
    if fin[0] is not st:
        st.cells, st.maps, st.facts, st.pc = fin[0].cells, fin[0].maps, fin[0].facts, fin[0].pc
    if name in ('accumulate', 'inner_product'): return s.read(st, acc)
    if name in ('any_of', 'all_of', 'none_of', 'count', 'count_if'): return s.read(st, flag)
    if name == 'transform':
        dst = extra[1] if len(extra) == 3 else extra[0]
        return dst if isinstance(dst, tuple) else It(dst.lv, tm.add(dst.pos, m))
    return VOID


def sort(s, st, lv, c, less):
    """std::sort: the result is a permutation of the input and no later element is less than an earlier one"""
    nm = s.fresh_app('perm', 'I')
    name = 'perm!%d' % s.nh
    lvs = tuple(s.loopvars)
    m = c.dims[0]
    p = lambda i: tm.app(name, 'I', i, *lvs)
    inv = lambda i: tm.app('inv' + name, 'I', i, *lvs)
    tm.PERMS[name] = (m, 'inv' + name)
    q = tm.fresh('q', 'I')
    rng = tm.and_(tm.le(tm.ZI, q), tm.lt(q, m))
    st.assume(tm.forall(q, tm.implies(rng, tm.and_(tm.le(tm.ZI, p(q)), tm.lt(p(q), m), tm.eq(inv(p(q)), q)))))
    st.assume(tm.forall(q, tm.implies(rng, tm.and_(tm.le(tm.ZI, inv(q)), tm.lt(inv(q), m), tm.eq(p(inv(q)), q)))))
    a, b = tm.fresh('q', 'I'), tm.fresh('q', 'I')
    n0 = len(st.all())
    quiet, s.quiet = s.quiet, True
    try: l = less(c.get(p(b)), c.get(p(a)))
    except Unsupported as e:
        l = None
        s.notes.add('order of a sorted range unknown (%s)' % str(e)[:80])
    finally: s.quiet = quiet
    if isinstance(l, T):
        st.assume(tm.forall(a, tm.forall(b, tm.implies(tm.and_(tm.le(tm.ZI, a), tm.lt(a, b), tm.lt(b, m)), tm.not_(l)))))
    s.write(st, lv, Arr(c.kind, c.ety, c.dims, FnBase(lambda i: c.get(p(i)))))
    s.trusted.add('std::sort yields a sorted permutation')
    return VOID
