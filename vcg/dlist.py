"""std::list of integers without repetitions (library contract): membership and order of age.  The value of an iterator is the
element it points at.  push_front of an element that may already be in the list is outside the model."""
from . import terms as tm
from .terms import T
from .values import *


def is_dlist(v): return isinstance(v, Struct) and v.cls == 'dlist'


def make(has, rank, top, n, front): return Struct('dlist', {'has': has, 'rank': rank, 'top': top, 'n': n, 'front': front})


def sym(ex, name, args):
    return make(Arr('map', ('B',), (), SymBase(ex, name + '|has', args, ('B',), '[e]')), Arr('map', ('I',), (), SymBase(ex, name + '|rank', args, ('I',), '[e]')), tm.ZI,
                tm.app(name + '|#len', 'I', *args), tm.app(name + '|front', 'I', *args))


def empty(): return make(Arr('map', ('B',), (), FillBase(tm.FALSE)), Arr('map', ('I',), (), FillBase(tm.ZI)), tm.ZI, tm.ZI, tm.ZI)


def rank(s, st, v, e):
    r = v.get('rank')
    b = r.base.get(r, (e,))
    st.assume(tm.le(b, tm.ZI))        # what was there before is older than what was put in front since
    return r.get(e)


def newer(s, st, this, vals, n):
    """is a before b in the list (both are elements)"""
    l, a, b = [s.read(st, x) if isinstance(x, LV) else x for x in vals]
    ra, rb = rank(s, st, l, a), rank(s, st, l, b)
    st.assume(tm.implies(tm.and_(l.get('has').get(a), l.get('has').get(b), tm.not_(tm.eq(a, b))), tm.not_(tm.eq(ra, rb))))
    return tm.lt(rb, ra)


def method(s, st, name, obj, v, args, n):
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    has = v.get('has')
    if name == 'empty':
        e = tm.fresh('q', 'I')
        st.assume(tm.implies(tm.eq(v.get('n'), tm.ZI), tm.forall(e, tm.not_(has.get(e)))))
        return tm.eq(v.get('n'), tm.ZI)
    if name == 'size': return v.get('n')
    if name == 'back':
        s.oblige(st, 'index', tm.lt(tm.ZI, v.get('n')), 'the list is not empty')
        b = s.fresh_app('oldest', 'I')
        e = tm.fresh('q', 'I')
        r = v.get('rank')
        st.assume(has.get(b))
        st.assume(tm.le(tm.ZI, b))
        st.assume(tm.forall(e, tm.implies(tm.and_(has.get(e), tm.not_(tm.eq(e, b))), tm.lt(r.get(b), r.get(e)))))
        return b
    if name in ('begin', 'cbegin'): return v.get('front')
    if name in ('end', 'cend'): return tm.num(-1)
    if name in ('push_front', 'emplace_front'):
        x = s.rv(st, args[0])
        if s.decide(st, tm.not_(has.get(x))) is not True: raise Unsupported('push_front of an element that may be in the list')
        t = tm.add(v.get('top'), tm.OI)
        s.write(st, obj, make(has.with_log(('set', tm.TRUE, (x,), tm.TRUE)), v.get('rank').with_log(('set', tm.TRUE, (x,), t)), t, tm.add(v.get('n'), tm.OI), x))
        return VOID
    if name == 'erase' and len(args) == 1:
        x = s.rv(st, args[0])
        s.oblige(st, 'index', has.get(x), 'iterator points at an element')
        f = s.fresh_app('front', 'I')
        s.write(st, obj, make(has.with_log(('set', tm.TRUE, (x,), tm.FALSE)), v.get('rank'), v.get('top'), tm.sub(v.get('n'), tm.OI), tm.ite(tm.eq(v.get('front'), x), f, v.get('front'))))
        return f
    if name == 'splice' and len(args) == 3:
        p, x = s.rv(st, args[0]), s.rv(st, args[2])
        o = s.ev(st, args[1])
        if not (isinstance(o, LV) and o.same(obj)): raise Unsupported('splice from another list')
        if s.decide(st, tm.eq(p, v.get('front'))) is not True: raise Unsupported('splice into the middle')
        s.oblige(st, 'index', has.get(x), 'iterator points at an element')
        t = tm.add(v.get('top'), tm.OI)
        s.write(st, obj, make(has, v.get('rank').with_log(('set', tm.TRUE, (x,), t)), t, v.get('n'), x))
        return VOID
    raise Unsupported('list.' + name)


def install(s):
    s.contracts['trajopt_common_lemmas::newer'] = newer
    s.contracts['trajopt_common_lemmas::inside'] = lambda s, st, this, vals, n: [s.read(st, x) if isinstance(x, LV) else x for x in vals][0].get('has').get(s.read(st, vals[1]) if isinstance(vals[1], LV) else vals[1])
