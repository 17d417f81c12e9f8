"""associative containers (std::map, std::unordered_map, std::set, std::unordered_set): membership and value functions with
an update log.  A container is Struct('umap'|'uset', {has, val, n}) whose components are arrays of kind 'map' indexed by the
(flattened) key.  The order of iteration is not modelled."""
from . import terms as tm
from .terms import T
from .values import *

CLS = ('umap', 'uset')


def is_map(v): return isinstance(v, Struct) and v.cls in CLS


def make(k, has, val, n):
    f = {'has': has, 'n': n}
    if k[0] == 'umap': f['val'] = val
    return Struct(k[0], f)


def sym(ex, k, name, args):
    vt = k[2] if k[0] == 'umap' else ('B',)
    has = Arr('map', ('B',), (), SymBase(ex, name + '|has', args, ('B',), '[k]'))
    val = Arr('map', vt, (), SymBase(ex, name + '|val', args, vt, '[k]'))
    return make(k, has, val, tm.app(name + '|#len', 'I', *args))


def empty(k):
    vt = k[2] if k[0] == 'umap' else ('B',)
    return make(k, Arr('map', ('B',), (), FillBase(tm.FALSE)), Arr('map', vt, (), FillBase(None)), tm.ZI)


def key(v):
    if isinstance(v, T): return (v,)
    if isinstance(v, Struct): return tuple(x for f in v.f.values() for x in key(f))
    raise Unsupported('key of type %s' % type(v).__name__)


def ismember(v, k): return v.get('has').get(*k)


def put(s, st, obj, v, k, val, guard=tm.TRUE):
    """insert or overwrite where guard holds"""
    h = ismember(v, k)
    n = tm.add(v.get('n'), tm.ite(tm.and_(guard, tm.not_(h)), tm.OI, tm.ZI))
    f = dict(v.f)
    f['has'] = v.get('has').with_log(('set', guard, k, tm.TRUE))
    f['n'] = n
    if val is not None: f['val'] = v.get('val').with_log(('set', guard, k, val))
    w = Struct(v.cls, f)
    s.write(st, obj, w)
    return h


def cursor(obj, k, kv, found): return ('cursor', obj, k, kv, found)


def cursor_eq(a, b):
    if not a[1].same(b[1]): raise Unsupported('iterators of different containers')
    if a[2] is None and b[2] is None: return tm.TRUE
    if a[2] is None: return tm.not_(b[4])
    if b[2] is None: return tm.not_(a[4])
    return tm.or_(tm.and_(a[4], b[4], *[tm.eq(x, y) for x, y in zip(a[2], b[2])]), tm.and_(tm.not_(a[4]), tm.not_(b[4])))


def cursor_deref(s, st, c):
    if c[2] is None: raise Unsupported('dereference of end()')
    s.oblige(st, 'index', c[4], 'iterator points at an element')
    v = s.read(st, c[1])
    if v.cls == 'uset': return LV(('cell', s.newcell(st, c[3]).root[1]))
    return EntryLV(c[1], c[2], c[3])


class EntryLV(LV):
    """l-value of the pair (key, value) an iterator points at"""
    __slots__ = ('obj', 'k', 'kv')
    def __init__(s, obj, k, kv):
        LV.__init__(s, obj.root, obj.path)
        s.obj, s.k, s.kv = obj, k, kv
    def ext(s, *st):
        if st[0][0] == 'f' and st[0][1] == 'second': return s.obj.ext(('f', 'val'), ('i', s.k), *st[1:])
        if st[0][0] == 'f' and st[0][1] == 'first': raise Unsupported('key of an entry')
        raise Unsupported('entry of an associative container')


def map_method(s, st, name, obj, v, args, n):
    args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
    ktype = (v.get('val').ety if v.cls == 'umap' else None)
    rv = lambda i: s.rv(st, args[i])
    if name in ('size', 'length'):
        return v.get('n')
    if name == 'empty': return tm.eq(v.get('n'), tm.ZI)
    if name in ('end', 'cend'): return cursor(obj, None, None, tm.FALSE)
    if name in ('reserve', 'rehash'): return VOID
    if name == 'clear':
        f = dict(v.f)
        f['has'] = Arr('map', ('B',), (), FillBase(tm.FALSE))
        f['n'] = tm.ZI
        s.write(st, obj, Struct(v.cls, f))
        return VOID
    if name == 'find':
        kv = rv(0)
        k = key(kv)
        return cursor(obj, k, kv, ismember(v, k))
    if name in ('count', 'contains'):
        h = ismember(v, key(rv(0)))
        return h if name == 'contains' else tm.ite(h, tm.OI, tm.ZI)
    if name == 'at':
        k = key(rv(0))
        h = ismember(v, k)
        throw_unless(s, st, h)
        return obj.ext(('f', 'val'), ('i', k))
    if name == 'operator[]':
        k = key(rv(0))
        h = ismember(v, k)
        if h is not tm.TRUE:
            d = s.default(st, ktype)
            old = s.read(st, obj.ext(('f', 'val'), ('i', k))) if h is not tm.FALSE else None
            put(s, st, obj, v, k, d if old is None else vite(h, old, d))
        return obj.ext(('f', 'val'), ('i', k))
    if name in ('insert_or_assign',) and len(args) == 2:
        kv, val = rv(0), s.coerce(st, rv(1), ktype)
        h = put(s, st, obj, v, key(kv), val)
        return Struct('pair', {'first': cursor(obj, key(kv), kv, tm.TRUE), 'second': tm.not_(h)})
    if name in ('insert', 'emplace', 'try_emplace'):
        if v.cls == 'uset' and len(args) == 1:
            kv = rv(0)
            h = put(s, st, obj, v, key(kv), None)
            return Struct('pair', {'first': cursor(obj, key(kv), kv, tm.TRUE), 'second': tm.not_(h)})
        if v.cls == 'umap':
            if len(args) == 1:
                p = rv(0)
                if not (isinstance(p, Struct) and 'first' in p.f): raise Unsupported('insert of %s' % type(p).__name__)
                kv, val = p.get('first'), p.get('second')
            elif len(args) == 2: kv, val = rv(0), rv(1)
            else: raise Unsupported('map.%s' % name)
            val = s.coerce(st, val, ktype)
            h = ismember(v, key(kv))
            put(s, st, obj, v, key(kv), val, tm.not_(h))
            return Struct('pair', {'first': cursor(obj, key(kv), kv, tm.TRUE), 'second': tm.not_(h)})
    if name == 'erase' and len(args) == 1:
        a = rv(0)
        if isinstance(a, tuple) and a and a[0] == 'cursor':
            s.oblige(st, 'index', a[4], 'iterator points at an element')
            k, h = a[2], a[4]
        else:
            k = key(a)
            h = ismember(v, k)
        st.assume(tm.implies(h, tm.le(tm.OI, v.get('n'))))
        f = dict(v.f)
        f['has'] = v.get('has').with_log(('set', tm.TRUE, k, tm.FALSE))
        f['n'] = tm.sub(v.get('n'), tm.ite(h, tm.OI, tm.ZI))
        s.write(st, obj, Struct(v.cls, f))
        return tm.ite(h, tm.OI, tm.ZI)
    raise Unsupported('map.' + name)


def throw_unless(s, st, cond):
    if cond is tm.TRUE: return
    bad = st.copy()
    bad.pc.append(tm.not_(cond))
    d = s.decide(st, cond)
    if d is True: return
    s.do_throw(bad, 'out_of_range')
    if d is False:
        st.dead = True
        return
    st.pc.append(cond)
