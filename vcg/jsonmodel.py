"""jsoncpp values (library contract): a value is an opaque object; its kind, members, elements and conversions are uninterpreted
functions of it.  A conversion raises an error exactly when the value is not of a convertible kind."""
from . import terms as tm
from .terms import T
from .values import *
from .maps import throw_unless

KINDS = {'Bool': 'B', 'Int': 'I', 'Double': 'R', 'String': 'S'}


def length(st, o):
    n = tm.app('json|#len', 'I', o)
    st.assume(tm.le(tm.ZI, n))
    return n


def rd(s, st, a): return s.read(st, a) if isinstance(a, LV) else a


def convert(kind):
    def h(s, st, o, args, n):
        s.trusted.add('Json::Value::as%s (raises an error exactly when the kind is not convertible)' % kind)
        throw_unless(s, st, tm.app('json|is' + kind, 'B', o))
        return tm.app('json|as' + kind, KINDS[kind], o)
    return h


def pred(name): return lambda s, st, o, args, n: tm.app('json|' + name, 'B', o)


def index(s, st, o, args, n):
    k = rd(s, st, args[0])
    if k.sort == 'I':
        s.oblige(st, 'index', tm.and_(tm.le(tm.ZI, k), tm.lt(k, length(st, o))), 'element of a JSON list')
        return tm.app('json|[]', 'O', o, k)
    if k.sort == 'S': return tm.app('json|member', 'O', o, k)
    raise Unsupported('index of a JSON value')


def range_of(s, st, o):
    return s.newcell(st, Arr('vec', 'Json::Value', (length(st, o),), SymBase(s, 'json', (o,), 'Json::Value', '[]')))


def install(s):
    c = s.contracts
    for k in KINDS:
        c['opaque:as' + k] = convert(k)
        c['opaque:is' + k] = pred('is' + k)
    for k in ('Array', 'Null', 'Object'): c['opaque:is' + k] = pred('is' + k)
    c['opaque:isMember'] = lambda s, st, o, args, n: tm.app('json|has', 'B', o, rd(s, st, args[0]))
    c['opaque:size'] = lambda s, st, o, args, n: length(st, o)
    c['opaque:[]'] = index
    c['opaque:range'] = range_of
