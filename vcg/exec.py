"""Verification-condition generation: symbolic execution of the clang AST of the real functions, for all inputs.
Loops are replaced by closed-form invariants that are inferred and then checked for one arbitrary iteration; callees with a
contract are replaced by it, callees without one are executed in place."""
import re
from fractions import Fraction
from . import terms as tm, smt
from .terms import T
from .values import *
from . import values as V
from .cast import clean, split_targs, qt, strip_comments, find_value

UNSIGNED = {'unsigned int', 'unsigned long', 'size_t', 'std::size_t', 'unsigned long long', 'unsigned char', 'unsigned short', 'uint',
            'size_type', 'std::vector::size_type', 'uint32_t', 'uint64_t', 'std::uint64_t', 'std::uint32_t'}
SIGNED = {'int', 'long', 'long long', 'short', 'char', 'signed char', 'Eigen::Index', 'Index', 'std::ptrdiff_t', 'ptrdiff_t',
          'difference_type', 'int64_t', 'int32_t', 'std::int64_t', 'StorageIndex', 'unsigned', 'pid_t', 'c_int', 'int_t', 'OSQPInt'}
REALS = {'double', 'float', 'Scalar', 'long double', 'CoeffReturnType', 'RealScalar', 'c_float', 'real_t', 'OSQPFloat'}


EIGEN_EXPR = re.compile(r'^(?:const )?Eigen::(\w+)<')
EIGEN_VIEWS = ('Block', 'VectorBlock', 'Map', 'Ref', 'Diagonal', 'Transpose', 'ArrayWrapper', 'MatrixWrapper', 'Reshaped')


class Exit(Exception):
    """a path ends here (always throws / aborts)"""


class St:
    __slots__ = ('cells', 'maps', 'facts', 'pc', 'dead', 'meta')

    def __init__(s):
        s.cells, s.maps, s.facts, s.pc, s.dead, s.meta = {}, {}, [], [], False, {}

    def copy(s):
        n = St()
        n.cells, n.maps, n.facts, n.pc, n.dead, n.meta = dict(s.cells), dict(s.maps), list(s.facts), list(s.pc), s.dead, dict(s.meta)
        return n

    def all(s): return s.facts + s.pc

    def assume(s, f):
        if f is not tm.TRUE and f not in s.facts: s.facts.append(f)


INTS = ('std::size_t', ) + ('std::size_t', 'size_t', 'unsigned long', 'int', 'long', 'unsigned int')
SIZES = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'int': 4, 'unsigned int': 4, 'unsigned': 4, 'float': 4, 'long': 8, 'unsigned long': 8, 'size_t': 8, 'double': 8}


def local_names(fn):
    out = [(p['id'], p.get('name')) for p in fn.params]

    def go(n):
        if not isinstance(n, dict): return
        if n.get('kind') == 'VarDecl': out.append((n['id'], n.get('name')))
        for c in n.get('inner', ()): go(c)
    go(fn.body)
    return out


class Frame:
    def __init__(s, fn, this):
        s.fn, s.this, s.env = fn, this, {}
        s.ret_ref = False
        s.tu = fn.tu if fn else None


NULLSTR = tm.string('\x01null')


def _flag(x):
    """the condition a 0/1 integer stands for"""
    if x is tm.ZI: return tm.FALSE
    if x is tm.OI: return tm.TRUE
    if x.op == 'ite':
        a, b = _flag(x.args[1]), _flag(x.args[2])
        if a is not None and b is not None: return tm.or_(tm.and_(x.args[0], a), tm.and_(tm.not_(x.args[0]), b))
    return None


class Obl:
    def __init__(s, kind, fn, line, facts, goal, desc):
        s.kind, s.fn, s.line, s.facts, s.goal, s.desc = kind, fn, line, facts, goal, desc
        s.status = None


class Throw:
    def __init__(s, cond, what, st): s.cond, s.what, s.st = cond, what, st


class Exec:
    def __init__(s, db, contracts=None):
        s.db = db
        s.contracts = contracts or {}
        s.ncell = 0
        s.nh = 0
        s.frames = []
        s.obls = []
        s.quiet = 0
        s.zero_unstored = False
        s.entry_forms = True
        s.throws = []
        s.loopvars = []
        s.counters, s.counting = set(), {}
        s.loop_memo, s.loop_count = {}, 0
        s.script, s.taken = [], []      # which end of the functions with loop contracts to follow
        s.owned = {}             # field -> allocations that hold it in a location of their own
        s.dyn = {}               # object term / allocation name -> class
        s.used_fns = {}          # functions executed from source
        s.used_contracts = {}
        s.trusted = set()        # library models used
        s.notes = set()
        s.depth = 0
        s.opaque = set()
        s.safety = True
        s.curline = None
        from . import lib
        s.lib = lib
        s.genfacts = []
        s.hooks = {}
        s.statics = {}
        s.branch_prune = True
        s.assumed = []

    # ------------------------------------------------------------ cells
    def newcell(s, st, v):
        s.ncell += 1
        st.cells[s.ncell] = v
        return LV(('cell', s.ncell))

    def alloc(s, st, cls):
        s.ncell += 1
        name = 'obj#%d' % s.ncell
        s.dyn[name] = cls
        if not s.loopvars: s.own_fields(st, name, cls)
        return tm.app(name, 'O', *s.loopvars)

    def own_fields(s, st, name, cls):
        """the fields of a single object get locations of their own, so that loops and branches can treat them like variables"""
        r = s.db.recs.get(cls)
        if r is None: return
        o = tm.app(name, 'O')
        for rr in [r] + s.db.all_bases(r):
            for fn, ft, _ in rr.fields:
                key = rr.qual + '.' + fn
                if ('o', name, key) in st.cells: continue
                try: v = SymBase(s, key, (), ft, '[o]').get(None, (o,))
                except Unsupported: continue
                if v is UNSET: continue
                st.cells[('o', name, key)] = v
                l = s.owned.setdefault(key, [])
                if name not in l: l.append(name)

    def fresh_app(s, name, sort):
        """a symbol that may depend on the enclosing loop iterations"""
        s.nh += 1
        return tm.app('%s!%d' % (name, s.nh), sort, *s.loopvars)

    def freshname(s, name):
        s.nh += 1
        return '%s!%d' % (name, s.nh)

    # ------------------------------------------------------------ types
    def tkind(s, t):
        t0 = t
        t = clean(t)
        if t.endswith('*') or t.endswith('*const'):
            return ('ptr', t.rstrip('const').rstrip().rstrip('*').strip())
        t = t.strip()
        if t in ('double', 'float', 'long double') or t in REALS: return ('R',)
        if t == 'bool': return ('B',)
        if t in UNSIGNED: return ('I', True)
        if t in SIGNED: return ('I', False)
        if t == 'void': return ('void',)
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m: return ('arr', m.group(1).strip(), int(m.group(2)))
        base, args = split_targs(t)
        b = base.split('::')[-1]
        if b in ('stringstream', 'ostringstream', 'basic_stringstream', 'basic_ostringstream'): return ('S',)
        if t.startswith('std::basic_string') or t in ('std::string', 'string'): return ('S',)
        if b in ('shared_ptr', 'unique_ptr', 'weak_ptr', '__shared_ptr') and args: return ('ptr', args[0])
        if b == 'list' and args and base.startswith('std') and args[0] in INTS: return ('dlist',)
        if b in ('_List_iterator', '_List_const_iterator') and args and args[0] in INTS: return ('I', False)
        if re.match(r'^(typename )?std::list<[^<>]*>::(const_)?iterator$', t): return ('I', False)
        if b in ('vector', 'initializer_list', 'list', 'deque') and args and not base.startswith('Eigen'): return ('vec', args[0])
        if b == 'array' and len(args) == 2 and base.startswith('std'): return ('arr', args[0], int(args[1].rstrip('UL')))
        if b == 'pair' and args: return ('pair', args[0], args[1])
        if b in ('unordered_map', 'map') and args: return ('umap', args[0], args[1])
        if b == 'reference_wrapper' and args: return ('refw', args[0])
        if b in ('unordered_set', 'set') and args and base.startswith('std'): return ('uset', args[0])
        if b == 'function' and args: return ('func',)
        if b in ('atomic',) and args: return s.tkind(args[0])
        if b in ('time_point', 'duration') and args: return ('R',)      # seconds
        if b in ('Ref', 'Map') and args: return s.tkind(args[0])
        if b in ('Matrix', 'Array') and args and len(args) >= 3:
            sc = s.tkind(args[0])[0]
            dm = lambda x: -1 if x.endswith('Dynamic') else int(x)
            return ('mat', sc, dm(args[1]), dm(args[2]), 'arr' if b == 'Array' else None)
        m = re.match(r'^(Vector|RowVector|Matrix|Array)(X|\d)?(X|\d)?([dif])$', b)
        if m and (t.startswith('Eigen::') or t == b):
            sc = {'d': 'R', 'f': 'R', 'i': 'I'}[m.group(4)]
            dm = lambda x: -1 if x == 'X' else int(x)
            a, bb = m.group(2), m.group(3)
            if m.group(1) == 'Vector': return ('mat', sc, dm(a), 1, None)
            if m.group(1) == 'RowVector': return ('mat', sc, 1, dm(a), None)
            if m.group(1) == 'Matrix': return ('mat', sc, dm(a), dm(bb or a), None)
            return ('mat', sc, dm(a), dm(bb) if bb else 1, 'arr')
        if b == 'SparseMatrix': return ('smat', 'R' if not args else s.tkind(args[0])[0], None)
        if b == 'SparseVector': return ('smat', 'R' if not args else s.tkind(args[0])[0], 'vec')
        if b == 'Jacobian': return ('smat', 'R', None)
        if b == 'Triplet' and base.startswith('Eigen'): return ('trip', args[0] if args else 'double')
        if b in ('VarMatrix',): pass
        r = s.db.rec(t)
        if r is not None and r.fields is not None and (r.fields or r.methods): return ('rec', r.qual)
        if t in s.db.enumtypes or any(e.split('::')[-1] == t.split('::')[-1] for e in s.db.enumtypes): return ('I', False)
        if b in s.db.typedefs: return s.tkind(s.db.typedefs[b])
        for k, v in s.db.typedefs.items():
            if k.endswith('::' + t) or k == t or k.split('::')[-1] == b:
                if clean(v) != t: return s.tkind(v)
        if b in ('size_type',): return ('I', True)
        if b in ('difference_type',): return ('I', False)
        if b in ('value_type',): return ('R',)
        return ('opaque', t)

    def symval(s, t, name, args=()):
        k = s.tkind(t) if isinstance(t, str) else t
        args = tuple(args)
        if k[0] in ('I', 'R', 'B', 'S'):
            v = tm.app(name, k[0], *args)
            if k[0] == 'I' and len(k) > 1 and k[1]: smt.UNS.add(name)
            return v
        if k[0] == 'ptr':
            r = s.db.rec(k[1]) if isinstance(k[1], str) else None
            if r is not None and '_lemmas::' in r.qual: s.dyn.setdefault(name, r.qual)     # parameters of an environment class are exactly of that class
            return tm.app(name, 'O', *args)
        if k[0] == 'vec':
            return Arr('vec', k[1], (tm.app(name + '|#len', 'I', *args),), SymBase(s, name, args, k[1], '[]'))
        if k[0] == 'arr':
            return Arr('vec', k[1], (tm.num(k[2]),), SymBase(s, name, args, k[1], '[]'))
        if k[0] == 'mat':
            d = [tm.num(x) if x >= 0 else tm.app(name + '|' + nm, 'I', *args) for x, nm in ((k[2], '#rows'), (k[3], '#cols'))]
            return Arr('mat', (k[1],), d, SymBase(s, name, args, (k[1],), '[,]'), tag=k[4])
        if k[0] == 'smat':
            d = [tm.app(name + '|#rows', 'I', *args), tm.app(name + '|#cols', 'I', *args) if k[2] is None else tm.OI]
            a = Arr('smat', (k[1],), d, SymBase(s, name, args, (k[1],), '[,]'))
            return a
        if k[0] == 'rec':
            r = s.db.recs[k[1]]
            f = {}
            for rr in [r] + s.db.all_bases(r):
                for fn, ft, _ in rr.fields: f.setdefault(fn, s.symval(ft, name + '|.' + fn, args))
            return Struct(r.qual, f)
        if k[0] == 'pair':
            return Struct('pair', {'first': s.symval(k[1], name + '|.first', args), 'second': s.symval(k[2], name + '|.second', args)})
        if k[0] == 'trip':
            return Struct('Triplet', {'row': tm.app(name + '|.row', 'I', *args), 'col': tm.app(name + '|.col', 'I', *args), 'val': tm.app(name + '|.val', 'R', *args)})
        if k[0] in ('umap', 'uset'):
            from . import maps
            return maps.sym(s, k, name, args)
        if k[0] == 'dlist':
            from . import dlist
            return dlist.sym(s, name, args)
        if k[0] in ('opaque', 'func', 'refw'):
            return tm.app(name, 'O', *args)
        raise Unsupported('symbolic value of type %s' % (t,))

    def default(s, st, t, uninit=False):
        """value-initialised (or unspecified when uninit) object of a type"""
        k = s.tkind(t) if isinstance(t, str) else t
        if k[0] in ('I', 'R', 'B'):
            if uninit: return s.fresh_app('uninit', k[0])
            return tm.FALSE if k[0] == 'B' else tm.num(0, k[0])
        if k[0] == 'S': return tm.string('')
        if k[0] == 'ptr': return smt.NULLPTR
        if k[0] == 'vec': return s.emptyvec(k[1])
        if k[0] == 'arr': return Arr('vec', k[1], (tm.num(k[2]),), FillBase(s.default(st, k[1], uninit)))
        if k[0] == 'mat':
            d = [tm.num(max(k[2], 0)), tm.num(max(k[3], 0))]
            return Arr('mat', (k[1],), d, s.uninit_base(k[1], 2), tag=k[4])
        if k[0] == 'smat':
            return Arr('smat', (k[1],), (tm.ZI, tm.ZI if k[2] is None else tm.OI), FillBase(tm.num(0, k[1])))
        if k[0] == 'rec':
            return s.default_rec(st, k[1])
        if k[0] == 'pair': return Struct('pair', {'first': s.default(st, k[1], uninit), 'second': s.default(st, k[2], uninit)})
        if k[0] == 'trip': return Struct('Triplet', {'row': tm.ZI, 'col': tm.ZI, 'val': tm.ZR})
        if k[0] in ('umap', 'uset'): return s.lib.empty_map(s, k)
        if k[0] == 'dlist':
            from . import dlist
            return dlist.empty()
        if k[0] in ('opaque', 'func', 'refw'): return s.fresh_app('opaque', 'O')
        raise Unsupported('default of %s' % t)

    def default_rec(s, st, qual):
        r = s.db.recs[qual]
        f = {}
        for rr in [r] + s.db.all_bases(r):
            for fn, ft, init in rr.fields:
                if fn in f: continue
                if init is not None: f[fn] = s.eval_init(st, init, ft, rr)
                else: f[fn] = s.default(st, ft, uninit=True)
        return Struct(qual, f)

    def eval_init(s, st, init, ft, rec):
        fr = Frame(None, s.frames[-1].this if s.frames else None)
        fr.tu = rec.tu
        s.frames.append(fr)
        try:
            v = s.rv(st, init)
        finally:
            s.frames.pop()
        return s.coerce(st, v, ft)

    def emptyvec(s, ety): return Arr('vec', ety, (tm.ZI,), FillBase(None))

    def uninit_base(s, sort, n):
        s.nh += 1
        nm = 'uninit!%d' % s.nh
        lv = tuple(s.loopvars)
        return FnBase(lambda *i: tm.app(nm, sort, *(lv + tuple(i))))

    # ------------------------------------------------------------ l-values
    def read(s, st, lv):
        if not isinstance(lv, LV): return lv
        root = lv.root
        path = lv.path
        if root[0] == 'cell':
            if root[1] not in st.cells: raise Unsupported('dangling cell')
            v = st.cells[root[1]]
        elif root[0] == 'obj':
            o = root[1]
            if not path: return ('objref', o)
            if path[0][0] != 'f':
                raise Unsupported('path %r on an object' % (path,))
            v = s.objfield(st, o, path[0])
            path = path[1:]
        else: raise Unsupported('lv root')
        return s.walk(st, v, path)

    def objfield(s, st, o, step):
        if o.op == 'ite':
            return vite(o.args[0], s.objfield(st, o.args[1], step), s.objfield(st, o.args[2], step))
        key = step[2] + '.' + step[1]
        if is_alloc(o) and not o.args and ('o', o.data, key) in st.cells: return st.cells[('o', o.data, key)]
        v = s.fieldmap(st, step).get(o)
        for name in s.owned.get(key, ()):
            c = obj_eq(o, tm.app(name, 'O'))
            if c is not tm.FALSE and ('o', name, key) in st.cells: v = vite(c, st.cells[('o', name, key)], v)
        return v

    def fieldmap(s, st, step):
        key = step[2] + '.' + step[1]
        m = st.maps.get(key)
        if m is None:
            r = s.db.recs.get(step[2])
            ft = None
            for fn, t, _ in (r.fields if r else []):
                if fn == step[1]: ft = t
            if ft is None: raise Unsupported('unknown field %s' % key)
            m = st.maps[key] = Arr('map', ft, (), SymBase(s, key, (), ft, '[o]'))
        return m

    def walk(s, st, v, path):
        for p in path:
            if isinstance(v, IteV):
                return vite(v.c, s.walk(st, v.a, path[path.index(p):]), s.walk(st, v.b, path[path.index(p):]))
            if p[0] == 'f':
                if isinstance(v, Struct): v = v.get(p[1])
                else: raise Unsupported('field %s of %s' % (p[1], type(v).__name__))
            elif p[0] in ('i', 'ins'):
                if not isinstance(v, Arr): raise Unsupported('index into %s' % type(v).__name__)
                v = v.get(*p[1])
            elif p[0] == 'v':
                v = p[1].get(v)
            elif p[0] == 'cast': pass
            else: raise Unsupported('path %s' % p[0])
        return v

    def write(s, st, lv, val):
        if isinstance(lv, Struct) or not isinstance(lv, LV): raise Unsupported('write to r-value')
        root, path = lv.root, lv.path
        if root[0] == 'cell':
            st.cells[root[1]] = s.upd(st, st.cells.get(root[1]), path, val)
        else:
            o = root[1]
            if not path:
                # whole-object assignment
                if isinstance(val, Struct):
                    for fn, fv in val.f.items(): s.write(st, s.fieldlv(lv, val.cls, fn), fv)
                    return
                raise Unsupported('whole object write')
            s.objwrite(st, o, path, val, tm.TRUE)

    def objwrite(s, st, o, path, val, guard):
        if o.op == 'ite':
            s.objwrite(st, o.args[1], path, val, tm.and_(guard, o.args[0]))
            s.objwrite(st, o.args[2], path, val, tm.and_(guard, tm.not_(o.args[0])))
            return
        key = path[0][2] + '.' + path[0][1]
        mine = is_alloc(o) and not o.args and ('o', o.data, key) in st.cells
        for name in [o.data] if mine else s.owned.get(key, ()):
            c = tm.and_(guard, obj_eq(o, tm.app(name, 'O')))
            ck = ('o', name, key)
            if c is tm.FALSE or ck not in st.cells: continue
            old = st.cells[ck]
            nv = s.upd(st, old, path[1:], val)
            st.cells[ck] = nv if c is tm.TRUE else vite(c, nv, old)
        if mine: return
        m = s.fieldmap(st, path[0])
        nv = val
        if len(path) > 1:
            old = m.get(o)
            nv = s.upd(st, old, path[1:], val)
        st.maps[key] = m.with_log(('set', guard, (o,), nv))

    def fieldlv(s, lv, cls, fn):
        r = s.db.recs.get(cls)
        for rr in [r] + s.db.all_bases(r):
            for n, t, _ in rr.fields:
                if n == fn: return lv.ext(('f', fn, rr.qual))
        raise Unsupported('field %s' % fn)

    def upd(s, st, old, path, val):
        if not path: return val
        p = path[0]
        if isinstance(old, IteV):
            return vite(old.c, s.upd(st, old.a, path, val), s.upd(st, old.b, path, val))
        if p[0] == 'f':
            if not isinstance(old, Struct): raise Unsupported('field write')
            return old.set(p[1], s.upd(st, old.get(p[1]), path[1:], val))
        if p[0] == 'ins' and len(path) == 1:
            return old.with_log(('add', tm.TRUE, p[1], val))      # previously 0: obligation of insert
        if p[0] in ('i', 'ins'):
            idx = p[1]
            if len(path) == 1:
                nv = val
                if isinstance(val, T) and val.sort in 'IR' and isinstance(old, Arr):
                    # x[i] = x[i] + d is recorded as an increment, so that loops over it become sums
                    try: cur = old.get(*idx)
                    except Unsupported: cur = None
                    if isinstance(cur, T) and cur.sort == val.sort and cur.op in ('app', 'ite', 'poly') and cur is not val and roots(cur):
                        pv = tm.poly(val)
                        d = tm.sub(val, cur)
                        if len(tm.poly(d)) < len(pv) and not (roots(d) & roots(cur)):
                            return old.with_log(('add', tm.TRUE, idx, d))
                return old.with_log(('set', tm.TRUE, idx, nv))
            cur = old.get(*idx)
            return old.with_log(('set', tm.TRUE, idx, s.upd(st, cur, path[1:], val)))
        if p[0] == 'v':
            if len(path) == 1: return p[1].put(old, val, s)
            if len(path) == 2 and path[1][0] == 'i':
                q = p[1].index(path[1][1])
                if q is not None: return s.upd(st, old, (('i', q),), val)
            inner = p[1].get(old)
            return p[1].put(old, s.upd(st, inner, path[1:], val), s)
        if p[0] == 'cast': return s.upd(st, old, path[1:], val)
        raise Unsupported('write path %s' % p[0])

    # ------------------------------------------------------------ obligations
    def oblige(s, st, kind, goal, desc):
        if s.quiet or goal is tm.TRUE or not s.safety: 
            return
        fn = s.frames[-1].fn
        s.obls.append(Obl(kind, fn.qual if fn else '?', s.curline, st.all(), goal, desc))

    def decide(s, st, c, timeout=300):
        """True / False / None"""
        if c is tm.TRUE: return True
        if c is tm.FALSE: return False
        if not s.branch_prune: return None
        fs = st.all()
        if c in fs: return True
        if tm.not_(c) in fs: return False
        if c.bh > 0: return None
        if smt.valid(fs, c, timeout): return True
        if smt.valid(fs, tm.not_(c), timeout): return False
        return None

    # ------------------------------------------------------------ statements
    def run(s, n, st):
        """list of outcomes (kind, st, value)"""
        k = n.get('kind')
        l = _line(n)
        if l: s.curline = l
        m = getattr(s, 'st_' + k, None)
        if m: return m(n, st)
        if k is None or k.endswith('Comment'): return [('n', st, None)]
        s.ev(st, n)
        return [('n', st, None)]

    def st_NullStmt(s, n, st): return [('n', st, None)]

    def st_CompoundStmt(s, n, st):
        outs = []
        cur = st
        for c in n.get('inner', []):
            r = s.run(c, cur)
            nxt = None
            for o in r:
                if o[0] == 'n': nxt = o[1]
                else: outs.append(o)
            if nxt is None or nxt.dead:
                if nxt is not None and nxt.dead: pass
                return outs
            cur = nxt
        outs.append(('n', cur, None))
        return outs

    def st_DeclStmt(s, n, st):
        for d in n.get('inner', []):
            if d.get('kind') == 'VarDecl': s.declare(d, st)
            elif d.get('kind') == 'DecompositionDecl': s.decompose(d, st)
        return [('n', st, None)]

    def declare(s, d, st):
        fr = s.frames[-1]
        t = qt(d)
        init = [c for c in strip_comments(d) if not c.get('kind', '').endswith('Attr')]
        raw = d.get('type', {}).get('qualType', '')
        isref = raw.rstrip().endswith('&') or t.rstrip().endswith('&')
        if d.get('storageClass') == 'static':
            if d['id'] in s.statics and s.statics[d['id']].root[1] in st.cells:
                fr.env[d['id']] = s.statics[d['id']]
                return
        if not init:
            v = s.default(st, t, uninit=True)
            fr.env[d['id']] = s.newcell(st, v)
            return
        e = init[0]
        r = s.ev(st, e)
        if isref:
            if isinstance(r, LV): fr.env[d['id']] = r
            else: fr.env[d['id']] = s.newcell(st, r)
            return
        m = EIGEN_EXPR.match(clean(t)) if 'Eigen' in t else None
        if m:
            if m.group(1) in EIGEN_VIEWS and isinstance(r, LV):
                fr.env[d['id']] = r
                return
            if m.group(1).startswith(('Cwise', 'Product')): s.trusted.add('Eigen expression held in a variable is evaluated where it is declared')
        v = s.read(st, r) if isinstance(r, LV) else r
        v = s.coerce(st, v, t)
        fr.env[d['id']] = s.newcell(st, v)
        if d.get('storageClass') == 'static': s.statics[d['id']] = fr.env[d['id']]

    def decompose(s, d, st):
        fr = s.frames[-1]
        inner = strip_comments(d)
        init = next(c for c in inner if c.get('kind') != 'BindingDecl')
        binds = [c for c in inner if c.get('kind') == 'BindingDecl']
        r = s.ev(st, init)
        raw = d.get('type', {}).get('qualType', '')
        if not isinstance(r, LV): r = s.newcell(st, r)
        elif not raw.rstrip().endswith('&'): r = s.newcell(st, s.read(st, r))
        v = s.read(st, r)
        if not isinstance(v, Struct): raise Unsupported('structured binding')
        for b, f in zip(binds, list(v.f)): fr.env[b['id']] = r.ext(('f', f, v.cls))

    def coerce(s, st, v, t):
        if isinstance(v, T):
            if v.sort in 'IRB':
                k = s.tkind(t)
                if k[0] == 'R' and v.sort == 'I': return tm.to_real(v)
                if k[0] == 'I' and v.sort == 'B': return tm.ite(v, tm.OI, tm.ZI)
                if k[0] == 'B' and v.sort in 'IR':
                    f = _flag(v) if v.sort == 'I' else None
                    return f if f is not None else tm.not_(tm.eq(v, tm.num(0, v.sort)))
            return v
        if isinstance(v, Arr) and v.tag == 'arr' and s.tkind(t)[0] == 'mat' and s.tkind(t)[4] is None: return v.retag(None)
        if isinstance(v, Arr) and v.kind in ('mat', 'smat'):
            k = s.tkind(t)
            if k[0] in ('mat', 'smat') and v.kind != k[0]:
                r = Arr(k[0], (k[1],), v.dims, v.base, v.log, v.dims0, None, None)
                return r
        if isinstance(v, Arr) and v.kind == 'vec' and s.tkind(t)[0] == 'mat':
            raise Unsupported('vector to matrix')
        return v

    def st_ReturnStmt(s, n, st):
        fr = s.frames[-1]
        inner = n.get('inner', [])
        if not inner: return [('ret', st, VOID)]
        r = s.ev(st, inner[0])
        if not fr.ret_ref and isinstance(r, LV): r = s.read(st, r)
        if fr.fn is not None and not fr.ret_ref: r = s.coerce(st, r, fr.fn.rettype)
        if st.dead: return []
        return [('ret', st, r)]

    def st_BreakStmt(s, n, st): return [('brk', st, None)]
    def st_ContinueStmt(s, n, st): return [('cont', st, None)]

    def st_IfStmt(s, n, st):
        inner = [c for c in n.get('inner', [])]
        i = 0
        if n.get('hasInit'):
            s.run(inner[0], st); i = 1
        if n.get('hasVar'):
            s.run(inner[i], st)
            i += 1
        cond = inner[i]
        th = inner[i + 1]
        el = inner[i + 2] if n.get('hasElse') else None
        if n.get('isConstexpr'):
            pass
        c = s.cond(st, cond)
        if st.dead: return []
        d = s.decide(st, c)
        if d is True:
            st.assume(c)
            return s.run(th, st)
        if d is False:
            st.assume(tm.not_(c))
            return s.run(el, st) if el is not None else [('n', st, None)]
        base = len(st.pc)
        fb = len(st.facts)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(c)
        s2.pc.append(tm.not_(c))
        o1 = s.run(th, s1)
        o2 = s.run(el, s2) if el is not None else [('n', s2, None)]
        outs = o1 + o2
        return s.join(outs, base, fb)

    def join(s, outs, base, fb):
        """merge outcomes of the same kind 'n' (and cont, brk); returns are kept apart"""
        res = []
        for kind in ('n', 'cont', 'brk'):
            g = [o for o in outs if o[0] == kind and not o[1].dead]
            if g:
                res.append((kind, s.merge([o[1] for o in g], base, fb), None))
        res += [o for o in outs if o[0] not in ('n', 'cont', 'brk') and not o[1].dead]
        return res

    def merge(s, sts, base, fb):
        if len(sts) == 1: return sts[0]
        conds = [tm.and_(*x.pc[base:]) for x in sts]
        out = sts[-1].copy()
        extra = [(tm.implies(conds[-1], f)) for f in sts[-1].facts[fb:]]
        cells, maps = out.cells, out.maps
        for x, c in zip(reversed(sts[:-1]), reversed(conds[:-1])):
            for k, v in x.cells.items():
                if k in cells:
                    if cells[k] is not v: cells[k] = vite(c, v, cells[k])
                else: cells[k] = v
            for k, v in x.maps.items():
                if k in maps:
                    if maps[k] is not v: maps[k] = vite(c, v, maps[k])
                else: maps[k] = v
            for k in list(maps):
                if k not in x.maps:
                    m = maps[k]
                    if m.log:
                        b = Arr('map', m.ety, (), m.base, ())
                        maps[k] = vite(c, b, m)
            for f in x.facts[fb:]: extra.append(tm.implies(c, f))
        out.facts = sts[0].facts[:fb]
        for f in extra: out.assume(f)
        d = tm.or_(*conds)
        d = _simp_or(conds) or d
        out.pc = sts[0].pc[:base] + ([] if d is tm.TRUE else [d])
        return out

    def st_SwitchStmt(s, n, st):
        inner = n.get('inner', [])
        cond, body = inner[-2], inner[-1]
        v = s.rv(st, cond)
        # flatten the body into (labels, statements)
        secs = []

        def add(c):
            labels = []
            while c.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    labels.append(s.rv(st, c['inner'][0]))
                    c = c['inner'][-1]
                else:
                    labels.append(None)
                    c = c['inner'][-1]
            if labels: secs.append((labels, [c]))
            else: secs[-1][1].append(c)
        for c in body.get('inner', []): add(c)
        base, fb = len(st.pc), len(st.facts)
        allv = [l for ls, _ in secs for l in ls if l is not None]
        outs = []
        taken = []
        hasdef = False
        for i, (ls, _) in enumerate(secs):
            cs = []
            for l in ls:
                if l is None:
                    hasdef = True
                    cs.append(tm.and_(*[tm.ne(v, x) for x in allv]))
                else: cs.append(tm.eq(v, l))
            c = tm.or_(*cs)
            if c is tm.FALSE or s.decide(st, c) is False: continue
            s1 = st.copy()
            s1.pc.append(c)
            stm = {'kind': 'CompoundStmt', 'inner': [x for j in range(i, len(secs)) for x in secs[j][1]]}
            for o in s.run(stm, s1):
                outs.append(('n', o[1], None) if o[0] == 'brk' else o)
        if not hasdef:
            c = tm.and_(*[tm.ne(v, x) for x in allv])
            if c is not tm.FALSE and s.decide(st, c) is not False:
                s1 = st.copy(); s1.pc.append(c)
                outs.append(('n', s1, None))
        return s.join(outs, base, fb)

    def st_CXXTryStmt(s, n, st):
        inner = n.get('inner', [])
        saved = s.throws
        s.throws = []
        base, fb = len(st.pc), len(st.facts)
        outs = s.run(inner[0], st)
        thr = s.throws
        s.throws = saved
        res = list(outs)
        for t in thr:
            for h in inner[1:]:
                s1 = t.st.copy()
                hb = h.get('inner', [])[-1]
                decl = h.get('inner', [])[0]
                if decl.get('kind') == 'VarDecl': s.frames[-1].env[decl['id']] = s.newcell(s1, s.fresh_app('exc', 'O'))
                res += s.run(hb, s1)
                break
        return s.join(res, base, fb)

    # ------------------------------------------------------------ loops
    def st_ForStmt(s, n, st):
        init, condvar, cond, inc, body = (n.get('inner', []) + [{}] * 5)[:5]
        if init.get('kind'):
            r = s.lib.inner_iterator(s, init, st)
            if r is not None: return s.inner_loop(st, init, r, cond, inc, body)
            s.run(init, st)
        return s.loop(st, lambda x: s.cond(x, cond) if cond.get('kind') else tm.TRUE,
                      lambda x: s.run(body, x), (lambda x: s.ev(x, inc)) if inc.get('kind') else None, n)

    def st_WhileStmt(s, n, st):
        inner = n.get('inner', [])
        return s.loop(st, lambda x: s.cond(x, inner[-2]), lambda x: s.run(inner[-1], x), None, n)

    def st_DoStmt(s, n, st):
        body, cond = n.get('inner', [])
        flag = s.newcell(st, tm.TRUE)

        def c(x):
            f = s.read(x, flag)
            if f is tm.TRUE: return tm.TRUE
            e = s.cond(x, cond)
            return tm.or_(f, e)

        def b(x):
            s.write(x, flag, tm.FALSE)
            return s.run(body, x)
        return s.loop(st, c, b, None, n)

    def st_CXXForRangeStmt(s, n, st):
        inner = n.get('inner', [])
        rng = inner[1]['inner'][0]
        var = inner[-2]['inner'][0]
        body = inner[-1]
        rexpr = strip_comments(rng)[0]
        r = s.ev(st, rexpr)
        if not isinstance(r, LV): r = s.newcell(st, r)
        c0 = s.read(st, r)
        if isinstance(c0, T) or not isinstance(c0, Arr): 
            r2 = s.lib.range_of(s, st, r, c0)
            if r2 is None: raise Unsupported('range-for over %s' % type(c0).__name__)
            r = r2
        pos = s.newcell(st, tm.ZI)
        s.counters.add(('c', pos.root[1]))        # starts at 0 and only ever grows
        t = var.get('type', {}).get('qualType', '')
        isref = t.rstrip().endswith('&')

        def cond(x):
            return tm.lt(s.read(x, pos), s.seqlen(s.read(x, r)))

        def run(x):
            lv = r.ext(('i', s.seqidx(s.read(x, r), s.read(x, pos))))
            if var.get('kind') == 'DecompositionDecl':
                v = s.read(x, lv)
                if not isref: lv = s.newcell(x, v)
                if not isinstance(v, Struct): raise Unsupported('structured binding')
                for b, f in zip([c for c in strip_comments(var) if c.get('kind') == 'BindingDecl'], list(v.f)):
                    s.frames[-1].env[b['id']] = lv.ext(('f', f, v.cls))
            elif isref: s.frames[-1].env[var['id']] = lv
            else: s.frames[-1].env[var['id']] = s.newcell(x, s.coerce(x, s.read(x, lv), qt(var)))
            return s.run(body, x)

        def inc(x): s.write(x, pos, tm.add(s.read(x, pos), tm.OI))
        return s.loop(st, cond, run, inc, n)

    def seqlen(s, a):
        if a.kind in ('mat', 'smat'): return tm.mul(*a.dims)
        return a.dims[0]

    def seqidx(s, a, i):
        if a.kind in ('mat', 'smat'):
            return (tm.ZI, i) if a.dims[0] is tm.OI and a.dims[1] is not tm.OI else (i, tm.ZI)
        return (i,)

    def inner_loop(s, st, init, info, cond, inc, body):
        """for (SparseMatrix::InnerIterator it(M, k); it; ++it): visits the stored entries of one outer row/column"""
        mlv, outer, rowmajor, declid = info
        pos = s.newcell(st, tm.ZI)
        M = s.read(st, mlv) if isinstance(mlv, LV) else mlv
        n = M.dims[1] if rowmajor else M.dims[0]

        def run(x):
            p = s.read(x, pos)
            ij = (outer, p) if rowmajor else (p, outer)
            m = s.read(x, mlv) if isinstance(mlv, LV) else mlv
            g = s.lib.nz(s, m, ij)
            itv = Struct('InnerIterator', {'row': ij[0], 'col': ij[1], 'idx': p, 'outer': outer})
            cell = s.newcell(x, itv)
            s.frames[-1].env[declid] = cell
            x.meta[('inner', cell.root[1])] = mlv
            if g is tm.TRUE: return s.run(body, x)
            base, fb = len(x.pc), len(x.facts)
            s2 = x.copy()
            x.pc.append(g)
            s2.pc.append(tm.not_(g))
            return s.join(s.run(body, x) + [('n', s2, None)], base, fb)

        def incf(x): s.write(x, pos, tm.add(s.read(x, pos), tm.OI))
        return s.loop(st, lambda x: tm.lt(s.read(x, pos), n), run, incf, init)

    def ghost_method(s, st, fr, name):
        """the method <name> of the (dynamic) class of the object a function runs on"""
        if fr.fn is None or fr.this is None: return None
        o = fr.this
        if o.root[0] == 'obj': cls = s.dyn.get(o.root[1]) if not o.path else None
        else:
            v = s.read(st, o)
            cls = v.cls if isinstance(v, Struct) else None
        if cls is None or cls not in s.db.recs: return None
        for r in [s.db.recs[cls]] + s.db.all_bases(s.db.recs[cls]):
            for f in s.db.byqual.get(r.qual + '::' + name, ()):
                if f.body is not None: return f
        return None

    def by_contract(s, st, fr, after, bound):
        """a call is replaced by the callee's contract: before_f states what it needs, after_f what it guarantees; what it may
        change is found by following its body"""
        fn, o = fr.fn, fr.this
        if s.loopvars and not getattr(s, 'optimistic', 0): raise Unsupported('contract of %s in a summarised loop' % fn.qual)
        before = s.ghost_method(st, fr, 'before_' + fn.name)
        if before is not None: s.call_body(st, before, Frame(before, o), [])
        from .loops import state_diff, get_leaf, set_leaf, havoc_value
        x = st.copy()
        s.quiet += 1
        s.optimistic = getattr(s, 'optimistic', 0) + 1
        s.in_contract = getattr(s, 'in_contract', ()) + (fn.mangled,)
        saved = s.throws
        s.throws = []
        try: s.call_body(x, fn, Frame(fn, o), bound)
        finally:
            s.quiet -= 1
            s.optimistic -= 1
            s.in_contract = s.in_contract[:-1]
            if s.throws: raise Unsupported('contract of a function that throws')
            s.throws = saved
        base = st.copy()
        for key, path in state_diff(base, x):
            a, b = get_leaf(base, key, path), get_leaf(x, key, path)
            ch = {i for i, (p, q) in enumerate(zip(a.dims, b.dims)) if p != q} if isinstance(a, Arr) and a.kind != 'map' else set()
            set_leaf(st, key, path, havoc_value(s, a, s.freshname('after_' + fn.name), ch))
        for m in x.maps:
            if m not in st.maps: raise Unsupported('contract of a function that changes other objects')
        r = VOID if fn.rettype.strip() == 'void' else s.symval(fn.rettype, s.freshname('result_' + fn.name))
        s.call_body(st, after, Frame(after, o), [r] if after.params else [])
        s.notes.add('%s: called by its contract' % fn.qual)
        return r

    def loop_contract(s, st, fr):
        """the invariants stated for the loops of a function: method loop_<function> of the class of the object it runs on"""
        f, o = s.ghost_method(st, fr, 'loop_' + fr.fn.name) if fr.fn is not None else None, fr.this
        names = None
        if f is not None and f.params:
            names = {}
            for i, nm in local_names(fr.fn):
                if isinstance(fr.env.get(i), LV): names[nm] = fr.env[i]
            if any(p['name'] not in names for p in f.params): return None
        if f is None and fr.fn is not None and fr.fn.cls is None:
            # a free function: loop_<function> of the contract file, its parameters are the variables of these names
            for q, fs in s.db.byqual.items():
                if q.endswith('_lemmas::loop_' + fr.fn.name) and fs[0].body is not None: f = fs[0]
            if f is not None:
                names = {}
                for i, nm in local_names(fr.fn):
                    if isinstance(fr.env.get(i), LV): names[nm] = fr.env[i]
                if any(p['name'] not in names for p in f.params): return None
        if f is None: return None

        def prov(ex, st2):
            st2 = st2.copy()
            old, ex.sink = getattr(ex, 'sink', None), []
            ex.quiet += 1
            try:
                ex.call_body(st2, f, Frame(f, o), [] if names is None else [ex.bind(st2, qt(p), names[p['name']]) for p in f.params])
                return ex.sink
            finally:
                ex.sink = old
                ex.quiet -= 1
        return prov

    def loop(s, st, cond, body, inc, node):
        prov = s.loop_contract(st, s.frames[-1])
        if prov is not None:
            from .loops import houdini
            return houdini(s, st, cond, body, inc, node, prov, None)
        # 1. concrete unrolling
        outs = []
        cur = st
        unrolled = 0
        line = s.curline
        while True:
            c = cond(cur)
            d = True if c is tm.TRUE else False if c is tm.FALSE else None
            if d is None and unrolled < 10 and c.op in ('le0', 'lt0', 'eq0', 'not', 'or', 'and') and not c.fv and not _has_app(c): d = s.decide(cur, c)
            if d is None:
                if unrolled == 0: break
                return outs + s.loop_sym(cur, cond, body, inc, node)
            if d is False: return outs + [('n', cur, None)]
            if unrolled >= 40: return outs + s.loop_sym(cur, cond, body, inc, node)
            unrolled += 1
            base, fb = len(cur.pc), len(cur.facts)
            r = body(cur)
            nx = [(('n',) + o[1:]) if o[0] == 'cont' else o for o in r]
            nx = s.join(nx, base, fb)
            cur = None
            for o in nx:
                if o[0] == 'n': cur = o[1]
                elif o[0] == 'brk': outs.append(('brkout', o[1], None))
                else: outs.append(o)
            if cur is None: break
            if inc: inc(cur)
            s.curline = line
        if cur is None or unrolled:
            return s._fix_brk(outs, cur, st)
        return s.loop_sym(st, cond, body, inc, node)

    def _fix_brk(s, outs, cur, st):
        return [('n', o[1], None) if o[0] == 'brkout' else o for o in outs] + ([('n', cur, None)] if cur is not None else [])

    def loop_sym(s, st, cond, body, inc, node):
        from .loops import summarise
        r = summarise(s, st, cond, body, inc, node)
        return r

    # ------------------------------------------------------------ expressions
    def rv(s, st, n):
        r = s.ev(st, n)
        return s.read(st, r) if isinstance(r, LV) else r

    def cond(s, st, n):
        v = s.rv(st, n)
        return s.tobool(st, v)

    def tobool(s, st, v):
        if isinstance(v, T):
            if v.sort == 'B': return v
            if v.sort in 'IR': return tm.ne(v, tm.num(0, v.sort))
            if v.sort == 'O': return tm.not_(obj_eq(v, smt.NULLPTR))
        if isinstance(v, IteV): return tm.ite(v.c, s.tobool(st, v.a), s.tobool(st, v.b))
        if isinstance(v, (Ptr, Lam)): return tm.TRUE
        raise Unsupported('condition of kind %s' % type(v).__name__)

    def ev(s, st, n):
        k = n.get('kind')
        m = getattr(s, 'ex_' + k, None)
        if m is None: raise Unsupported('expression %s' % k)
        return m(st, n)

    def _sub(s, st, n): return s.ev(st, n['inner'][0])

    ex_ParenExpr = ex_ExprWithCleanups = ex_CXXBindTemporaryExpr = ex_ConstantExpr = _sub
    ex_SubstNonTypeTemplateParmExpr = lambda s, st, n: s.ev(st, n['inner'][-1])

    def ex_MaterializeTemporaryExpr(s, st, n):
        r = s.ev(st, n['inner'][0])
        if isinstance(r, LV): return r
        return r if isinstance(r, tuple) else s.newcell(st, r)

    def ex_FullExpr(s, st, n): return s._sub(st, n)

    def ex_IntegerLiteral(s, st, n): return tm.num(int(n['value']))
    def ex_FloatingLiteral(s, st, n):
        return tm.num(Fraction(repr(float(n['value']))) if 'e' in n['value'] or 'E' in n['value'] or '.' in n['value'] else Fraction(n['value']), 'R')
    def ex_CXXBoolLiteralExpr(s, st, n): return tm.TRUE if n['value'] else tm.FALSE
    def ex_StringLiteral(s, st, n):
        try:
            import json
            return tm.string(json.loads(n['value']))
        except Exception: return tm.string(n['value'])
    def ex_CharacterLiteral(s, st, n): return tm.num(int(n['value']))
    def ex_CXXNullPtrLiteralExpr(s, st, n): return smt.NULLPTR
    def ex_GNUNullExpr(s, st, n): return smt.NULLPTR
    def ex_SourceLocExpr(s, st, n): return tm.string('loc')
    def ex_PredefinedExpr(s, st, n): return tm.string('func')
    def ex_CXXThisExpr(s, st, n): return s.addr(s.frames[-1].this)
    def ex_ImplicitValueInitExpr(s, st, n): return s.default(st, qt(n))
    def ex_CXXScalarValueInitExpr(s, st, n): return s.default(st, qt(n))
    def ex_UnaryExprOrTypeTraitExpr(s, st, n):
        if n.get('name') == 'sizeof':
            t = n.get('argType', {})
            t = t.get('desugaredQualType') or t.get('qualType')
            if t is None and n.get('inner'): t = n['inner'][0].get('type', {}).get('desugaredQualType') or n['inner'][0].get('type', {}).get('qualType')
            z = SIZES.get(clean(t)) if t else None
            if z: return tm.num(z)
        return s.fresh_app('sizeof', 'I')
    def ex_CXXTypeidExpr(s, st, n): return s.fresh_app('typeid', 'O')
    def ex_TypeTraitExpr(s, st, n):
        return tm.TRUE if n.get('value') else tm.FALSE

    def addr(s, lv):
        if isinstance(lv, LV):
            if lv.root[0] == 'obj' and not lv.path: return lv.root[1]
            return Ptr(lv)
        return lv

    def deref(s, st, p):
        if isinstance(p, T) and p.sort == 'O':
            if p.op == 'app' and p.data == 'nullptr': raise Unsupported('null dereference')
            return LV(('obj', p))
        if isinstance(p, Ptr): return p.lv
        if isinstance(p, It):
            c = s.read(st, p.lv)
            i = p.pos
            return p.lv.ext(('i', s.seqidx(c, i)))
        if isinstance(p, Lam): return p
        raise Unsupported('dereference of %s' % type(p).__name__)

    def ex_DeclRefExpr(s, st, n):
        rd = n['referencedDecl']
        k = rd['kind']
        if k == 'EnumConstantDecl':
            fr = s.frames[-1]
            v = s.db.enums.get((fr.tu, rd['id']))
            if v is not None: return tm.num(v)
            return s.lib.ext_enum(s, rd)
        fr = s.frames[-1]
        if rd['id'] in fr.env: return fr.env[rd['id']]
        for f in reversed(s.frames):
            if rd['id'] in f.env and f.tu == fr.tu: return f.env[rd['id']]
        if k in ('FunctionDecl', 'CXXMethodDecl'): return ('fn', rd)
        if k == 'VarDecl': return s.globalvar(st, rd)
        raise Unsupported('reference to %s %s' % (k, rd.get('name')))

    def globalvar(s, st, rd):
        fr = s.frames[-1]
        d = s.db.ids.get((fr.tu, rd['id']))
        nm = rd.get('name')
        h = s.lib.GLOBALS.get(nm)
        if h is not None: return h(s, st) if callable(h) else h
        if d is not None and strip_comments(d):
            key = ('g', fr.tu, rd['id'])
            if key in s.statics and s.statics[key].root[1] in st.cells: return s.statics[key]
            f2 = Frame(None, None)
            f2.tu = fr.tu
            s.frames.append(f2)
            try: v = s.coerce(st, s.rv(st, strip_comments(d)[0]), qt(d))
            finally: s.frames.pop()
            s.statics[key] = s.newcell(st, v)
            return s.statics[key]
        for q, (vd, tu) in s.db.vars.items():
            if q.split('::')[-1] == nm and strip_comments(vd):
                f2 = Frame(None, None)
                f2.tu = tu
                s.frames.append(f2)
                try: v = s.coerce(st, s.rv(st, strip_comments(vd)[0]), qt(vd))
                finally: s.frames.pop()
                return s.newcell(st, v)
        raise Unsupported('global %s' % nm)

    def ex_MemberExpr(s, st, n):
        b = s.ev(st, n['inner'][0])
        mid = n.get('referencedMemberDecl')
        name = n.get('name')
        if n.get('isArrow'):
            p = s.read(st, b) if isinstance(b, LV) else b
            if isinstance(p, IteV): b = ('itelv', p)
            else: b = s.deref(st, p)
        owner = s.owner(mid)
        if owner is None:
            # field of a library record (pair.first, ...)
            if isinstance(b, LV): return b.ext(('f', name, None))
            if isinstance(b, Struct): return b.get(name)
            raise Unsupported('member %s' % name)
        if isinstance(b, tuple) and b[0] == 'itelv':
            p = b[1]
            rd = lambda q: s.read(st, s.deref(st, q).ext(('f', name, owner)))
            return vite(p.c, rd(p.a), rd(p.b))
        if isinstance(b, LV): return b.ext(('f', name, owner))
        if isinstance(b, Struct): return b.get(name)
        raise Unsupported('member %s of %s' % (name, type(b).__name__))

    def owner(s, mid):
        for i in range(len(s.frames) - 1, -1, -1):
            fr = s.frames[i]
            q = s.db.par.get((fr.tu, mid))
            if q: return q
            break
        return None

    def _cast(s, st, n):
        ck = n.get('castKind')
        sub_ = n['inner'][0]
        if ck == 'LValueToRValue':
            r = s.ev(st, sub_)
            v = s.read(st, r) if isinstance(r, LV) else r
            return v
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion',
                  'ArrayToPointerDecay', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BaseToDerived', 'LValueBitCast', 'BitCast'):
            r = s.ev(st, sub_)
            if ck == 'ArrayToPointerDecay' and isinstance(r, LV):
                v = s.read(st, r)
                if isinstance(v, Arr): return It(r, tm.ZI)
                return v
            return r
        if ck == 'ToVoid':
            s.ev(st, sub_)
            return VOID
        if ck == 'IntegralCast':
            v = s.rv(st, sub_)
            return s.intcast(st, v, qt(sub_), qt(n))
        if ck == 'IntegralToFloating':
            v = s.rv(st, sub_)
            if v.sort == 'B': v = tm.ite(v, tm.OI, tm.ZI)
            return tm.to_real(v)
        if ck == 'FloatingCast': return s.rv(st, sub_)
        if ck == 'FloatingToIntegral':
            v = s.rv(st, sub_)
            if v.op == 'app' and v.data == 'toreal': return v.args[0]
            if v.op == 'num': return tm.num(int(v.data))
            p = tm.poly(v)
            return s.lib.trunc(s, v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return s.tobool(st, s.rv(st, sub_))
        if ck == 'NullToPointer': return smt.NULLPTR
        if ck == 'BooleanToSignedIntegral': return tm.ite(s.rv(st, sub_), tm.OI, tm.ZI)
        if ck == 'Dynamic':
            return s.lib.dyncast(s, st, s.rv(st, sub_), qt(n))
        if ck is None: return s.ev(st, sub_)
        raise Unsupported('cast %s' % ck)

    ex_ImplicitCastExpr = ex_CStyleCastExpr = ex_CXXStaticCastExpr = ex_CXXFunctionalCastExpr = _cast
    ex_CXXConstCastExpr = ex_CXXReinterpretCastExpr = ex_CXXDynamicCastExpr = _cast

    def isuns(s, t):
        t = clean(t)
        return t in UNSIGNED or t.startswith('unsigned') or t.endswith('size_type')

    def intcast(s, st, v, f, t):
        if not isinstance(v, T): return v
        if v.sort == 'B': v = tm.ite(v, tm.OI, tm.ZI)
        if clean(t) == 'bool': return tm.ne(v, tm.ZI)
        if s.isuns(t) and not s.isuns(f):
            return s.wrap(st, v)
        return v

    def wrap(s, st, v):
        """value of a possibly negative integer as an unsigned 64-bit one"""
        if v.op == 'num':
            return v if v.data >= 0 else tm.add(v, tm.num(2 ** 64))
        if tm.nonneg(v): return v
        c = tm.le(tm.ZI, v)
        d = s.decide(st, c)
        if d is True: return v
        return tm.ite(c, v, tm.add(v, tm.num(2 ** 64)))

    def ex_UnaryOperator(s, st, n):
        op = n['opcode']
        e = n['inner'][0]
        if op == '&':
            r = s.ev(st, e)
            if isinstance(r, tuple) and r[0] == 'fn': return r
            if not isinstance(r, LV): r = s.newcell(st, r)
            # address of a sequence element is an iterator
            if r.path and r.path[-1][0] == 'i' and len(r.path[-1][1]) == 1: return It(LV(r.root, r.path[:-1]), r.path[-1][1][0])
            return s.addr(r)
        if op == '*':
            return s.deref(st, s.rv(st, e))
        if op in ('++', '--'):
            lv = s.ev(st, e)
            old = s.read(st, lv)
            d = 1 if op == '++' else -1
            new = s.shift(st, old, tm.num(d))
            if isinstance(new, T) and new.sort == 'I' and s.isuns(qt(e)) and d < 0: new = s.wrap(st, new)
            s.write(st, lv, new)
            if n.get('isPostfix'): return old
            return lv
        v = s.rv(st, e)
        if op == '-':
            if isinstance(v, T):
                r = tm.neg(v)
                return s.wrap(st, r) if v.sort == 'I' and s.isuns(qt(n)) else r
            return s.lib.matop(s, st, '-', None, v)
        if op == '+': return v
        if op == '!': return tm.not_(s.tobool(st, v))
        raise Unsupported('unary %s' % op)

    def shift(s, st, v, d):
        if isinstance(v, T): return tm.add(v, d)
        if isinstance(v, It): return It(v.lv, tm.add(v.pos, d if not v.rev else tm.neg(d)), v.rev)
        if isinstance(v, IteV): return vite(v.c, s.shift(st, v.a, d), s.shift(st, v.b, d))
        raise Unsupported('++ on %s' % type(v).__name__)

    def ex_BinaryOperator(s, st, n):
        op = n['opcode']
        a, b = n['inner']
        if op in ('&&', '||'):
            x = s.cond(st, a)
            if op == '&&' and x is tm.FALSE: return x
            if op == '||' and x is tm.TRUE: return x
            g = x if op == '&&' else tm.not_(x)
            y = s.under(st, g, lambda q: s.cond(q, b))
            return tm.and_(x, y) if op == '&&' else tm.or_(x, y)
        if op == '=':
            v = s.rv(st, b)
            lv = s.ev(st, a)
            s.write(st, lv, s.coerce(st, v, qt(a)))
            return lv
        if op == ',':
            s.ev(st, a)
            return s.ev(st, b)
        x = s.rv(st, a)
        y = s.rv(st, b)
        return s.binop(st, op, x, y, qt(n), qt(a))

    def under(s, st, g, f):
        """evaluate f with g assumed, state changes guarded by g"""
        if g is tm.TRUE: return f(st)
        base, fb = len(st.pc), len(st.facts)
        s1 = st.copy()
        s1.pc.append(g)
        y = f(s1)
        changed = any(k in st.cells and s1.cells[k] is not st.cells[k] for k in s1.cells) or \
            any(k in st.maps and s1.maps[k] is not st.maps[k] for k in s1.maps)
        if changed:
            s2 = st.copy()
            s2.pc.append(tm.not_(g))
            m = s.merge([s1, s2], base, fb)
            st.cells, st.maps, st.facts = m.cells, m.maps, m.facts
        else:
            for k, v in s1.cells.items():
                if k not in st.cells: st.cells[k] = v
            for k, v in s1.maps.items():
                if k not in st.maps: st.maps[k] = v
            for x in s1.facts[fb:]: st.assume(tm.implies(g, x))
        return y

    def binop(s, st, op, x, y, rt, at):
        if isinstance(x, IteV): return vite(x.c, s.binop(st, op, x.a, y, rt, at), s.binop(st, op, x.b, y, rt, at))
        if isinstance(y, IteV): return vite(y.c, s.binop(st, op, x, y.a, rt, at), s.binop(st, op, x, y.b, rt, at))
        if isinstance(x, It) or isinstance(y, It):
            if op in ('==', '!='):
                if isinstance(x, It) and isinstance(y, It): c = tm.eq(x.pos, y.pos)
                else: c = tm.FALSE
                return c if op == '==' else tm.not_(c)
            if op in ('<', '<=', '>', '>='):
                return {'<': tm.lt, '<=': tm.le, '>': tm.gt, '>=': tm.ge}[op](x.pos, y.pos)
            if op == '-' and isinstance(y, It):
                return tm.sub(x.pos, y.pos) if not x.rev else tm.sub(y.pos, x.pos)
            if op == '+' and isinstance(y, It): x, y = y, x
            return s.shift(st, x, y if op == '+' else tm.neg(y))
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr): c = tm.TRUE if x.lv.same(y.lv) else tm.FALSE
            else: c = tm.FALSE
            return c if op == '==' else tm.not_(c)
        if not isinstance(x, T) or not isinstance(y, T): return s.lib.matop(s, st, op, x, y)
        if {x.sort, y.sort} == {'O', 'S'} and op in ('==', '!='):      # a C string compared with the null pointer
            c = tm.eq(x if x.sort == 'S' else y, NULLSTR)
            return c if op == '==' else tm.not_(c)
        if x.sort == 'O' or y.sort == 'O':
            c = obj_eq(x, y)
            if op == '==': return c
            if op == '!=': return tm.not_(c)
            if op == '<': return tm.app('ptrless', 'B', x, y)
            raise Unsupported('pointer %s' % op)
        if x.sort == 'S' or y.sort == 'S':
            if op == '==': return tm.eq(x, y)
            if op == '!=': return tm.ne(x, y)
            if op == '+': return tm.app('strcat', 'S', x, y)
            if op in ('<', '<=', '>', '>='):        # any total order of the strings
                a, b = tm.app('strrank', 'R', x), tm.app('strrank', 'R', y)
                st.assume(tm.or_(tm.eq(x, y), tm.ne(a, b)))
                return {'<': tm.lt, '<=': tm.le, '>': tm.gt, '>=': tm.ge}[op](a, b)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return {'<': tm.lt, '<=': tm.le, '>': tm.gt, '>=': tm.ge, '==': tm.eq, '!=': tm.ne}[op](x, y)
        if x.sort == 'B': x = tm.ite(x, tm.OI, tm.ZI)
        if y.sort == 'B': y = tm.ite(y, tm.OI, tm.ZI)
        if op == '+': return tm.add(x, y)
        if op == '*': return tm.mul(x, y)
        if op == '-':
            r = tm.sub(x, y)
            if r.sort == 'I' and s.isuns(rt): return s.wrap(st, r)
            return r
        if op == '/':
            if x.sort == 'R' or y.sort == 'R': return tm.div(x, y)
            return s.intdiv(st, x, y)
        if op == '%': return tm.imod(x, y)
        if op in ('&', '|', '^', '<<', '>>'):
            if x.op == 'num' and y.op == 'num':
                a, b = int(x.data), int(y.data)
                return tm.num({'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if b < 64 else 0, '>>': a >> b}[op])
            bx, by = _flag(x), _flag(y)
            if op in '&|^' and bx is not None and by is not None:
                return tm.ite({'&': tm.and_(bx, by), '|': tm.or_(bx, by), '^': tm.or_(tm.and_(bx, tm.not_(by)), tm.and_(tm.not_(bx), by))}[op], tm.OI, tm.ZI)
            return tm.app('bit' + op, 'I', x, y)
        raise Unsupported('binary %s' % op)

    def intdiv(s, st, x, y):
        return tm.idiv(x, y)

    def ex_CompoundAssignOperator(s, st, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        y = s.rv(st, b)
        lv = s.ev(st, a)
        x = s.read(st, lv)
        ct = n.get('computeResultType', {}).get('qualType', qt(n))
        if isinstance(x, T) and x.sort == 'B': x = tm.ite(x, tm.OI, tm.ZI)
        if isinstance(x, T) and isinstance(y, T) and x.sort == 'I' and y.sort == 'R':
            v = s.lib.trunc(s, s.binop(st, op, tm.to_real(x), y, 'double', 'double'))
        elif isinstance(x, T) and x.sort == 'R' and op in '+-' and lv.path and lv.path[-1][0] == 'i':
            d = tm.to_real(y) if op == '+' else tm.neg(tm.to_real(y))
            s.addto(st, lv, d)
            return lv
        else: v = s.binop(st, op, x, y, ct, qt(a))
        s.write(st, lv, s.coerce(st, v, qt(a)))
        return lv

    def addto(s, st, lv, d):
        """x[i] += d"""
        pre = LV(lv.root, lv.path[:-1])
        arr = s.read(st, pre)
        idx = lv.path[-1][1]
        if isinstance(arr, Arr) and not (pre.path and pre.path[-1][0] == 'v'):
            s.write(st, pre, arr.with_log(('add', tm.TRUE, idx, d)))
        elif isinstance(arr, Arr) and pre.path[-1][1].index(idx) is not None:
            s.addto(st, LV(pre.root, pre.path[:-1] + (('i', pre.path[-1][1].index(idx)),)), d)
        else:
            s.write(st, lv, tm.add(s.read(st, lv), d))

    def ex_ConditionalOperator(s, st, n):
        c, a, b = n['inner']
        if _is_assert(n):
            g = s.cond(st, c)
            s.oblige(st, 'assert', g, 'assert in the code')
            st.assume(g)
            return VOID
        x = s.cond(st, c)
        d = s.decide(st, x)
        if d is True: return s.ev(st, a)
        if d is False: return s.ev(st, b)
        base, fb = len(st.pc), len(st.facts)
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(x)
        s2.pc.append(tm.not_(x))
        r1 = s.ev(s1, a)
        r2 = s.ev(s2, b)
        if isinstance(r1, LV) and isinstance(r2, LV) and r1.same(r2): v = r1
        else:
            v1 = s.read(s1, r1) if isinstance(r1, LV) else r1
            v2 = s.read(s2, r2) if isinstance(r2, LV) else r2
            if s1.dead: v = v2
            elif s2.dead: v = v1
            else: v = vite(x, v1, v2)
        live = [q for q in (s1, s2) if not q.dead]
        m = s.merge(live, base, fb)
        st.cells, st.maps, st.facts, st.pc = m.cells, m.maps, m.facts, m.pc
        return v

    def ex_ArraySubscriptExpr(s, st, n):
        a, i = n['inner']
        p = s.rv(st, a)
        k = s.rv(st, i)
        if isinstance(p, It):
            c = s.read(st, p.lv)
            q = tm.add(p.pos, k)
            s.bounds(st, c, (q,))
            return p.lv.ext(('i', s.seqidx(c, q)))
        if isinstance(p, Arr): return p.get(k)
        raise Unsupported('subscript of %s' % type(p).__name__)

    def bounds(s, st, c, idx):
        if s.quiet or not s.safety: return
        if c.kind == 'vec': s.oblige(st, 'index', tm.and_(tm.le(tm.ZI, idx[0]), tm.lt(idx[0], c.dims[0])), 'index within the sequence')
        elif c.kind in ('mat', 'smat'):
            g = [tm.and_(tm.le(tm.ZI, i), tm.lt(i, d)) for i, d in zip(idx, c.dims)]
            s.oblige(st, 'index', tm.and_(*g), 'index within the matrix')

    def ex_InitListExpr(s, st, n):
        t = qt(n)
        k = s.tkind(t)
        inner = n.get('inner', [])
        if not inner and k[0] not in ('vec', 'arr'): return s.default(st, t)
        if k[0] in ('vec', 'arr'):
            a = s.emptyvec(k[1])
            if k[0] == 'arr' and 'array_filler' in n:
                inner = [c for c in n['array_filler'] if c.get('kind') != 'ImplicitValueInitExpr']
            if k[0] == 'arr' and len(inner) == 1 and inner[0].get('kind') == 'InitListExpr' and s.tkind(k[1])[0] not in ('arr', 'rec'):
                return s.ev(st, inner[0])
            for c in inner: a = a.with_log(('push', tm.TRUE, s.coerce(st, s.rv(st, c), k[1])))
            if k[0] == 'arr' and len(inner) < k[2]:
                v = s.default(st, k[1])
                for _ in range(k[2] - len(inner)): a = a.with_log(('push', tm.TRUE, v))
            return a
        if k[0] == 'rec':
            r = s.db.recs[k[1]]
            f = {}
            for (fn, ft, _), c in zip(r.fields, inner): f[fn] = s.coerce(st, s.rv(st, c), ft)
            d = s.default_rec(st, k[1]) if len(f) < len(r.fields) else None
            if d is not None:
                for q in d.f: f.setdefault(q, d.f[q])
            return Struct(r.qual, f)
        if len(inner) == 1: return s.ev(st, inner[0])
        raise Unsupported('initialiser list of %s' % t)

    def ex_CXXStdInitializerListExpr(s, st, n):
        e = n['inner'][0]
        r = s.rv(st, e)
        return r

    def ex_CXXDefaultArgExpr(s, st, n): raise Unsupported('default argument')
    def ex_CXXDefaultInitExpr(s, st, n):
        inner = n.get('inner', [])
        if inner: return s.ev(st, inner[0])
        raise Unsupported('default initialiser')

    def ex_LambdaExpr(s, st, n):
        rec = n['inner'][0]
        call = None
        fields = []
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': call = c
            elif c.get('kind') == 'FunctionTemplateDecl':
                for d in c.get('inner', []):
                    if d.get('kind') == 'CXXMethodDecl' and any(x.get('kind') == 'CompoundStmt' for x in d.get('inner', [])): call = d
            elif c.get('kind') == 'FieldDecl': fields.append(c)
        if call is None: raise Unsupported('lambda without body')
        from .cast import Fn
        fr = s.frames[-1]
        fn = Fn(call, fr.tu, (fr.fn.qual if fr.fn else '') + '::lambda', None)
        fn.file = fr.fn.file if fr.fn else None
        caps = {}
        env = dict(fr.env)
        # captured entities are those referenced in the body; by-copy captures are frozen now
        inits = [c for c in n.get('inner', [])[1:] if c.get('kind') != 'CompoundStmt']
        byval = {}
        for c in inits:
            d = _find_ref(c)
            if d is None: continue
            if c.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr') and d in env:
                v = s.read(st, env[d])
                byval[d] = v
        for d, v in env.items():
            if d in byval: caps[d] = ('val', byval[d])
            else: caps[d] = ('ref', v)
        return Lam(fn, caps, fr.this)

    def call_lambda(s, st, lam, args):
        fr = Frame(lam.fn, lam.this)
        for d, (k, v) in lam.caps.items():
            fr.env[d] = v if k == 'ref' else s.newcell(st, v)
        return s.call_body(st, lam.fn, fr, args)

    def ex_CXXThrowExpr(s, st, n):
        what = _find_class(n)
        s.do_throw(st, what)
        return VOID

    def do_throw(s, st, what):
        s.throws.append(Throw(tm.and_(*st.pc), what, st.copy()))
        st.dead = True

    def ex_CXXNewExpr(s, st, n):
        t = qt(n)
        cls = clean(t).rstrip('*').strip()
        inner = [c for c in n.get('inner', []) if c.get('kind')]
        if n.get('isArray'): raise Unsupported('new[]')
        ctor = next((c for c in inner if c.get('kind') in ('CXXConstructExpr', 'ExprWithCleanups', 'InitListExpr')), None)
        if ctor is None: raise Unsupported('new without constructor')
        return s.heap_construct(st, cls, lambda lv: s.construct(st, ctor, lv))

    def heap_construct(s, st, cls, ctor):
        k = s.tkind(cls)
        if k[0] != 'rec':
            return s.lib.heap_external(s, st, cls)
        o = s.alloc(st, k[1])
        lv = LV(('obj', o))
        ctor(lv)
        return o

    def ex_CXXDeleteExpr(s, st, n):
        s.ev(st, n['inner'][0])
        return VOID

    # ------------------------------------------------------------ construction
    def ex_CXXConstructExpr(s, st, n): return s.construct(st, n, None)
    ex_CXXTemporaryObjectExpr = ex_CXXConstructExpr

    def construct(s, st, n, target):
        """value of a constructor expression; when target (an object l-value) is given, construct in place"""
        while n.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr') or \
                (n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') == 'ConstructorConversion'):
            n = n['inner'][0]
        if n.get('kind') not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            v = s.rv(st, n)
            if target is not None:
                s.write(st, target, v)
                return None
            return v
        t = qt(n)
        k = s.tkind(t)
        args = [a for a in n.get('inner', [])]
        if k[0] == 'rec':
            return s.construct_rec(st, k[1], n, args, target)
        vals = [s.ev(st, a) for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        r = s.lib.construct(s, st, t, k, vals, n)
        if len(vals) == 1 and _is_move(n, args[0]): s.vacate(st, vals[0], t)
        return r

    def vacate(s, st, lv, t):
        """state of an object after its value has been moved out"""
        if not isinstance(lv, LV): return
        s.write(st, lv, s.moved(st, s.read(st, lv), t))

    def moved(s, st, v, t):
        k = s.tkind(t) if isinstance(t, str) else t
        if k[0] == 'vec' and isinstance(v, Arr): return s.emptyvec(v.ety)
        if k[0] == 'ptr' and isinstance(t, str): return v if clean(t).rstrip().endswith('*') else smt.NULLPTR
        if k[0] in ('mat', 'smat', 'S', 'umap', 'uset'): return s.symval(t, s.freshname('moved'), s.loopvars)
        if k[0] == 'rec' and isinstance(v, Struct):
            f = dict(v.f)
            r = s.db.recs[k[1]]
            for rr in [r] + s.db.all_bases(r):
                for fn, ft, _ in rr.fields:
                    if fn in f and f[fn] is not None: f[fn] = s.moved(st, f[fn], ft)
            return Struct(v.cls, f)
        return v

    def ctor_fn(s, qual, n, nargs):
        """definition of the constructor a CXXConstructExpr calls, chosen by its type"""
        ct = n.get('ctorType', {}).get('qualType') if n is not None else None
        short = qual.split('<')[0].split('::')[-1]
        cands = s.db.byqual.get(qual + '::' + short, [])
        decls = s.db.recs[qual].methods.get(short, [])
        return cands, decls, ct

    def pick_ctor(s, cands, ct, qual, nargs):
        fn = None
        for f in cands:
            if f.type == ct: fn = f
        if fn is None and ct:
            same_n = [f for f in cands if len(f.params) == nargs and not _is_copy(f.type, qual)]
            norm = lambda x: re.sub(r'[a-zA-Z_]\w*::', '', x).replace(' noexcept', '')
            for f in same_n:
                if norm(f.type) == norm(ct): fn = f
            if fn is None and len(same_n) == 1: fn = same_n[0]
        return fn

    def construct_rec(s, st, qual, n, args, target):
        cands, decls, ct = s.ctor_fn(qual, n, len(args))
        # copy / move construction
        if len(args) == 1 and ct and _is_copy(ct, qual):
            v = s.rv(st, args[0])
            if isinstance(v, tuple) and v[0] == 'objref': v = s.obj_struct(st, v[1], qual)
            if _is_move(n, args[0]): s.vacate(st, s.ev(st, args[0]), qual)
            if target is not None:
                s.write(st, target, v)
                return None
            return v
        fn = s.pick_ctor(cands, ct, qual, len(args))
        if fn is None and not args: # implicit default constructor
            pass
        elif fn is None and args:
            tmp = target if target is not None else s.newcell(st, None)
            if target is None: st.cells[tmp.root[1]] = s.blank(st, qual)
            s.inherited_ctor(st, s.db.recs[qual], n, args, tmp)
            return s.read(st, tmp) if target is None else None
        c = s.contracts.get(qual + '::' + qual.split('::')[-1])
        params = fn.params if fn else []
        bound = s.bind_args(st, fn, params, args) if fn else []
        if c is not None:
            r = c(s, st, target, bound, fn)
            if r is not NotImplemented:
                s.used_contracts[qual + '::ctor'] = 1
                return r
        if target is None:
            tmp = s.newcell(st, None)
            lv = tmp
            st.cells[tmp.root[1]] = s.blank(st, qual)
        else: lv = target
        s.run_ctor(st, qual, fn, bound, lv)
        if target is None: return s.read(st, lv)
        return None

    def blank(s, st, qual):
        r = s.db.recs[qual]
        f = {}
        for rr in [r] + s.db.all_bases(r):
            for fn, ft, init in rr.fields:
                if fn not in f: f[fn] = None
        return Struct(qual, f)

    def run_ctor(s, st, qual, fn, bound, lv):
        r = s.db.recs[qual]
        inits = {}
        baseinits = []
        if fn is not None and fn.body is not None:
            s.used_fns[fn.mangled] = fn
        fr = Frame(fn, lv)
        fr.tu = fn.tu if fn else r.tu
        if fn:
            for p, a in zip(fn.params, bound): fr.env[p['id']] = a
            for i in fn.inits:
                if 'anyInit' in i: inits[i['anyInit']['name']] = i['inner'][0]
                elif 'baseInit' in i: baseinits.append((i['baseInit']['qualType'], i['inner'][0]))
                elif 'delegatingInit' in i:
                    s.frames.append(fr)
                    try: s.construct(st, i['inner'][0], lv)
                    finally: s.frames.pop()
                    s._ctor_body(st, fn, fr)
                    return
        # bases first
        done = set()
        s.frames.append(fr)
        try:
            for bt, e in baseinits:
                br = s.db.rec(bt)
                if br is None: continue
                done.add(br.qual)
                if e.get('kind') in ('CXXConstructExpr', 'ExprWithCleanups'):
                    while e.get('kind') == 'ExprWithCleanups': e = e['inner'][0]
                    args = e.get('inner', [])
                    cands, decls, ct = s.ctor_fn(br.qual, e, len(args))
                    f2 = s.pick_ctor(cands, ct, br.qual, len(args)) or next((f for f in cands if len(f.params) == len(args) and args), None)
                    if f2 is None and args:
                        s.inherited_ctor(st, br, e, args, lv)
                        continue
                    b2 = s.bind_args(st, f2, f2.params, args) if f2 else []
                    s.run_ctor(st, br.qual, f2, b2, lv)
            for b in r.bases:
                br = s.db.rec(b)
                if br and br.qual not in done: s.run_ctor(st, br.qual, None, [], lv)
            for fname, ft, init in r.fields:
                flv = lv.ext(('f', fname, qual))
                if fname in inits:
                    e = inits[fname]
                    if e.get('kind') == 'CXXDefaultInitExpr': v = s.eval_init(st, init, ft, r) if init is not None else s.default(st, ft, True)
                    else: v = s.rv(st, e) if not ft.rstrip().endswith('&') else s.ev(st, e)
                    if isinstance(v, LV): v = Ptr(v)
                    v = s.coerce(st, v, ft)
                elif init is not None: v = s.eval_init(st, init, ft, r)
                else: v = s.default(st, ft, uninit=True)
                s.write(st, flv, v)
        finally:
            s.frames.pop()
        if fn is not None: s._ctor_body(st, fn, fr)

    def inherited_ctor(s, st, r, e, args, lv):
        """constructor taken over from a base by a using-declaration"""
        for b in r.bases:
            br = s.db.rec(b)
            if br is None: continue
            cands, decls, ct = s.ctor_fn(br.qual, e, len(args))
            f2 = next((f for f in cands if f.type == ct.replace(' noexcept(false)', '')), None) if ct else None
            if f2 is None: continue
            b2 = s.bind_args(st, f2, f2.params, args)
            s.run_ctor(st, br.qual, f2, b2, lv)
            for o in r.bases:
                orr = s.db.rec(o)
                if orr is not None and orr is not br: s.run_ctor(st, orr.qual, None, [], lv)
            for fname, ft, init in r.fields:
                s.write(st, lv.ext(('f', fname, r.qual)), s.eval_init(st, init, ft, r) if init is not None else s.default(st, ft, uninit=True))
            return
        raise Unsupported('constructor of %s %s' % (r.qual, e.get('ctorType', {}).get('qualType')))

    def _ctor_body(s, st, fn, fr):
        if fn.body is None: return
        s.frames.append(fr)
        try:
            base, fb = len(st.pc), len(st.facts)
            outs = s.run(fn.body, st)
        finally:
            s.frames.pop()
        live = [o[1] for o in outs if not o[1].dead]
        if not live:
            st.dead = True
            return
        m = s.merge(live, base, fb)
        if m is not st:
            st.cells, st.maps, st.facts, st.pc = m.cells, m.maps, m.facts, m.pc

    def obj_struct(s, st, o, qual):
        r = s.db.recs[qual]
        f = {}
        for rr in [r] + s.db.all_bases(r):
            for fn, ft, _ in rr.fields:
                if fn not in f: f[fn] = s.objfield(st, o, ('f', fn, rr.qual))
        return Struct(qual, f)

    # ------------------------------------------------------------ calls
    def bind_args(s, st, fn, params, args):
        out = []
        for i, p in enumerate(params):
            a = args[i] if i < len(args) else None
            t = qt(p)
            if a is None or a.get('kind') == 'CXXDefaultArgExpr':
                a = s.default_arg(fn, i)
                f2 = Frame(None, None)
                f2.tu = a[1]
                s.frames.append(f2)
                try: r = s.ev(st, a[0])
                finally: s.frames.pop()
            else: r = s.ev(st, a)
            out.append(s.bind(st, t, r))
        return out

    def default_arg(s, fn, i):
        init = [c for c in strip_comments(fn.params[i]) if not c.get('kind', '').endswith('Attr')]
        if init: return init[0], fn.tu
        # look at other declarations of the same function
        for (tu, i2), d in s.db.ids.items():
            if d.get('mangledName') == fn.mangled and d is not fn.node:
                ps = [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
                if i < len(ps):
                    init = strip_comments(ps[i])
                    if init: return init[0], tu
        raise Unsupported('default argument of %s' % fn.qual)

    def bind(s, st, t, r):
        isref = t.rstrip().endswith('&')
        if isinstance(r, tuple) and r[0] == 'fn': return s.newcell(st, r)
        if isref:
            if isinstance(r, LV): return r
            return s.newcell(st, r)
        if isinstance(r, LV) and re.match(r'^(const )?Eigen::Ref<(?!const )', t): return r
        v = s.read(st, r) if isinstance(r, LV) else r
        if isinstance(v, tuple) and v[0] == 'objref':
            k = s.tkind(t)
            if k[0] == 'rec': v = s.obj_struct(st, v[1], k[1])
        return s.newcell(st, s.coerce(st, v, t))

    def ex_CallExpr(s, st, n):
        callee, args = n['inner'][0], n['inner'][1:]
        rd = _callee(callee)
        if rd is None:
            f = s.rv(st, callee)
            return s.call_value(st, f, args, n)
        if rd['kind'] == 'VarDecl' or rd['kind'] == 'ParmVarDecl':
            return s.call_value(st, s.rv(st, callee), args, n)
        return s.call_fn(st, rd, args, None, n)

    def call_value(s, st, f, args, n):
        if isinstance(f, Ptr): f = s.read(st, f.lv)
        if isinstance(f, Lam):
            bound = []
            for p, a in zip(f.fn.params, args): bound.append(s.bind(st, qt(p), s.ev(st, a)))
            return s.call_lambda(st, f, bound)
        if isinstance(f, tuple) and f[0] == 'fn': return s.call_fn(st, f[1], args, None, n)
        if isinstance(f, IteV):
            raise Unsupported('conditional callee')
        vals = [s.ev(st, a) for a in args]
        if isinstance(f, T):
            h = s.contracts.get('call:' + _appname(f)) or s.contracts.get('call')
            if h: return h(s, st, f, vals, n)
        raise Unsupported('call of a function value')

    def find_fn(s, rd):
        fr = s.frames[-1]
        fn = s.db.fn_for(fr.tu, rd['id'])
        if fn is not None: return fn, fn.qual
        d = s.db.ids.get((fr.tu, rd['id']))
        q = d.get('_qual') if d else None
        if q is None and d is not None:
            q = d.get('name')
        if q is None:
            # declaration outside this dump: link by name and type
            nm = rd.get('name')
            t = rd.get('type', {}).get('qualType')
            c = [f for qq, fs in s.db.byqual.items() for f in fs if f.name == nm and f.type == t and f.cls is None]
            if len(c) == 1: return c[0], c[0].qual
        return None, q

    def call_fn(s, st, rd, args, this, n):
        fn, q = s.find_fn(rd)
        name = rd.get('name')
        ctr = (s.contracts.get((fn.mangled if fn else None)) or s.contracts.get(q)) if (fn or q) else None
        if ctr is None and fn is None: ctr = s.contracts.get(name)
        if ctr is not None:
            vals = [s.ev(st, a) for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            r = ctr(s, st, this, vals, n)
            if r is not NotImplemented:
                s.used_contracts[q] = s.used_contracts.get(q, 0) + 1
                return r
        if fn is None or fn.body is None:
            return s.lib.call(s, st, name, q, args, n, rd)
        if s.depth > 40: raise Unsupported('recursion in %s' % fn.qual)
        bound = s.bind_args(st, fn, fn.params, args)
        fr = Frame(fn, this)
        return s.call_body(st, fn, fr, bound)

    def call_body(s, st, fn, fr, bound):
        for p, a in zip(fn.params, bound): fr.env[p['id']] = a
        s.used_fns[fn.mangled] = fn
        if fn.mangled not in getattr(s, 'in_contract', ()) and not fn.name.startswith(('before_', 'after_', 'loop_')):
            after = s.ghost_method(st, fr, 'after_' + fn.name)
            if after is not None: return s.by_contract(st, fr, after, bound)
        fr.ret_ref = fn.rettype.rstrip().endswith('&')
        line = s.curline
        s.frames.append(fr)
        s.depth += 1
        try:
            base, fb = len(st.pc), len(st.facts)
            forks = not s.quiet and s.loop_contract(st, fr) is not None
            outs = s.run(fn.body, st)
            if forks: outs = s.choose([o for o in outs if not o[1].dead])
        finally:
            s.frames.pop()
            s.depth -= 1
        s.curline = line
        return s.finish(st, outs, base, fb, fr.ret_ref)

    def choose(s, outs):
        """the contract is checked separately for every way the function can end; each run follows one of them"""
        if len(outs) < 2: return outs
        i = len(s.taken)
        c = s.script[i] if i < len(s.script) else 0
        s.taken.append((c, len(outs)))
        return [outs[c]]

    def finish(s, st, outs, base, fb, ret_ref):
        live = [o for o in outs if not o[1].dead]
        if not live:
            st.dead = True
            return VOID
        conds = [tm.and_(*o[1].pc[base:]) for o in live]
        vals = [o[2] if o[0] == 'ret' else VOID for o in live]
        if len(live) > 1:
            if all(isinstance(v, LV) for v in vals):
                if all(v.same(vals[0]) for v in vals): v = vals[0]
                else:
                    v = s.read(live[-1][1], vals[-1])
                    for c, x, o in reversed(list(zip(conds[:-1], vals[:-1], live[:-1]))): v = vite(c, s.read(o[1], x), v)
            else:
                vals = [s.read(o[1], v) if isinstance(v, LV) else v for v, o in zip(vals, live)]
                v = vals[-1]
                for c, x in reversed(list(zip(conds[:-1], vals[:-1]))): v = vite(c, x, v)
        else: v = vals[0]
        m = s.merge([o[1] for o in live], base, fb)
        if m is not st:
            st.cells, st.maps, st.facts, st.pc, st.meta = m.cells, m.maps, m.facts, m.pc, m.meta
        return v

    def ex_CXXMemberCallExpr(s, st, n):
        me = n['inner'][0]
        while me.get('kind') == 'ParenExpr': me = me['inner'][0]
        args = n['inner'][1:]
        if me.get('kind') != 'MemberExpr': raise Unsupported('member call through %s' % me.get('kind'))
        objn = me['inner'][0]
        name = me.get('name')
        mid = me.get('referencedMemberDecl')
        fr = s.frames[-1]
        d = s.db.ids.get((fr.tu, mid))
        b = s.ev(st, objn)
        if me.get('isArrow'):
            p = s.read(st, b) if isinstance(b, LV) else b
            if d is None: return s.lib.method_ptr(s, st, name, p, args, n, me)
            if isinstance(p, IteV): raise Unsupported('conditional object')
            obj = s.deref(st, p)
        else: obj = b
        if d is None:
            return s.lib.method(s, st, name, obj, args, n, me)
        o = objn
        while o.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): o = o['inner'][0]
        rg = me.get('range', {})
        qualified = (not name.startswith('operator') and o.get('kind') == 'CXXThisExpr' and o.get('implicit') and
                     rg.get('begin', {}).get('offset') is not None and rg['begin']['offset'] != rg.get('end', {}).get('offset'))
        return s.method(st, d, name, obj, args, n, qualified)

    def method(s, st, d, name, obj, args, n, qualified=False):
        fr = s.frames[-1]
        cls = s.db.par.get((fr.tu, d['id'])) or d.get('_qual', '').rsplit('::', 1)[0]
        fn = s.db.fn_for(fr.tu, d['id'])
        if not isinstance(obj, LV):
            obj = s.newcell(st, obj)
        virt = bool(d.get('virtual')) or (fn and fn.virtual) or any(c.get('kind') == 'OverrideAttr' for c in d.get('inner', []))
        q = d.get('_qual') or (cls or '') + '::' + name
        # dynamic class
        if qualified: virt = False
        if virt and obj.root[0] == 'obj' and not obj.path:
            o = obj.root[1]
            dc = s.dyn.get(o) or (s.dyn.get(o.data) if o.op == 'app' else None)
            if dc:
                f2 = s.resolve_virtual(dc, name, d)
                if f2 is not None:
                    fn, q = f2, f2.qual
                    virt = False
        if virt and obj.root[0] != 'obj':
            # a value: its dynamic class is the class it was created with
            v = s.read(st, obj)
            if isinstance(v, Struct) and v.cls in s.db.recs and v.cls != cls:
                f2 = s.resolve_virtual(v.cls, name, d)
                if f2 is not None: fn, q = f2, f2.qual
            virt = False
        ctr = s.contracts.get(fn.mangled if fn else None) or s.contracts.get(q)
        if ctr is not None:
            vals = [s.ev(st, a) for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            r = ctr(s, st, obj, vals, n)
            if r is not NotImplemented:
                s.used_contracts[q] = s.used_contracts.get(q, 0) + 1
                return r
        if virt and obj.root[0] == 'obj' and not (fn is not None and s.frames[-1].this is not None and False):
            # a virtual call on an object of unknown dynamic class needs a contract, unless nothing overrides it
            if fn is None or s.overridden(q, name): raise Unsupported('virtual call %s without contract' % q)
        if name == 'operator=' and len(args) == 1 and cls in s.db.recs and (d.get('isImplicit') or d.get('explicitlyDefaulted')) and not obj.root[0] == 'obj':
            # member-wise assignment of a value
            r = s.db.recs[cls]
            ft = [t for rr in [r] + s.db.all_bases(r) for _, t, _ in rr.fields]
            pt = qt(next(c for c in d['inner'] if c.get('kind') == 'ParmVarDecl'))
            if not any('*' in t or '&' in t for t in ft):
                a = s.ev(st, args[0])
                v = s.read(st, a)
                if isinstance(v, tuple) and v and v[0] == 'objref': v = s.obj_struct(st, v[1], cls)
                if isinstance(v, (Struct, IteV)):
                    same = isinstance(a, LV) and a.same(obj)
                    if '&&' in pt and not same: s.vacate(st, a, cls)
                    s.write(st, obj, v)
                    return obj
        if fn is None or fn.body is None:
            if fn is not None and name == 'operator=' : 
                v = s.rv(st, args[0])
                if isinstance(v, tuple) and v[0] == 'objref': v = s.obj_struct(st, v[1], cls)
                s.write(st, obj, v)
                return obj
            if name == 'operator=' and len(args) == 1:
                v = s.rv(st, args[0])
                if isinstance(v, tuple) and v[0] == 'objref': v = s.obj_struct(st, v[1], cls)
                s.write(st, obj, v)
                return obj
            raise Unsupported('no body for %s' % q)
        if fn.static: pass
        bound = s.bind_args(st, fn, fn.params, args)
        f = Frame(fn, obj)
        return s.call_body(st, fn, f, bound)

    def overridden(s, q, name):
        cls = q.rsplit('::', 1)[0]
        for r in s.db.recs.values():
            if r.qual != cls and name in r.methods and any(b.qual == cls for b in s.db.all_bases(r)): return True
        return False

    def resolve_virtual(s, cls, name, d):
        todo = [cls] + [b.qual for b in s.db.all_bases(s.db.recs[cls])]
        np = len([c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl'])
        t = d.get('type', {}).get('qualType')
        for c in todo:
            fs = [f for f in s.db.byqual.get(c + '::' + name, []) if f.body is not None]
            ex = [f for f in fs if f.type == t]
            if ex: return ex[0]
            fs = [f for f in fs if len(f.params) == np and s.same_kinds(f.params, d)]
            if len(fs) == 1: return fs[0]
        return None

    def same_kinds(s, params, d):
        ps = [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        for a, b in zip(params, ps):
            try: x, y = s.tkind(qt(a))[0], s.tkind(qt(b))[0]
            except Unsupported: continue
            if x != y and 'opaque' not in (x, y): return False
        return True

    def ex_CXXOperatorCallExpr(s, st, n):
        cal = _callee(n['inner'][0])
        args = n['inner'][1:]
        name = cal.get('name') if cal else None
        if cal is None: raise Unsupported('operator call')
        fr = s.frames[-1]
        d = s.db.ids.get((fr.tu, cal['id']))
        if d is not None:
            if d.get('kind') == 'CXXMethodDecl':
                obj = s.ev(st, args[0])
                if isinstance(obj, T) and obj.sort == 'O': obj = LV(('obj', obj))
                if name == 'operator()' and isinstance(s.read(st, obj) if isinstance(obj, LV) else obj, Lam):
                    return s.call_value(st, s.read(st, obj) if isinstance(obj, LV) else obj, args[1:], n)
                return s.method(st, d, name, obj, args[1:], n)
            return s.call_fn(st, cal, args, None, n)
        if cal.get('kind') == 'CXXMethodDecl' and name == 'operator()':
            obj = s.ev(st, args[0])
            v = s.read(st, obj) if isinstance(obj, LV) else obj
            if isinstance(v, Lam): return s.call_value(st, v, args[1:], n)
        r = s.lib.operator(s, st, name, args, n)
        if name == 'operator=' and len(args) == 2 and args[1].get('valueCategory') == 'xvalue' and _std_move(args[1]):
            a, b = s.ev(st, args[0]), s.ev(st, args[1])
            if not (isinstance(a, LV) and isinstance(b, LV) and a.same(b)): s.vacate(st, b, qt(args[1]))
        return r

    def ex_CXXRewrittenBinaryOperator(s, st, n): return s.ev(st, n['inner'][0])
    def ex_OpaqueValueExpr(s, st, n): return s.ev(st, n['inner'][0])
    def ex_ArrayInitLoopExpr(s, st, n): return s.rv(st, n['inner'][0])
    def ex_CXXInheritedCtorInitExpr(s, st, n): raise Unsupported('inherited constructor')
    def ex_CXXNoexceptExpr(s, st, n): return tm.TRUE


# ---------------------------------------------------------------- helpers
def _line(n):
    r = n.get('range', {}).get('begin', {})
    if 'line' in r: return r['line']
    return r.get('expansionLoc', {}).get('line')


def _nonneg_atom(a): return tm.nonneg(a)


def _has_app(c):
    return any(x.op in ('app', 'sum', 'at') for x in tm.subterms(c))


def _callee(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): n = n['inner'][0]
    if n.get('kind') == 'DeclRefExpr': return n['referencedDecl']
    return None


def _appname(t):
    return t.data.split('|')[0] if t.op in ('app', 'var') and isinstance(t.data, str) else ''


def _is_assert(n):
    f = n['inner'][2]
    def look(x):
        if x.get('referencedDecl', {}).get('name') == '__assert_fail': return True
        return any(look(c) for c in x.get('inner', []))
    return look(f)


def _find_ref(n):
    if n.get('kind') == 'DeclRefExpr': return n['referencedDecl']['id']
    for c in n.get('inner', []):
        r = _find_ref(c)
        if r: return r
    return None


def _find_class(n):
    if n.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr'): return clean(n.get('type', {}).get('qualType', ''))
    for c in n.get('inner', []):
        r = _find_class(c)
        if r: return r
    return ''


def _is_move(n, arg):
    ct = (n or {}).get('ctorType', {}).get('qualType', '')
    return '&&' in ct and arg.get('valueCategory') == 'xvalue' and _std_move(arg)


def _std_move(a):
    """the expression is std::move of something (possibly converted)"""
    while a.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CXXStaticCastExpr', 'ExprWithCleanups') and a.get('inner'): a = a['inner'][0]
    if a.get('kind') != 'CallExpr': return False
    c = _callee(a['inner'][0])
    return c is not None and c.get('name') == 'move'


def _is_copy(ct, qual):
    m = re.match(r'^void \((const )?([\w:<>, ]+?) ?&{1,2}\)', ct)
    return bool(m) and m.group(2).split('<')[0].split('::')[-1] == qual.split('<')[0].split('::')[-1]


def _simp_or(conds):
    """or of branch conditions that cover everything"""
    if len(conds) == 2:
        a, b = conds
        if tm.not_(a) is b: return tm.TRUE
    # common factor elimination: (g & c) | (g & !c)
    cs = [set(c.args) if c.op == 'and' else {c} for c in conds]
    common = set.intersection(*cs)
    if common:
        rest = [tm.and_(*(x - common)) for x in cs]
        r = _simp_or(rest) if rest != list(conds) else None
        if r is not None: return tm.and_(*(list(common) + [r]))
    ch = True
    conds = list(conds)
    while ch and len(conds) > 1:
        ch = False
        for i in range(len(conds)):
            for j in range(i + 1, len(conds)):
                A = set(conds[i].args) if conds[i].op == 'and' else {conds[i]}
                B = set(conds[j].args) if conds[j].op == 'and' else {conds[j]}
                da, db_ = A - B, B - A
                if len(da) == 1 and len(db_) == 1:
                    x, y = next(iter(da)), next(iter(db_))
                    if tm.not_(x) is y:
                        conds[i] = tm.and_(*(A & B))
                        del conds[j]
                        ch = True
                        break
                    # a | (!a & r)  ->  a | r
                if len(da) == 1 and tm.not_(next(iter(da))) in B and not (A - da) - B:
                    conds[j] = tm.and_(*(B - {tm.not_(next(iter(da)))}))
                    ch = True
                    break
                if len(db_) == 1 and tm.not_(next(iter(db_))) in A and not (B - db_) - A:
                    conds[i] = tm.and_(*(A - {tm.not_(next(iter(db_)))}))
                    ch = True
                    break
            if ch: break
    return tm.or_(*conds)
