"""A pipe as a sequence of pieces, each written and read by one call of bpmpd_io::writeAll / bpmpd_io::readAll.  The contract of
these two functions (all bytes are handed over in order, or an error is raised) is proved by L_write_all and L_read_all; what is
read into a place is the value that was written, which must be of the same type and size."""
from . import terms as tm
from .terms import T
from .values import *

WIDTH = {'I': (1, 2, 4, 8), 'R': (4, 8), 'B': (1,)}


def rd(s, st, a): return s.read(st, a) if isinstance(a, LV) else a


def place(s, st, p):
    p = rd(s, st, p)
    if isinstance(p, Ptr): return p.lv, None
    if isinstance(p, It):
        s.oblige(st, 'index', tm.eq(p.pos, tm.ZI), 'a message piece starts at the first element')
        return p.lv, p.pos
    raise Unsupported('message piece of type %s' % type(p).__name__)


def ctype(s, st, lv, n, v): return sortof_elem(v) if isinstance(v, Arr) else v.sort


def sortof_elem(a): return a.ety if isinstance(a.ety, str) else a.ety[0]


def write_all(s, st, this, vals, n):
    lv, _ = place(s, st, vals[1])
    st.meta['pipe'] = st.meta.get('pipe', ()) + ((s.read(st, lv), rd(s, st, vals[2])),)
    return VOID


def read_all(s, st, this, vals, n):
    lv, _ = place(s, st, vals[1])
    q = st.meta.get('pipe', ())
    if not q:
        s.oblige(st, 'post', tm.FALSE, 'there is something left to read')
        st.dead = True
        return VOID
    st.meta['pipe'] = q[1:]
    v, size = q[0]
    old = s.read(st, lv)
    s.oblige(st, 'post', tm.eq(size, rd(s, st, vals[2])), 'as many bytes are read as were written')
    if isinstance(v, Arr) != isinstance(old, Arr) or (sortof_elem(v) != sortof_elem(old) if isinstance(v, Arr) else v.sort != old.sort):
        s.oblige(st, 'post', tm.FALSE, 'the type read is the type written')
        st.dead = True
        return VOID
    if isinstance(v, Arr):
        s.oblige(st, 'index', tm.eq(v.dims[0], old.dims[0]), 'the elements read are those written')
        v = Arr(old.kind, old.ety, old.dims, FnBase(lambda i, v=v: v.get(i)))
    s.write(st, lv, v)
    return VOID


def empty(s, st, this, vals, n): return tm.TRUE if not st.meta.get('pipe') else tm.FALSE


def install(s):
    if s.lemma and s.lemma.startswith('L_message'):
        s.contracts['bpmpd_io::writeAll'] = write_all
        s.contracts['bpmpd_io::readAll'] = read_all
        s.contracts['bpmpd_io::all_read'] = empty
