"""Property table: which files are extracted, which contract file is checked, what is linked for replay."""
import os, importlib, copy
from . import cast
from .cast import REPO, VERIF

SCO = 'trajopt_sco/src/'
NS = {'sco_lemmas', 'trajopt_lemmas'}


class Prop:
    def __init__(s, pid, lemma, srcs, filt, libs=(), extra=(), contracts=None, setup=None, flags=(), link=(), assumptions=(), hidden=False, variants=None):
        s.id, s.lemma, s.srcs, s.filt = pid, lemma, srcs, filt
        s.extra = list(extra)    # further sources of /verif compiled into it
        s.libs = libs            # sources of /repo compiled into the replay binary
        s.contracts = contracts or {}
        s.setup = setup
        s.flags = list(flags)
        s.link = list(link)
        s.hidden = hidden
        s.variants = variants    # build configurations: name -> flags
        s.assumptions = list(assumptions)


    def configs(s):
        """the property in each of its build configurations"""
        if not s.variants: return {'': s}
        out = {}
        for v, fl in s.variants.items():
            out[v] = copy.copy(s)
            out[v].flags = s.flags + list(fl)
            out[v].variants = None
        return out


TABLE = {}


def P(*a, **k):
    p = Prop(*a, **k)
    TABLE[p.id] = p
    return p


def get(pid):
    if not TABLE: importlib.import_module('vcg.table')
    return TABLE[pid]


def load(p):
    filts = (p.filt,) if isinstance(p.filt, str) else p.filt
    specs = [(os.path.join(VERIF, 'contracts', p.lemma), f, ('-DVERIF_STATIC',) + tuple(p.flags)) for f in filts]
    specs += [(os.path.join(REPO, f), filts[0] if len(filts) == 1 else 'sco' if f.startswith('trajopt_sco') else 'opt', tuple(p.flags)) for f in p.srcs]
    return cast.DB().load(specs)


def lemmas(db, p):
    out = []
    for q, fs in db.byqual.items():
        parts = q.split('::')
        if len(parts) >= 2 and parts[0].endswith('_lemmas'):
            for f in fs:
                if f.tu < (1 if isinstance(p.filt, str) else len(p.filt)) and f.body is not None and f.name and is_lemma(f): out.append(f)
    out.sort(key=lambda f: f.line or 0)
    return out


def is_lemma(f):
    return f.rettype == 'void' and f.cls is None and f.name.startswith('L_')
