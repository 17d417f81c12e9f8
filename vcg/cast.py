"""Mechanical extraction: clang's typed AST of the files of /repo, loaded on every run."""
import json, os, re, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = ['trajopt_common/include', 'trajopt_sco/include', 'trajopt_ifopt/include', 'trajopt_optimizers/trajopt_sqp/include',
       'trajopt/include']


class ExtractError(Exception):
    pass


def flags():
    out = ['-std=c++17', '-w', '-DHAVE_BPMPD', '-DBPMPD_CALLER="bpmpd_caller"', '-DBPMPD_WORKING_DIR="/tmp"', '-I/usr/include/eigen3', '-I/usr/include/jsoncpp']
    for i in INC: out += ['-I', os.path.join(REPO, i)]
    out += ['-I', os.path.join(VERIF, 'stubs')]
    return out


def decode(s):
    d = json.JSONDecoder()
    i = 0
    out = []
    while True:
        j = s.find('{', i)
        if j < 0: break
        o, i = d.raw_decode(s, j)
        out.append(o)
    return out


def dump(path, filt, extra=()):
    cmd = ['clang++', '-fsyntax-only'] + flags() + list(extra) + ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError('clang rejects %s:\n%s' % (path, r.stderr[:2000]))
    return decode(r.stdout)


class Fn:
    """a function with a body"""

    def __init__(self, node, tu, qual, cls):
        self.node, self.tu, self.qual, self.cls = node, tu, qual, cls
        self.mangled = node.get('mangledName') or qual
        self.name = node.get('name')
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = next((c for c in node.get('inner', []) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
        self.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        self.type = node.get('type', {}).get('qualType', '')
        self.rettype = self.type.split('(')[0].strip() if not self.type.startswith('auto') else \
            (self.type.rsplit('->', 1)[-1].strip() if '->' in self.type else 'auto')
        self.static = node.get('storageClass') == 'static'
        self.virtual = bool(node.get('virtual'))
        self.file = None
        self.line = None

    def __repr__(self): return 'Fn(%s)' % self.qual


class Rec:
    def __init__(self, qual):
        self.qual = qual
        self.fields = []          # (name, type, init node)
        self.bases = []
        self.methods = {}         # name -> [decl nodes]
        self.tu = None


def same_instance(a, b):
    (x, xs), (y, ys) = split_targs(a), split_targs(b)
    if x.split('::')[-1] != y.split('::')[-1] or not xs or len(xs) > len(ys): return False
    return all(u == v or v.endswith('::' + u) or ('<' in u and same_instance(u, v)) for u, v in zip(xs, ys))


class DB:
    def __init__(self):
        self.fns = {}        # mangled -> Fn
        self.byqual = {}     # qual -> [Fn]
        self.recs = {}       # qual -> Rec
        self.ids = {}        # (tu,id) -> node
        self.par = {}        # (tu,id) -> (qualname prefix)
        self.enums = {}      # (tu,id) of constant -> value
        self.enumtypes = set()
        self.vars = {}       # global/static variables qual -> (node, tu)
        self.typedefs = {}
        self.files = {}

    def load(self, specs):
        """specs: list of (file, filter)"""
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda s: dump(s[0], s[1], s[2] if len(s) > 2 else ()), specs))
        for s, tops in zip(specs, rs):
            tu = len(self.files)
            self.files[tu] = s
            self.curfile = s[0]
            self.ln = None
            for t in tops: self.visit(t, tu, '', None)
        return self

    def _loc(self, node):
        # only for diagnostics
        def look(l):
            if not isinstance(l, dict): return None
            if 'line' in l: return l['line']
            for k in ('spellingLoc', 'expansionLoc'):
                if k in l and 'line' in l[k]: return l[k]['line']
        return look(node.get('loc', {}))

    def visit(self, n, tu, scope, cls, tmpl=False):
        k = n.get('kind')
        if k is None: return
        i = n.get('id')
        if i is not None:
            self.ids[(tu, i)] = n
        nm = n.get('name', '')
        if k == 'NamespaceDecl':
            q = scope + nm + '::' if nm else scope
            for c in n.get('inner', []): self.visit(c, tu, q, None)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            q = scope + nm
            if k == 'ClassTemplateSpecializationDecl':
                ta = [qt(c) for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument' and c.get('type')]
                if ta: q += '<' + ', '.join(ta) + '>'
            self.par[(tu, i)] = q
            if n.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in n.get('inner', [])):
                if q not in self.recs:
                    r = self.recs[q] = Rec(q)
                    r.tu = tu
                    r.bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in n.get('bases', [])]
                    for c in n.get('inner', []):
                        if c.get('kind') == 'FieldDecl':
                            init = c.get('inner', [None])
                            init = [x for x in init if x and not x.get('kind', '').endswith('Comment')]
                            r.fields.append((c.get('name'), qt(c), init[0] if c.get('hasInClassInitializer') and init else None))
                        elif c.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                            r.methods.setdefault(c.get('name'), []).append(c)
            for c in n.get('inner', []):
                if c.get('kind') == 'FieldDecl':
                    self.ids[(tu, c['id'])] = c
                    self.par[(tu, c['id'])] = q
                else:
                    self.visit(c, tu, q + '::', q)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            c2 = cls
            if n.get('parentDeclContextId'):
                p = self.par.get((tu, n['parentDeclContextId']))
                if p: c2 = p
            elif n.get('previousDecl') and self.par.get((tu, n['previousDecl'])):
                c2 = self.par[(tu, n['previousDecl'])]
            self.par[(tu, i)] = c2
            q = (c2 + '::' if c2 else scope) + nm
            n['_qual'] = q
            f = Fn(n, tu, q, c2)
            f.file = self.curfile
            f.line = self._loc(n)
            if n.get('previousDecl') and not f.virtual:
                pn = self.ids.get((tu, n['previousDecl']))
                if pn is not None and pn.get('virtual'): f.virtual = True
                if pn is not None and pn.get('storageClass') == 'static': f.static = True
            if f.body is not None or n.get('explicitlyDefaulted'):
                self.fns.setdefault(f.mangled, f)
                if self.fns[f.mangled].body is None and f.body is not None: self.fns[f.mangled] = f
                l = self.byqual.setdefault(q, [])
                if not any(g.mangled == f.mangled for g in l): l.append(f)
            for c in n.get('inner', []):
                if c.get('kind') == 'ParmVarDecl': self.ids[(tu, c['id'])] = c
        elif k == 'FunctionTemplateDecl':
            # instantiations only (skip the pattern, keep specialisations)
            first = True
            for c in n.get('inner', []):
                if c.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    if first:
                        first = False
                        self.ids[(tu, c['id'])] = c
                        c['_qual'] = scope + c.get('name', '')
                        c['_pattern'] = True
                        f = Fn(c, tu, scope + c.get('name', ''), cls)
                        f.file = self.curfile
                        if f.body is not None: self.byqual.setdefault(f.qual + '<>', []).append(f)
                        continue
                    self.visit(c, tu, scope, cls)
        elif k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl': self.visit(c, tu, scope, cls)
                elif c.get('kind') == 'CXXRecordDecl':
                    c['_pattern'] = True
                    self.visit(c, tu, scope, cls)
        elif k == 'EnumDecl':
            v = -1
            self.enumtypes.add((scope + nm))
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    val = find_value(c)
                    v = val if val is not None else v + 1
                    self.enums[(tu, c['id'])] = v
                    self.enums[scope + nm + '::' + c['name']] = v
                    self.ids[(tu, c['id'])] = c
        elif k == 'VarDecl':
            self.vars.setdefault(scope + nm, (n, tu))
            n['_qual'] = scope + nm
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs.setdefault(scope + nm, n.get('type', {}).get('desugaredQualType') or qt(n))
        elif k in ('LinkageSpecDecl',):
            for c in n.get('inner', []): self.visit(c, tu, scope, cls)

    def decl(self, tu, i): return self.ids.get((tu, i))

    def fn_for(self, tu, i):
        """definition for a referenced declaration id"""
        n = self.ids.get((tu, i))
        if n is None: return None
        m = n.get('mangledName')
        if m and m in self.fns: return self.fns[m]
        return None

    def rec(self, name):
        name = clean(name)
        if name in self.recs: return self.recs[name]
        if '<' in name:
            # an instance of a class template: default arguments may be left out
            m = [q for q in self.recs if '<' in q and same_instance(name, q)]
            if len(m) == 1: return self.recs[m[0]]
        s = name.split('::')[-1]
        c = [q for q in self.recs if q.split('::')[-1] == s]
        if len(c) == 1: return self.recs[c[0]]
        if c:
            c2 = [q for q in c if q.endswith(name)]
            if len(c2) == 1: return self.recs[c2[0]]
        return None

    def all_bases(self, rec):
        out = []
        for b in rec.bases:
            r = self.rec(b)
            if r:
                out.append(r)
                out += self.all_bases(r)
        return out


def qt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


def find_value(n):
    if n.get('kind') == 'ConstantExpr' and 'value' in n: return int(n['value'])
    for c in n.get('inner', []):
        v = find_value(c)
        if v is not None: return v
    return None


def clean(t):
    t = t.strip()
    t = re.sub(r'\b(const|class|struct|volatile|typename|enum)\b', '', t)
    t = t.replace('&', '').strip()
    return re.sub(r'\s+', ' ', t).strip()


def split_targs(s):
    """'a<b, c<d>>' -> ('a', ['b','c<d>'])"""
    i = s.find('<')
    if i < 0: return s, []
    depth = 0
    args, cur = [], ''
    for j in range(i, len(s)):
        ch = s[j]
        if ch == '<':
            depth += 1
            if depth == 1: continue
        elif ch == '>' and s[j - 1] != '-':
            depth -= 1
            if depth == 0:
                if cur.strip(): args.append(cur.strip())
                return s[:i].strip() + s[j + 1:].strip(), args
        if ch == ',' and depth == 1:
            args.append(cur.strip()); cur = ''
        else: cur += ch
    return s[:i], args


def strip_comments(n):
    return [c for c in n.get('inner', []) if not c.get('kind', '').endswith('Comment')]
