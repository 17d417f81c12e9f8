"""Check of one property:  python3-vt /verif/run.py Cxx [--thorough]

1. extracts clang's typed AST of the files of /repo the property depends on and of the contract file,
2. generates and discharges every proof obligation of every contract (vcg/),
3. compiles the same contracts against the same sources and executes them on generated inputs: this validates the models of
   library code the proofs rely on, and searches a failing input for an obligation that is not discharged.
Exit 0: held; 1: VIOLATION line.
"""
import re, sys, os, json, time, subprocess, tempfile, shutil, signal, multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vcg import cast, contract, props

BUDGET = 840          # seconds, hard end of a run


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    pid = args[0]
    tier = 'thorough' if '--thorough' in sys.argv or (os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in sys.argv) else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    p = props.get(pid)
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return check(p, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ replay binary
CXX = ['g++', '-std=c++17', '-O1', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=all', '-fno-sanitize=vptr,float-divide-by-zero,float-cast-overflow', '-ffunction-sections', '-fdata-sections']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='abort_on_error=1:print_stacktrace=0', OMP_NUM_THREADS='2')


def compile_cmds(p, work):
    fl = [x for x in cast.flags() if x not in ('-std=c++17', '-w')] + p.flags
    out = []
    src = [os.path.join(HERE, 'contracts', p.lemma)] + [os.path.join(cast.REPO, f) for f in p.libs]
    src += [os.path.join(HERE, f) for f in p.extra]
    for i, f in enumerate(src):
        o = os.path.join(work, 'o%d.o' % i)
        out.append((CXX + fl + ['-I', os.path.join(HERE, 'contracts'), '-c', f, '-o', o], o))
    return out


def build(p, work):
    cmds = compile_cmds(p, work)
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(lambda c: subprocess.run(c[0], capture_output=True, text=True), cmds))
    for (c, o), r in zip(cmds, rs):
        if r.returncode: return None, 'compilation failed: %s\n%s' % (' '.join(c), r.stderr[:3000])
    exe = os.path.join(work, 'replay')
    link = ['g++', '-fsanitize=address,undefined', '-Wl,--gc-sections'] + [o for _, o in cmds] + ['-o', exe] + p.link + ['-lpthread']
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode: return None, 'link failed: %s\n%s' % (r.stderr[:3000], ' '.join(link))
    return exe, None


def build_all(p, work):
    """one replay binary for each build configuration"""
    if not p.variants: return build(p, work)
    exes = {}
    for v, pv in p.configs().items():
        w = os.path.join(work, v)
        os.makedirs(w, exist_ok=True)
        exes[v], err = build(pv, w)
        if exes[v] is None: return None, err
    return exes, None


def replay(exe, lemma, seed, trials, only=None, timeout=300, cwd=None):
    if isinstance(exe, dict):
        if '@' in lemma:
            nm, v = lemma.split('@')
            return re.sub(r'\b%s\b' % nm, lemma, replay(exe[v], nm, seed, trials, only, timeout, cwd))
        return '\n'.join(re.sub(r'^NAME (\S+)', r'NAME \1@' + v, replay(x, lemma, seed, trials, only, timeout, cwd), flags=re.M) for v, x in exe.items())
    cmd = [exe, lemma, str(seed), str(trials)] + ([str(only)] if only is not None else [])
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=ENV, timeout=timeout, cwd=cwd, errors='replace')
        return r.stdout + ('\n' + r.stderr[:3000] if only is not None else '')
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b''
        return out.decode(errors='replace') if isinstance(out, bytes) else out


def parse(out):
    ok, bad = {}, {}
    for l in out.split('\n'):
        w = l.split()
        if l.startswith('PASS '): ok[w[1]] = {k: int(v) for k, v in (x.split('=') for x in w[2:])}
        elif l.startswith('FAIL '): bad.setdefault(w[1], (w[2], ' '.join(w[3:])))
    return ok, bad


# ------------------------------------------------------------------------------------------------ proof
def worker(db, p, name, timeout, q):
    try:
        base, _, v = name.partition('@')
        p, db = p.configs()[v], db[v]
        f = [f for f in props.lemmas(db, p) if f.name == base][0]
        r = contract.run_lemma(db, f, p.contracts, p.setup, timeout=timeout)
        q.put((name, r))
    except BaseException as e:          # reported as undecided
        r = contract.Result(name)
        r.unsupported = 'internal: %s %s' % (type(e).__name__, e)
        q.put((name, r))


def prove_all(db, p, names, limit, timeout, deadline):
    """each lemma in its own process, at most 8 at a time"""
    ctx = mp.get_context('fork')
    res, running, todo = {}, {}, list(names)
    while todo or running:
        while todo and len(running) < 7:
            nm = todo.pop(0)
            q = ctx.SimpleQueue()
            pr = ctx.Process(target=worker, args=(db, p, nm, timeout, q))
            pr.start()
            running[nm] = (pr, q, time.time())
        for nm, (pr, q, ts) in list(running.items()):
            if not q.empty():
                res[nm] = q.get()[1]
                pr.join(5)
                if pr.is_alive(): pr.kill()
                del running[nm]
            elif not pr.is_alive():
                if not q.empty(): continue
                r = contract.Result(nm)
                r.unsupported = 'proof process ended (exit %s)' % pr.exitcode
                res[nm] = r
                del running[nm]
            elif time.time() - ts > limit or time.time() > deadline:
                pr.kill()
                r = contract.Result(nm)
                r.unsupported = 'time limit of %d s reached' % limit
                r.time = time.time() - ts
                res[nm] = r
                del running[nm]
        time.sleep(0.02)
    return res


def known(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l[len('known: property=%s ' % pid):]
                key, _, desc = rest.partition(' -- ')
                out.append((key.strip(), desc.strip() or key.strip()))
    except FileNotFoundError: pass
    return out


def check(p, tier, seed, t0, work):
    pid = p.id
    deadline = t0 + BUDGET
    thorough = tier == 'thorough'
    bq = mp.get_context('fork').SimpleQueue()
    bp = mp.get_context('fork').Process(target=lambda: bq.put(build_all(p, work)))
    bp.start()
    extract_err = None
    db = None
    try:
        cs = p.configs()
        db = {v: props.load(pv) for v, pv in cs.items()}
        names = [f.name + ('@' + v if v else '') for v, pv in cs.items() for f in props.lemmas(db[v], pv)]
    except cast.ExtractError as e:
        extract_err = str(e)
        names = []
    res = {}
    if db is not None:
        res = prove_all(db, p, names, 700 if thorough else 300, 30000 if thorough else 8000, t0 + (700 if thorough else 480))
    bp.join(max(5, deadline - 30 - time.time()))
    exe, err = (None, 'build of the replay binary did not finish') if bq.empty() else bq.get()
    if bp.is_alive(): bp.kill()
    trials = 40000 if thorough else 3000
    ENV['REPLAY_SECS'] = '60' if thorough else '10'
    declared = []
    if exe:
        declared = [l.split()[1] for l in replay(exe, '--list', seed, 1, cwd=work).split('\n') if l.startswith('NAME ')]
        declared = [n for n in declared if n.startswith('B_')]
    ok, bad = {}, {}
    if exe:
        if not names:
            names = [l.split()[1] for l in replay(exe, '--list', seed, 1, cwd=work).split('\n') if l.startswith('NAME ')]
        names = names + [n for n in declared if n not in names]
        # the same contracts, executed on the compiled code
        with ThreadPoolExecutor(8) as ex:
            for o in ex.map(lambda nm: replay(exe, nm, seed, trials, timeout=max(5, min(150, deadline - time.time() - 20)), cwd=work), names):
                a, b = parse(o)
                ok.update(a); bad.update(b)
    # obligations that are not discharged: look harder for a failing input
    alarms = []          # (lemma, text, concrete)
    undecided = []
    for nm in names:
        r = res.get(nm)
        if nm in bad: continue
        if nm.startswith('B_'):
            undecided.append((nm, 'declared bounded: outside the reach of the verifier, executed on generated inputs only'))
            continue
        if r is None or r.unsupported:
            undecided.append((nm, extract_err[:300] if r is None and extract_err else (r.unsupported if r else 'not extracted')))
            more = True
        elif not r.ok: more = True
        else: more = False
        if more and exe and time.time() < deadline - 60:
            for k in range(3):
                a, b = parse(replay(exe, nm, seed + 1000 + k, 8000 if not thorough else 60000, timeout=max(5, min(60, deadline - time.time() - 20)), cwd=work))
                if b:
                    bad.update({x: (y[0], y[1], seed + 1000 + k) for x, y in b.items()})
                    break
                if a: ok[nm] = a[nm]
    kn = known(pid)
    used_known = []
    for nm in names:
        r = res.get(nm)
        if nm in bad:
            b = bad[nm]
            sd = b[2] if len(b) > 2 else seed
            text = 'contract %s fails on a concrete input (trial %s): %s' % (nm, b[0], b[1])
            k = match_known(kn, nm, b[1])
            if k is not None:
                used_known.append(k)
                # every failing postcondition of the lemma must be listed
                others = [o for o in (r.failed() if r else []) if match_known(kn, nm, o[3]) is None]
                for o in others[:1]: alarms.append((nm, obltext(o), None))
                continue
            alarms.append((nm, text, (sd, b[0])))
        elif r is not None and r.unsupported is None and not r.ok:
            fl = r.failed()
            for o in fl:
                k = match_known(kn, nm, o[3])
                if k is not None: used_known.append(k)
            fl = [o for o in fl if match_known(kn, nm, o[3]) is None]
            if fl: alarms.append((nm, obltext(fl[0]), None))
            elif r.vacuous: alarms.append((nm, 'contract %s: %s' % (nm, r.vacuous), None))
    for k in dict.fromkeys(used_known): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if exe is None and not alarms:
        # the contracts no longer compile against the code: nothing can be decided by replay
        if extract_err:
            alarms.append(('(build)', 'the contracts cannot be compiled against the current source: %s\n%s' % (err, extract_err), None))
    path = None
    if alarms:
        alarms.sort(key=lambda a: a[2] is None)
        path = write_replay(p, alarms, res, exe, work, trials, seed)
    evidence(p, tier, seed, t0, res, names, ok, bad, undecided, alarms, used_known, exe, err, extract_err)
    for nm, why in undecided: print('bounded stand-in for %s (not proved): %s' % (nm, why.split('\n')[0][:200]))
    if exe is None: print('no replay binary: %s' % str(err)[:400])
    nob = sum(len(r.obls) for r in res.values())
    print('%s: %d contracts, %d obligations, %d discharged, %d undecided contracts, %d contract executions, %.1f s' % (
        pid, len(names), nob, sum(1 for r in res.values() for o in r.obls if o[4] == 'proved'), len(undecided), sum(v['executed'] for v in ok.values()), time.time() - t0))
    if alarms:
        nm, text, conc = alarms[0]
        print(text[:600])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if conc else ' no-failing-input-found'))
        return 1
    return 0


def match_known(kn, nm, what):
    for key, desc in kn:
        l, _, pat = key.partition(':')
        if l.strip() == nm and pat.strip() and pat.strip() in what: return desc
    return None


def obltext(o): return 'obligation not discharged: [%s] %s (in %s, line %s): %s' % (o[0], o[3], o[1], o[2], o[5])


def write_replay(p, alarms, res, exe, work, trials, seed):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.txt' % p.id)
    with open(path, 'w') as f:
        f.write('property %s, contract file contracts/%s\n\n' % (p.id, p.lemma))
        for nm, text, conc in alarms:
            f.write('== %s\n%s\n' % (nm, text))
            if conc:
                f.write('\nreplayed on the compiled code of /repo:\n')
                f.write(replay(exe, nm, conc[0], int(conc[1]) + 1, only=conc[1], timeout=60, cwd=work)[:6000] + '\n')
                f.write('to reproduce: build the replay binary with\n')
                for c, o in compile_cmds(p.configs()[nm.partition('@')[2]], '$TMP'): f.write('  ' + ' '.join(c) + '\n')
                f.write('  g++ -fsanitize=address,undefined -Wl,--gc-sections $TMP/*.o -o $TMP/replay %s -lpthread\n' % ' '.join(p.link))
                f.write('and run: $TMP/replay %s %s %d %s\n' % (nm.partition('@')[0], conc[0], int(conc[1]) + 1, conc[1]))
            else:
                f.write('\nno failing input found\n')
            r = res.get(nm)
            if r:
                for o in r.failed(): f.write('  ' + obltext(o) + '\n')
            f.write('\n')
    return path


def evidence(p, tier, seed, t0, res, names, ok, bad, undecided, alarms, used_known, exe, err, extract_err):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    nob = sum(len(r.obls) for r in res.values())
    disc = sum(1 for r in res.values() for o in r.obls if o[4] == 'proved')
    backends, kinds = {}, {}
    for r in res.values():
        for o in r.obls:
            kinds[o[0]] = kinds.get(o[0], 0) + 1
            if o[4] == 'proved': backends[str(o[5])] = backends.get(str(o[5]), 0) + 1
    fns = sorted({f for r in res.values() for f in r.fns if not f.split('::')[0].endswith('_lemmas')})
    trusted = sorted({t for r in res.values() for t in r.trusted})
    notes = sorted({t for r in res.values() for t in r.notes})
    cov = {
        'obligations': nob, 'discharged': disc,
        'checker_cmd': 'python3-vt /verif/run.py %s%s' % (p.id, ' --thorough' if tier == 'thorough' else ''),
        'trusted_base': ['vcg/ (verification-condition generator and sum normaliser of this repository)', 'z3 4.x', 'clang 18 AST',
                         'double arithmetic treated as real arithmetic, machine integers as mathematical integers (index and subtraction obligations are generated)'] +
                        ['model of: ' + t for t in trusted],
        'contracts': len(names), 'contracts_proved': sum(1 for n in names if n in res and res[n].ok),
        'functions_under_contract': fns,
        'obligations_by_kind': kinds, 'discharged_by_back_end': backends,
        'solver_queries': sum(r.queries for r in res.values()), 'solver_time_s': round(sum(r.solver_time for r in res.values()), 2),
        'assumed_contracts': sorted({k for r in res.values() for k in r.contracts if k != 'None'}),
        'files': [p.lemma] + list(p.srcs), 'notes': notes,
        'bounded_stand_ins': ['%s: %s' % (n, w.split('\n')[0][:200]) for n, w in undecided],
        'contract_executions_on_compiled_code': {n: v for n, v in ok.items()},
        'known_findings': used_known,
        'per_contract': {n: {'obligations': len(r.obls), 'discharged': sum(1 for o in r.obls if o[4] == 'proved'), 'undecided': r.unsupported, 'vacuous': r.vacuous,
                             'time_s': round(r.time, 2)} for n, r in res.items()},
        'samples': [{'contract': r.name, 'kind': o[0], 'obligation': o[3], 'function': o[1], 'line': o[2], 'result': o[4], 'back_end': str(o[5])[:200]}
                    for r in list(res.values())[:6] for o in r.obls[:2]],
    }
    if err: cov['replay_build_error'] = err[:500]
    if extract_err: cov['extraction_error'] = extract_err[:500]
    ev = {'property': p.id, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': ['real arithmetic instead of IEEE double rounding', 'no integer overflow', 'library models: ' + ', '.join(trusted)] + p.assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(alarms)}
    with open(os.path.join(HERE, 'evidence', p.id + '.json'), 'w') as f: json.dump(ev, f, indent=1, sort_keys=True)


if __name__ == '__main__':
    sys.exit(main())
