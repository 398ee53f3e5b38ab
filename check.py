#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property>: extract the current sources of /repo, verify every
contract of the property (deciding step), run the bounded stand-ins / replay
harness of the property, write evidence/<property>.json."""
import sys, os, time, json, tempfile, shutil, importlib, multiprocessing, subprocess, traceback, signal, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.setrecursionlimit(200000)
from qmv import ir, build, registry, props
TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CONTRACT_TIMEOUT = 420 if TIER == 'thorough' else 280

def verify_one(mod, dem, q, scale=1.0):
    """in a forked child"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    from qmv import dsl
    from qmv.exec import Engine
    from qmv.core import Unsupported
    from qmv.prove import STATS, SCALE
    SCALE[0] = scale
    t = time.time()
    c = registry.ALL[dem]
    eng = Engine(mod, {k: x for k, x in registry.ALL.items() if getattr(x, 'cname', None)}, timeout=20000 if TIER == 'thorough' else 8000)
    r = {'contract': dem, 'kind': c.kind}
    try:
        if c.kind == 'lemma':
            c.prove(eng); r['reach'] = 1
            r['vacuous'] = False
        else:
            ctx, reach, nr = dsl.verify(eng, c)
            r['reach'] = reach; r['vacuous'] = (nr > 0 and reach == 0) or (getattr(eng, 'vacuity', '') == 'proved')
            r['expects_return'] = ctx.thr is None
        r['status'] = 'done'
    except Unsupported as e:
        r['status'] = 'unsupported'; r['error'] = '%s [at %s]' % (e, eng.where)
    except dsl.ContractError as e:
        r['status'] = 'contract-error'; r['error'] = str(e)
    except MemoryError:
        r['status'] = 'resource'; r['error'] = 'memory limit'
    except Exception as e:
        r['status'] = 'internal'; r['error'] = '%s [at %s]\n%s' % (e, eng.where, traceback.format_exc()[-2500:])
    r['obls'] = [(o.kind, o.where, o.text, o.status, round(o.time, 3), o.model) for o in eng.obls]
    r['assumptions'] = sorted(eng.assumptions); r['inlined'] = sorted(eng.inlined); r['called'] = sorted(eng.called)
    r['wall'] = time.time() - t; r['queries'] = STATS.n; r['solver_s'] = STATS.t
    r['loops'] = len(eng.loopinfo)
    q.send(r); q.close()

def run_contracts(mod, dems, jobs=8, scale=1.0):
    ctx = multiprocessing.get_context('fork')
    todo = list(dems); running = []; out = []
    while todo or running:
        while todo and len(running) < jobs:
            d = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=verify_one, args=(mod, d, b, scale)); p.start(); b.close()
            running.append((p, a, d, time.time()))
        nxt = []
        for p, a, d, t0 in running:
            r = None
            if a.poll(0):
                try: r = a.recv()
                except EOFError: r = {'contract': d, 'status': 'resource', 'error': 'verifier process died', 'obls': [], 'wall': time.time() - t0}
                p.join()
            elif not p.is_alive():
                if a.poll(0): nxt.append((p, a, d, t0)); continue
                r = {'contract': d, 'status': 'resource', 'error': 'verifier process died', 'obls': [], 'wall': time.time() - t0}
            elif time.time() - t0 > CONTRACT_TIMEOUT * scale:
                p.kill(); p.join()
                r = {'contract': d, 'status': 'resource', 'error': 'time limit', 'obls': [], 'wall': time.time() - t0}
            if r is None: nxt.append((p, a, d, t0))
            else: out.append(r)
        running = nxt
        time.sleep(0.02)
    return out

def harness(pid, work):
    """bounded stand-ins and counterexample replay: the contracts executed on concrete inputs against the real code"""
    src = os.path.join(HERE, 'harness', pid + '.cpp')
    if not os.path.exists(src): return None
    txt = open(src).read()
    m = re.search(r'^// UNITS: (.*)$', txt, re.M)
    units = m.group(1).split() if m else []
    san = ['-fsanitize=address,undefined', '-fno-sanitize=float-divide-by-zero,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] if '// NOSAN' not in txt else []
    mo = re.search(r'^// OPT: (.*)$', txt, re.M)
    opt = mo.group(1).split() if mo else ['-O1']
    t0 = time.time()
    jobs = []
    objs = []
    for i, u in enumerate(units + [src]):
        full = u if u.startswith('/') else os.path.join(build.REPO, u)
        o = os.path.join(work, 'h%d.o' % i); objs.append(o)
        isx = full.endswith(('.cpp', '.cc'))
        std = ['-std=c++11'] if u == src else (['-std=c++98'] if isx else ['-std=gnu89'])
        ext = '/ext/' in full
        cmd = ['g++' if isx else 'gcc'] + std + opt + ['-g', '-w', '-I' + os.path.join(HERE, 'harness')] + ([] if ext and 'clapack' in full else san) + build.DEFS + build.incs() + ['-c', full, '-o', o]
        jobs.append(cmd)
    import concurrent.futures
    exe = os.path.join(work, 'harness')
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(build.run, jobs))
        build.run(['g++'] + san + objs + ['-lpthread', '-o', exe])
    except build.BuildError as e:
        # the library interface the bounded part is written against has changed
        return {'rc': 0, 'out': str(e), 'build_s': time.time() - t0, 'run_s': 0.0, 'units': units, 'fails': [], 'summary': None, 'nobuild': str(e)[-3000:]}
    tb = time.time() - t0
    env = dict(os.environ); env['VERIF_SEED'] = str(SEED); env['VERIF_TIER'] = TIER
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:detect_container_overflow=1:max_malloc_fill_size=1048576:malloc_fill_byte=127'; env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    lim = 500 if TIER == 'thorough' else 240
    try:
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=work, timeout=lim)
        out = p.stdout.decode('utf8', 'replace'); rc = p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT: the call did not return within %d s' % lim; rc = -999
    h = {'rc': rc, 'out': out, 'build_s': tb, 'run_s': time.time() - t0 - tb, 'units': units}
    h['fails'] = re.findall(r'^FAILCASE (.*)$', out, re.M)
    m = re.search(r'^SUMMARY (.*)$', out, re.M)
    h['summary'] = json.loads(m.group(1)) if m else None
    return h

def main():
    pid = sys.argv[1]
    t0 = time.time()
    P = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix='qmv-%s-' % pid)
    try:
        rc = check(pid, P, work, t0)
    except build.BuildError as e:
        print('ERROR: /repo does not build for extraction:\n' + str(e)[-3000:]); rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(pid, P, work, t0):
    for m in P['modules']: importlib.import_module('contracts.' + m)
    mods = [sys.modules['contracts.' + m] for m in P['modules']]
    units = []
    for m in mods:
        for u in m.UNITS:
            if u not in units: units.append(u)
    for u in P.get('units', []):
        if u not in units: units.append(u)
    results = []; missing = []; order = []
    if units:
        text = build.module_text(units, work)
        mod = ir.Module(text); del text
        dem = ir.demangle(list(mod.funcs)); inv = {v: k for k, v in dem.items()}
        for c in registry.ALL.values(): c.cname = inv.get(c.dem)
        for d, c in registry.ALL.items():
            if pid not in c.props: continue
            if c.cname is None and c.kind != 'lemma': missing.append((d, c.optional)); continue
            order.append(d)
        order.sort(key=lambda d: -registry.ALL[d].weight)
        results = run_contracts(mod, order)
        # an obligation the solver gave up on is retried with longer time limits before it counts as failed
        again = [r['contract'] for r in results if r['status'] in ('done', 'resource') and (r['status'] == 'resource' or any(o[3] != 'proved' for o in r['obls']))]
        if again and len(again) <= 6 and time.time() - t0 < 150:
            r2 = {r['contract']: r for r in run_contracts(mod, again, scale=1.6)}
            results = [r2[r['contract']] if r['contract'] in r2 and r2[r['contract']]['status'] == 'done' else r for r in results]
        results.sort(key=lambda r: order.index(r['contract']))
    h = harness(pid, work)
    # ------------------------------------------------------------ verdict
    failed = []
    nob = ndis = 0
    for r in results:
        bad = [o for o in r['obls'] if o[3] != 'proved']
        nob += len(r['obls']); ndis += len(r['obls']) - len(bad)
        if r['status'] != 'done':
            nob += 1
            failed.append((r['contract'], 'the verification conditions of this contract could not be established: %s: %s' % (r['status'], r.get('error'))))
        for o in bad:
            failed.append((r['contract'], 'obligation %s at %s: %s -> %s\n%s' % (o[0], o[1], o[2], o[3], ('counter-model: ' + o[5]) if o[5] else '')))
        if r['status'] == 'done' and (r.get('vacuous') or not r['obls']):
            failed.append((r['contract'], 'vacuous: no reachable return state or no obligation generated'))
    must = [d for d, opt in missing if not opt]
    known = load_known(pid)
    hv = []; kf = []
    if h is not None:
        for f in h['fails']:
            k = [x for x in known if x in f]
            (kf if k else hv).append(f)
        if h['rc'] != 0 and not h['fails']:
            hv.append('harness run aborted (rc %d): memory error, undefined behaviour or non-termination in the code under test' % h['rc'])
        if h.get('nobuild'):
            failed.append(('(bounded part)', 'the concrete executions of the contracts do not compile against the current interface\n' + h['nobuild']))
        elif h['rc'] == 0 and h['summary'] is None:
            print('ERROR: harness gave no summary'); return 2
    for d in must: failed.append((d, 'the function under contract is missing from the code: its obligations cannot be discharged'))
    ev = evidence(pid, P, results, missing, h, nob, ndis, failed, hv, t0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for x in kf: print('KNOWN-FINDING: property=%s %s' % (pid, x))
    for d, opt in missing: print('note: contract function not present (callers are verified by inlining): ' + d)
    print('%s: %d contracts/lemmas, %d obligations, %d discharged; harness: %s; %.1f s' % (pid, len(results), nob, ndis,
          json.dumps(h['summary']) if h and h['summary'] else 'none', time.time() - t0))
    if hv or failed:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', pid + '.txt')
        with open(path, 'w') as f:
            f.write('property %s\n' % pid)
            for c, e in failed: f.write('\nFAILED OBLIGATION in contract of %s\n%s\n' % (c, e))
            if hv:
                f.write('\nFAILING INPUTS (executed against the real code; re-run: VERIF_SEED=%d python3 %s %s)\n' % (SEED, os.path.join(HERE, 'check.py'), pid))
                for x in hv: f.write(x + '\n')
                f.write('\nharness output:\n' + h['out'][-6000:] + '\n')
        for c, e in failed[:6]: print('failed: %s: %s' % (c, e.split('\n')[0][:300]))
        for x in hv[:4]: print('failing input: ' + x[:300])
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if hv else ' no-failing-input-found'))
        return 1
    return 0

def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid: out.append(m.group(2).split(' :: ')[0])
    return out

def evidence(pid, P, results, missing, h, nob, ndis, failed, hv, t0):
    assum = set(props.GLOBAL_ASSUMPTIONS); inl = set(); under = []
    for r in results:
        assum |= set(r.get('assumptions', []))
        inl |= set(r.get('inlined', []))
        for d in r.get('called', []):
            for c in registry.ALL.values():
                if getattr(c, 'trusted', None) and d in (c.dem, c.cname): assum.add('assumed contract of %s: %s' % (c.dem, c.trusted))
        kinds = {}
        for o in r['obls']: kinds[o[0]] = kinds.get(o[0], 0) + 1
        under.append({'contract': r['contract'], 'status': r['status'] if not [o for o in r['obls'] if o[3] != 'proved'] else 'failed', 'obligations': len(r['obls']),
                      'by_kind': kinds, 'loops_summarised': r.get('loops'), 'solver_queries': r.get('queries'), 'solver_s': round(r.get('solver_s', 0), 2), 'wall_s': round(r['wall'], 2),
                      'callees_by_contract': r.get('called', [])})
    from qmv.prove import LEMMAS
    cov = {}
    level = 'proof' if results else 'exploration'
    if results:
        cov.update({'obligations': nob, 'discharged': ndis, 'checker_cmd': 'python3 /verif/check.py %s (VC generation over LLVM IR extracted by clang-18 from /repo; back end: z3 %s)' % (pid, z3v()),
            'trusted_base': ['clang-18 front end and opt sroa/simplifycfg (source to IR)', '/verif/qmv VC generator (symbolic execution, loop summaries, memory model)', 'z3 ' + z3v()] + LEMMAS + P.get('trusted', []),
            'functions_under_contract': under, 'functions_inlined_into_their_callers': sorted(inl),
            'contracts_without_function': [d for d, _ in missing],
            'solver_s_total': round(sum(r.get('solver_s', 0) for r in results), 2)})
    if h is not None and h['summary'] is not None:
        s = dict(h['summary'])
        b = {'label': 'bounded: executed contract on concrete inputs, never counted as proved', 'bounds': s.pop('bounds', ''), 'build_s': round(h['build_s'], 1), 'run_s': round(h['run_s'], 1)}
        cov['evaluations'] = s.pop('evaluations', 0); cov['distinct_nontrivial'] = s.pop('distinct', 0)
        cov['rule'] = s.pop('rule', ''); cov['samples'] = s.pop('samples', [])
        b.update(s); cov['bounded_stand_in'] = b
    elif not results:
        cov['evaluations'] = 0
    cov['not_proved'] = P.get('not_proved', [])
    return {'property': pid, 'tier': TIER, 'seed': SEED, 'level': P.get('level', level), 'coverage': cov,
            'assumptions': sorted(assum) + P.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(failed) + len(hv)}

def z3v():
    import z3
    return z3.get_version_string()

if __name__ == "__main__": main()
