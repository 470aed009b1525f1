#!/usr/bin/env python3-vt
"""check.py PROPERTY   decide a property by symbolic execution of the code compiled from /repo.

exit 0: held on every path within the bounds; exit 1: VIOLATION, reproduced natively;
exit 2: no answer (unsupported code, time limit, counterexample that does not reproduce)."""
import os, sys, time, json, re, subprocess, tempfile, multiprocessing as mp, signal, traceback, shutil, resource
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
import props as P
from engine import terms as X, models as M, symex, llvmir

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
LIMIT = float(os.environ.get('SYM_LIMIT', '780' if TIER == 'quick' else '7200'))
T0 = time.time()
SLICE = 8.0


class Worker:
    """one symbolic engine per process (forked after the IR is parsed)"""
    eng = None


def init_engine(ll, modelled, groups=M.DEFAULT):
    e = symex.Engine(open(ll).read(), {}, {'seed': SEED})
    for mangled, dem in modelled.items():
        f = M.find(dem, mangled, groups)
        e.models['@' + mangled] = f
        e.models['@"%s"' % mangled] = f
    return e


def alarm(sig, frm):
    raise X.Unsupported('time limit')


def task(a):
    scen, work, opts = a
    e = Worker.eng
    e.opts.update(opts)
    if os.environ.get('SYM_DEBUG'):
        e.opts['trace_oob'] = 1
    e.violations, e.nchecks, e.closed, e.reach = [], {}, {'normalised': 0, 'solver': 0}, {}
    q0, t0 = e.zc.queries, e.zc.time
    st0 = dict(e.zc.stats)
    kinds = {}
    paths = 0
    start = time.time()
    left = max(1.0, LIMIT - (time.time() - T0))
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, left)
    err = None
    log = []
    try:
        for kind, msg in e.explore(lambda: e.call(scen), max_paths=200000, work=work):
            paths += 1
            kinds[kind] = kinds.get(kind, 0) + 1
            if len(log) < 40:
                log.append((kind, msg, len(e.trace), len(e.pc)))
            if time.time() - start > SLICE:
                break
            if e.violations and kind in ('violation', 'panic', 'oob'):
                break
    except X.Unsupported as x:
        err = 'unsupported: %s' % x
        if os.environ.get('SYM_DEBUG'):
            err += '\n' + traceback.format_exc()
    except RecursionError:
        err = 'recursion limit'
    except Exception:
        err = traceback.format_exc()
    signal.setitimer(signal.ITIMER_REAL, 0)
    enc = {n: c for n, c in e.encoded.items()}
    return {'scen': scen, 'left': work if not err else [], 'paths': paths, 'kinds': kinds, 'viol': e.violations, 'checks': e.nchecks,
            'closed': e.closed, 'reach': e.reach, 'queries': e.zc.queries - q0, 'ztime': e.zc.time - t0,
            'stats': {k: v - st0[k] for k, v in e.zc.stats.items()}, 'err': err, 'enc': enc, 'log': log,
            'dt': time.time() - start, 'notes': []}


def run_tasks(scens, ll, modelled, jobs, groups=M.DEFAULT):
    Worker.eng = init_engine(ll, modelled, groups)
    res = {s: {'paths': 0, 'kinds': {}, 'viol': [], 'checks': {}, 'closed': {'normalised': 0, 'solver': 0}, 'reach': {}, 'queries': 0,
               'ztime': 0.0, 'stats': {}, 'err': None, 'log': [], 'dt': 0.0} for s in scens}
    enc = {}
    ctx = mp.get_context('fork')
    pend = [(s, [[]], {}) for s in scens]
    with ctx.Pool(jobs) as pool:
        live = []
        stop = set()
        while pend or live:
            while pend and len(live) < jobs:
                t = pend.pop(0)
                if t[0] in stop:
                    continue
                live.append(pool.apply_async(task, (t,)))
            nl = []
            for r in live:
                if not r.ready():
                    nl.append(r)
                    continue
                o = r.get()
                s = res[o['scen']]
                for k in ('paths', 'queries', 'ztime', 'dt'):
                    s[k] += o[k]
                for k in ('kinds', 'checks', 'closed', 'reach', 'stats'):
                    for a, b in o[k].items():
                        s[k][a] = s[k].get(a, 0) + b
                s['viol'] += o['viol']
                s['log'] += o['log'][:40]
                if o['err'] and not s['err']:
                    s['err'] = o['err']
                enc.update(o['enc'])
                if s['viol'] or s['err']:
                    stop.add(o['scen'])
                else:
                    w = o['left']
                    if w:
                        # spread the unexplored prefixes
                        n = min(len(w), jobs)
                        for i in range(n):
                            pend.append((o['scen'], w[i::n], {}))
            live = nl
            time.sleep(0.01)
    return res, enc


def replay(exe, scen, values, tries, tmp):
    """-> (reproduced line or None, path of the values file)"""
    f = os.path.join(tmp, scen + '.values')
    for vi, v in enumerate(values):
        open(f, 'w').write(''.join('%s %s\n' % (k, x if x else '') for k, x in v.items() if x != ''))
        for seed in range(1, tries + 1):
            env = dict(os.environ, SYM_VALUES=f, SYM_SEED=str(seed), RUST_BACKTRACE='0')
            try:
                p = subprocess.run([exe, scen], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=20, text=True, errors='replace')
            except subprocess.TimeoutExpired:
                return 'does not terminate', v, seed
            m = re.search(r'^REPLAY-VIOLATION (.*)', p.stdout, re.M)
            if m:
                return m.group(1), v, seed
            if p.returncode not in (0, 77, 78):
                return 'crash, exit status %d' % p.returncode, v, seed
    return None, None, None


def known(prop):
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) scenario=(\S+) check=(.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    spec = P.PROPS.get(prop) or dict(scenarios=[], explain='', bounds='')
    scens = spec['scenarios'] + (spec.get('thorough', []) if TIER == 'thorough' else [])
    if len(sys.argv) > 2:
        scens = sys.argv[2:]
    jobs = int(os.environ.get('SYM_JOBS', '8'))
    lines = []

    def say(s):
        print(s, flush=True)
    code = 0
    nviol = 0
    ev = None
    try:
        bc, exe = build.build_dil() if P.is_dil(scens) else build.build_harness()
    except build.BuildError as e:
        say('ERROR property=%s build failed\n%s' % (prop, e))
        return 2
    t_build = time.time() - T0
    tmp = tempfile.mkdtemp(prefix='sym-', dir=build.work_dir())
    try:
        res, enc, modelled, t_ext = {}, {}, {}, 0.0
        parts = {}
        for s in scens:
            parts.setdefault(P.groups_of(s), []).append(s)
        for groups, ss in parts.items():
            ll = os.path.join(tmp, 'prog%d.ll' % len(res))
            t0 = time.time()
            try:
                mod = build.extract(bc, ss, ll, lambda d, n: M.find(d, n, groups) is not None)
            except build.BuildError as e:
                say('ERROR property=%s extraction failed\n%s' % (prop, e))
                return 2
            t_ext += time.time() - t0
            r1, e1 = run_tasks(ss, ll, mod, jobs, groups)
            res.update(r1)
            enc.update(e1)
            modelled.update(mod)
        dm = build.demangle([n.strip('@').strip('"') for n in enc])
        fns = sorted({M.norm(x) for x in dm.values()})
        repo_fns = [f for f in fns if re.search(r'\b(latke|saber|harness|latke_sym)\b', f.split('<')[0] + f) and not f.startswith('latke_sym')]
        total = {'paths': 0, 'queries': 0, 'ztime': 0.0, 'normalised': 0, 'solver': 0}
        vac = []
        errs = []
        ev_viol = []
        knw = known(prop)
        for s in scens:
            r = res[s]
            total['paths'] += r['paths']
            total['queries'] += r['queries']
            total['ztime'] += r['ztime']
            total['normalised'] += r['closed']['normalised']
            total['solver'] += r['closed']['solver']
            say('%-28s paths=%d %s checks=%d (normalised %d, solver %d) queries=%d solver=%.1fs time=%.1fs reach=%s%s' % (
                s, r['paths'], r['kinds'], sum(r['checks'].values()), r['closed']['normalised'], r['closed']['solver'], r['queries'], r['ztime'], r['dt'],
                sorted(r['reach'].items()), ' ERR ' + r['err'] if r['err'] else ''))
            if os.environ.get('SYM_LOG'):
                for l in r['log']:
                    say('   %s' % (l,))
            seen = set()
            for v in r['viol']:
                if v['check'] in seen:
                    continue
                seen.add(v['check'])
                got, vals, seed = replay(exe, s, v['values'], 48, tmp)
                if got is None:
                    others = [w for w in r['viol'] if w['check'] == v['check'] and w is not v][:6]
                    for w in others:
                        got, vals, seed = replay(exe, s, w['values'], 16, tmp)
                        if got:
                            break
                if got is None:
                    errs.append('%s: counterexample for "%s" does not reproduce (%s)' % (s, v['check'], v['notes']))
                    if os.environ.get('SYM_LOG'):
                        say(json.dumps(v['values'][:1]))
                    continue
                key = (s, re.sub(r' at .*$', '', got))
                if any(k[0] == s and got.startswith(k[1]) for k in knw):
                    say('KNOWN-FINDING: property=%s %s: %s' % (prop, s, got))
                    continue
                nviol += 1
                rp = os.path.join(ROOT, 'evidence', 'replay-%s-%s.json' % (prop, s))
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                json.dump({'property': prop, 'scenario': s, 'check': v['check'], 'observed': got, 'values': vals, 'rng_seed': seed,
                           'how': 'write lines "name hex" to F; SYM_VALUES=F SYM_SEED=%d latke-sym %s' % (seed, s)}, open(rp, 'w'), indent=1)
                ev_viol.append({'scenario': s, 'check': v['check'], 'observed': got})
                say('VIOLATION property=%s replay=%s' % (prop, rp))
                say('  %s: %s (solver: %s)' % (s, got, v['check']))
                break
            if r['err']:
                errs.append('%s: %s' % (s, r['err']))
            elif not r['viol']:
                for lab in spec.get('reach', {}).get(s, P.REACH.get(s, [])):
                    if not r['reach'].get(lab):
                        vac.append('%s never reaches "%s"' % (s, lab))
                if not r['reach'] and not spec.get('noreach'):
                    vac.append('%s reaches no witness' % s)
        for x in errs:
            say('ERROR property=%s %s' % (prop, x))
        for x in vac:
            say('ERROR property=%s vacuous: %s' % (prop, x))
        code = 1 if nviol else (2 if errs or vac else 0)
        wall = time.time() - T0
        ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': spec.get('level', 'other'), 'wall_s': round(wall, 1), 'violations': nviol,
              'assumptions': P.ASSUME_COMMON + spec.get('assumptions', []),
              'coverage': {
                  'explanation': spec['explain'],
                  'bounds': spec['bounds'],
                  'outside_bounds': spec.get('outside', ''),
                  'scenarios': {s: {'paths': res[s]['paths'], 'path_ends': res[s]['kinds'], 'assertions': res[s]['checks'],
                                    'assertions_closed_by_normalisation': res[s]['closed']['normalised'], 'assertions_closed_by_z3': res[s]['closed']['solver'],
                                    'queries': res[s]['queries'], 'query_results': res[s]['stats'], 'solver_s': round(res[s]['ztime'], 2),
                                    'reachability_witnesses': res[s]['reach'], 'error': res[s]['err']} for s in scens},
                  'paths': total['paths'], 'queries_discharged': total['queries'], 'solver_s': round(total['ztime'], 2),
                  'obligations': total['normalised'] + total['solver'], 'obligations_by_normalisation': total['normalised'], 'obligations_by_z3': total['solver'],
                  'functions_encoded': len(fns), 'repo_functions_encoded': repo_fns[:400],
                  'functions_modelled': sorted({M.norm(d) for d in modelled.values() if not re.search('panick|alloc', d)})[:200],
                  'violations': ev_viol, 'errors': errs + vac,
                  'build_s': round(t_build, 1), 'extract_s': round(t_ext, 1)}}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
        say('%s property=%s paths=%d queries=%d solver=%.1fs build=%.0fs extract=%.0fs wall=%.0fs' % (
            {0: 'HELD', 1: 'BROKEN', 2: 'NO-ANSWER'}[code], prop, total['paths'], total['queries'], total['ztime'], t_build, t_ext, wall))
        return code
    finally:
        if not os.environ.get('SYM_KEEP'):
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
