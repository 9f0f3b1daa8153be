#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--scenario NAME] : decide one property."""
import os, sys, json, time, subprocess, multiprocessing, argparse, tempfile, shutil, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
REPO = os.environ.get('VT_REPO', '/repo')
sys.path.insert(0, REPO)
PYPY = os.environ.get('VT_PY', '/opt/pvenv/bin/python')

ASSUME = [
    'arithmetic is over exact real/complex numbers, not IEEE-754 floats: rounding is outside every claim',
    'numpy structural operations (tensordot, dot, reshape, transpose, kron, trace, indexing) are numpy\'s own code run on object arrays',
    'LAPACK/ARPACK/ODE routines are modelled by their documented contract (see notes in coverage)',
    'floating constants written in the source are read as the decimal they display',
]


def con_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VT_REPO=REPO)
    e.pop('PYTHONPATH', None)
    return e


def start_concrete(jobs, tmp, tag):
    jf, of = os.path.join(tmp, tag + '.jobs.json'), os.path.join(tmp, tag + '.out.json')
    json.dump(jobs, open(jf, 'w'))
    p = subprocess.Popen([PYPY, '-W', 'ignore', os.path.join(HERE, 'vt', 'concrete.py'), jf, of], cwd=tmp, env=dict(con_env(), MPLCONFIGDIR=tmp),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    return p, of


def finish_concrete(p, of, timeout=600):
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        return None, 'concrete run timed out'
    if p.returncode != 0 or not os.path.exists(of):
        return None, 'concrete run failed: ' + out[-1500:]
    return json.load(open(of)), None


def run_concrete(jobs, tmp, tag, timeout=600):
    n = min(6, max(1, len(jobs) // 4)) if len(jobs) > 8 else 1
    parts = [jobs[i::n] for i in range(n)]
    ps = [start_concrete(j, tmp, '%s%d' % (tag, i)) for i, j in enumerate(parts)]
    res, err = [], None
    for p, of in ps:
        r, e = finish_concrete(p, of, timeout)
        if e:
            err = e
        else:
            res += r
    return res, err


STOP = multiprocessing.Value('d', 1e18)      # time after which no further goal is attempted (shared with the workers)


def blank(sc, params, idx, why):
    return {'scenario': sc['name'], 'params': params, 'paths': 0, 'goals': 0, 'decided': 0, 'violations': [], 'terms': 0, 'vars': 0,
            'decisions': 0, 'notes': [], 'samples': [], 'reached': False, 'solver': {}, 'wall': 0, 'functions': [], 'aborted': 0, 'forks': 0,
            'inconclusive': [why], 'idx': idx}


def worker(a):
    pid, idx, params, seed, tier, limit = a
    from vt import env, symenv, solve
    sc = env.SCEN[pid][idx]
    if time.time() > STOP.value:
        return blank(sc, params, idx, ('time', 'not attempted: time budget spent'))
    symenv.STOP = STOP
    if not os.environ.get('VT_LOUD'):
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)      # progress lines the repository writes
    solve.CROSS['on'] = tier == 'thorough' and os.environ.get('VT_CROSS', '1') == '1'
    try:
        from vt import trace
        trace.start(REPO)
        r = symenv.explore(sc, params, seed, tier, time.time() + limit)
        r['functions'] = trace.stop()
    except BaseException as e:
        r = blank(sc, params, idx, ('crash', '%r' % (e,), traceback.format_exc()[-2000:]))
    r['idx'] = idx
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--scenario')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-con', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VT_JOBS', '8')))
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid, tier = a.pid, a.tier
    from vt import stubs
    stubs.install()
    from vt import env
    scs = env.load_scenarios(pid)
    if not scs:
        print('no scenarios for', pid)
        return 2
    for m in list(env._SHORT.values()):      # import before forking
        try:
            __import__(m)
        except Exception as e:
            print('cannot import %s: %r' % (m, e))
            return 2
    for n, m in list(sys.modules.items()):
        if n.startswith('lib.'):
            stubs.prepare_module(m)
    insts, jobs = [], []
    for i, s in enumerate(scs):
        if a.scenario and a.scenario not in s['name']:
            continue
        ps = list(s['params']) + (list(s['thorough']) if tier == 'thorough' else [])
        for k, p in enumerate(ps):
            if s['sym']:
                insts.append((pid, i, p, seed, tier, s['timeout'] if tier == 'quick' else s['timeout'] * 12))
            if s['con'] and not a.no_con:
                q = {x: y for x, y in p.items() if x not in ('mode', 'real')}
                kinds = ('f',) if p.get('real', s['real']) else s['con_dtypes']
                for dt in kinds:
                    for rep in range(s['con_repeat'] if tier == 'quick' else 2 * s['con_repeat']):
                        jobs.append({'scenario': pid + ':' + s['name'], 'params': q, 'dtype': dt, 'seed': seed * 1000 + rep})
    tmp = tempfile.mkdtemp(prefix='vt_%s_' % pid)
    try:
        return decide(a, pid, tier, seed, scs, insts, jobs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(rs, scs, pid, seed, tmp, tag):
    """candidate violations -> the real code; -> (confirmed, unconfirmed, number of runs, error)"""
    jobs, meta = [], []
    for r in rs:
        sc = scs[r['idx']]
        for v in r['violations']:
            q = {x: y for x, y in r['params'].items() if x not in ('mode', 'real')}
            for w in (v.get('witnesses') or [{}]):
                for dt in (('f',) if r['params'].get('real', sc['real']) else sc['con_dtypes']):
                    for sd in ((seed,) if w else (seed, seed + 1, seed + 2)):
                        jobs.append({'scenario': pid + ':' + sc['name'], 'params': q, 'dtype': dt, 'seed': sd, 'values': w})
                        meta.append((r, v))
    outs, err = run_concrete(jobs, tmp, tag)
    n = min(6, max(1, len(jobs) // 4)) if len(jobs) > 8 else 1      # the partition run_concrete used
    order = [i for k in range(n) for i in list(range(len(jobs)))[k::n]]
    done = dict(zip(order, outs)) if not err else {}
    confirmed, unconfirmed, seen = [], [], set()
    for i, (r, v) in enumerate(meta):
        o = done.get(i)
        if o and o['status'] in ('fail', 'raised') and id(v) not in seen:
            seen.add(id(v))
            confirmed.append((r, v, jobs[i], o))
    for r, v in meta:
        if id(v) not in seen:
            seen.add(id(v))
            unconfirmed.append((r, v))
    return confirmed, unconfirmed, len(jobs), err


def decide(a, pid, tier, seed, scs, insts, jobs, tmp, t0):
    ncon = min(4, max(1, len(jobs) // 10))
    parts = [jobs[i::ncon] for i in range(ncon)] if jobs else []
    con = [start_concrete(j, tmp, 'val%d' % i) for i, j in enumerate(parts)]
    results, replayed = [], []
    quick = tier == 'quick'
    soft, hard = (t0 + 400, t0 + 560) if quick else (1e18, 1e18)
    STOP.value = soft
    # ---- known findings
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == pid]

    def is_known(scn, params, label):
        for k in known:
            if k['scenario'] == scn and all(params.get(x) == y for x, y in k.get('params', {}).items()) and (
                    label in k['labels'] or '*' in k['labels']):
                return k
        return None
    conres, conerr = [], None

    def collect(wait):
        """results of the validation processes that have ended; -> True if one shows a failure not listed as known"""
        nonlocal conerr
        for p, of in list(con):
            if not wait and p.poll() is None:
                continue
            con.remove((p, of))
            r, e = finish_concrete(p, of, max(30, min(600, t0 + 760 - time.time())) if quick else 6000)
            if e:
                conerr = e
            else:
                conres.extend(r)
        return any(o['status'] in ('fail', 'raised') and not is_known(o['scenario'].split(':')[1], o['params'], f[0])
                   for o in conres for f in (o.get('fails') or [('',)]))
    if insts:
        mp = multiprocessing.get_context('fork')
        pool = mp.Pool(min(a.j, len(insts)), maxtasksperchild=8)
        try:
            it = pool.imap_unordered(worker, insts, chunksize=1)
            got = 0
            while got < len(insts) and time.time() < hard:
                try:
                    r = it.next(timeout=5)
                except multiprocessing.TimeoutError:
                    if quick and STOP.value == soft and collect(False):
                        STOP.value = min(soft, time.time() + 60)     # a real run already fails: give the solver one more minute
                        hard = min(hard, STOP.value + 60)
                    continue
                got += 1
                results.append(r)
                if a.v:
                    print('%-34s %-50s paths=%d goals=%d/%d viol=%d inc=%d terms=%d %.1fs' % (
                        r['scenario'], json.dumps(r['params'])[:50], r['paths'], r['decided'], r['goals'], len(r['violations']),
                        len(r['inconclusive']), r['terms'], r['wall']), flush=True)
                    for v in r['violations'][:3]:
                        print('    VIOL', v['label'], v['what'][:300])
                        if v.get('tb'):
                            print('      ', v['tb'][-700:])
                    for v in r['inconclusive'][:2]:
                        print('    INC', v[:2], (v[2][-900:] if len(v) > 2 else ''))
                if r['violations'] and len(replayed) < 5:
                    c, u, n, e = replay([r], scs, pid, seed, tmp, 'rep%d_' % len(replayed))
                    replayed.append((r, c, u, n))
                    conerr = conerr or e
                    if quick and any(not is_known(x['scenario'], x['params'], v['label']) for x, v, _, _ in c):
                        break                                         # reproduced: the verdict is settled
            pool.terminate() if got < len(insts) else pool.close()
            if got < len(insts):
                seen = {(r['idx'], json.dumps(r['params'])) for r in results}
                settled = any(c for _, c, _, _ in replayed)
                for (_, i, p, _, _, _) in insts:
                    if (i, json.dumps(p)) not in seen and not settled:
                        results.append(blank(scs[i], p, i, ('time', 'no answer within the time budget')))
        finally:
            pool.terminate()
            pool.join()
    settled = quick and any(not is_known(x['scenario'], x['params'], v['label']) for _, c, _, _ in replayed for x, v, _, _ in c)
    if settled:
        collect(False)
        for p, of in con:
            p.kill()
            p.communicate()
    else:
        collect(True)
    confirmed, unconfirmed, nrep = [], [], 0
    for _, c, u, n in replayed:
        confirmed, unconfirmed, nrep = confirmed + c, unconfirmed + u, nrep + n
    rest = [r for r in results if r['violations'] and not any(r is x[0] for x in replayed)]
    if rest and not settled:
        c, u, n, e = replay(rest, scs, pid, seed, tmp, 'rest')
        confirmed, unconfirmed, nrep = confirmed + c, unconfirmed + u, nrep + n
        conerr = conerr or e
    # ---- encoding validation
    validated = sum(1 for o in conres if o['status'] == 'ok')
    skipped = sum(1 for o in conres if o['status'] == 'skip')
    mism = [o for o in conres if o['status'] in ('fail', 'raised')]
    scen_err = [o for o in conres if o['status'] == 'scenario-error']
    hit, viol = {}, []
    for r, v, j, o in confirmed:
        k = is_known(r['scenario'], r['params'], v['label'])
        if k:
            hit[k['id']] = k
        else:
            viol.append(('solver', r['scenario'], r['params'], v['label'], v['what'], j, o))
    for o in mism:
        scn = o['scenario'].split(':')[1]
        ks = [is_known(scn, o['params'], f[0]) for f in o['fails']]
        for k in ks:
            if k:
                hit[k['id']] = k
        bad = [f for f, k in zip(o['fails'], ks) if not k]
        if bad:
            if any(x[1] == scn and x[2] == o['params'] for x in viol):
                continue
            viol.append(('replay of a validation trace', scn, o['params'], bad[0][0], bad[0][1],
                         {'scenario': o['scenario'], 'params': o['params'], 'dtype': o['dtype'], 'seed': o['seed'], 'values': {}}, o))
    for k in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    inc = []
    for r in results:
        for x in r['inconclusive']:
            inc.append((r['scenario'], r['params'], x[:2]))
        if not r['reached'] and not r['violations'] and not r['inconclusive']:
            inc.append((r['scenario'], r['params'], ('vacuous', 'no feasible path reached a goal')))
    for r, v in unconfirmed:
        if is_known(r['scenario'], r['params'], v['label']):
            continue
        if any(x[1] == r['scenario'] for x in viol):
            continue
        inc.append((r['scenario'], r['params'], ('not reproduced', v['label'] + ': ' + v['what'][:200])))
    for o in scen_err:
        inc.append((o['scenario'], o['params'], ('scenario-error', o['fails'][0][1])))
    if conerr:
        inc.append(('concrete', {}, ('error', conerr)))
    if jobs and not validated and not viol and not hit and not settled:
        inc.append(('validation', {}, ('vacuous', 'no validation trace completed')))
    sol = {}
    for r in results:
        for k, v in r['solver'].items():
            sol[k] = sol.get(k, 0) + v
    funcs = sorted({f for r in results for f in r['functions']})
    samples = []
    for r in results:
        for s in r['samples'][:1]:
            if len(samples) < 6:
                samples.append({'scenario': r['scenario'], 'params': r['params'], 'query': s[:600]})
    cov = {
        'explanation': 'symbolic execution of the real functions; every goal decided by an SMT query for all values of the listed symbolic inputs, within the bounds',
        'states': sum(r['paths'] for r in results), 'transitions': sum(r['decisions'] for r in results) + sum(r['goals'] for r in results),
        'traces_validated_against_impl': validated, 'samples': samples or [{'note': 'no goal was proved in this run'}],
        'functions_encoded': funcs, 'scenario_instances': len(results),
        'bounds': [{'scenario': r['scenario'], 'params': r['params'], 'paths': r['paths'], 'symbolic_variables': r['vars'], 'goals': r['goals'],
                    'goals_proved': r['decided'], 'polynomial_terms': r['terms']} for r in sorted(results, key=lambda r: (r['scenario'], json.dumps(r['params'])))],
        'queries': sol.get('queries', 0), 'queries_unsat': sol.get('unsat', 0), 'queries_sat': sol.get('sat', 0), 'queries_unknown': sol.get('unknown', 0),
        'feasibility_queries': sol.get('feas_queries', 0), 'solver_s': round(sol.get('solver_s', 0.0), 3),
        'hypothesis_instances': sol.get('hyp_instances', 0), 'goals': sum(r['goals'] for r in results), 'goals_proved': sum(r['decided'] for r in results),
        'cross_checked_with_cvc5': sum(r.get('cross', {}).get('agree', 0) for r in results),
        'notes': sorted({n for r in results for n in r['notes']}), 'inconclusive': [list(map(str, x)) for x in inc[:20]],
        'validation_runs_skipped': skipped, 'counterexamples_replayed': nrep, 'known_findings': sorted(hit),
    }
    ev = {'property': pid, 'tier': 'thorough' if tier == 'thorough' else 'quick', 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not a.scenario:
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d instances, %d paths, %d/%d goals proved, %d queries (%.1f s solver), %d validated runs, %d functions, %.1f s' % (
        pid, len(results), cov['states'], cov['goals_proved'], cov['goals'], cov['queries'], cov['solver_s'], validated, len(funcs), time.time() - t0))
    if viol:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        for n, (how, scn, params, label, what, j, o) in enumerate(viol[:8]):
            f = os.path.join(d, '%s_%s_%d.json' % (pid, scn, n))
            json.dump({'found_by': how, 'label': label, 'what': what, 'job': j, 'observed': o}, open(f, 'w'), indent=1, default=str)
            print('  %s %s goal "%s": %s | real code: %s' % (scn, json.dumps(params), label, str(what)[:300], str(o['fails'][:2])[:300]))
            if n == 0:
                print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    if inc:
        print('INCONCLUSIVE:')
        for x in inc[:15]:
            print('  ', str(x)[:400])
        # nothing refuted; report what could not be decided, and give no verdict only if most of it could not
        und = len(inc)
        if cov['goals_proved'] < max(1, und) or conerr or scen_err:
            return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
