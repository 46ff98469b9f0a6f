#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> : decides one property on the current tree of /repo."""
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--thorough' in sys.argv:
    TIER = 'thorough'
BUDGET = {'quick': dict(trials=400, seconds=8, solver=20, search=25, solve_seconds=200, total=420),
          'thorough': dict(trials=20000, seconds=240, solver=120, search=120, solve_seconds=2400, total=6000)}[TIER if TIER in ('quick', 'thorough') else 'quick']

DEADLINE = time.time() + BUDGET['total']


def work(key, pid, conn):
    """prove one unit (child process)"""
    from concurrent.futures import ThreadPoolExecutor
    from pydv import contract, symh, solve
    import contracts
    contracts.load(pid)
    u = {x.key: x for x in contract.UNITS[pid]}[key]
    t0 = time.time()
    s = symh.Session(**{k: u.kw[k] for k in ('feas_ms', 'depth_limit', 'max_paths', 'feas_nlsat') if k in u.kw})
    symh.explore(u.f, s, max(5, min(u.kw.get('max_seconds', 240), DEADLINE - time.time())))
    t1 = time.time()
    out = []
    fails = {}
    budget = u.kw.get('timeout', BUDGET['solver'])

    def one(ob):
        t = time.time()
        if fails.get(ob.name, 0) >= 3:
            ob.status, ob.backend = 'unknown', 'skipped after 3 failures of the same obligation'
            return ob
        ob.status, ob.backend = solve.prove(ob.assumptions, ob.goal, ob.sqrt_defs, budget, u.kw.get('quick_ms', 400))
        ob.seconds = time.time() - t
        if ob.status != 'proved':
            fails[ob.name] = fails.get(ob.name, 0) + 1
        return ob
    limit = u.kw.get('solve_seconds', BUDGET['solve_seconds'])
    late = 0
    for ob in s.obs:
        if time.time() - t1 > limit or time.time() > DEADLINE:
            ob.status, ob.backend = 'unattempted', 'solver time for the unit exhausted'
            late += 1
            continue
        one(ob)
    if late:
        s.oor.append('solver time exhausted: %d obligations not attempted' % late)
    models = 0
    for ob in s.obs:
        m = None
        if ob.status in ('sat', 'unknown') and models < 6 and 'skipped' not in (ob.backend or '') and time.time() < DEADLINE:
            models += 1
            m = solve.model_of(ob.assumptions, ob.goal, ob.inputs, 8)
        out.append(dict(name=ob.name, kind=ob.kind, line=ob.line, status=ob.status, backend=ob.backend,
                        seconds=round(ob.seconds, 3), model=m, path=ob.path,
                        smt2=solve.smt2(ob.assumptions, ob.goal)[:20000] if ob.status != 'proved' and models <= 6 else None))
    conn.send(dict(key=key, obligations=out, trivial=s.trivial, oor=s.oor, reached=s.reached, stats=s.stats,
                   assumptions=sorted(s.assume_used), contracts=sorted(s.contracts), calls=s.calls,
                   stub_calls=s.stub_calls, loops=sorted(s.loops_cut), explore_s=round(t1 - t0, 2),
                   solve_s=round(time.time() - t1, 2)))
    conn.close()


def run_units(keys, pid, maxpar=6):
    timeout = BUDGET['total'] + 100
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    todo, live, res = list(keys), [], {}
    while todo or live:
        while todo and len(live) < maxpar:
            k = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(k, pid, b))
            p.start()
            b.close()
            live.append((k, p, a, time.time()))
        for item in list(live):
            k, p, a, t = item
            if a.poll(0.02):
                try:
                    res[k] = a.recv()
                except EOFError:
                    res[k] = dict(key=k, crashed=True)
                p.join()
                live.remove(item)
            elif time.time() > DEADLINE + 60:
                p.kill()
                p.join()
                res[k] = dict(key=k, crashed=True, why='timeout')
                live.remove(item)
    return res


def concrete(pid, tasks, seed=SEED):
    timeout = max(30, DEADLINE + 240 - time.time())
    d = tempfile.mkdtemp(prefix='pydvc')
    job, out = os.path.join(d, 'job.json'), os.path.join(d, 'out.json')
    json.dump(dict(pid=pid, tasks=tasks, seed=seed), open(job, 'w'))
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=REPO, OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', VERIF_REPO=REPO)
    p = subprocess.Popen([VENV, os.path.join(HERE, 'pydv', 'concrete.py'), job, out], env=env, cwd=d,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def done():
        try:
            o, e = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
        r = None
        if os.path.exists(out):
            r = json.load(open(out))
        subprocess.run(['rm', '-rf', d])
        return r, (e or '')[-2000:]
    return done


def fix_model(m):
    """model values -> concrete assignment (angles from their cosine and sine where the model has them)"""
    return {k: v for k, v in (m or {}).items() if v is not None}


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d['property'] == pid:
                    out.append(d)
    return out


def main():
    pid = [a for a in sys.argv[1:] if not a.startswith('--')][0].upper()
    t0 = time.time()
    from pydv import contract
    import contracts
    contracts.load(pid)
    units = contract.UNITS.get(pid, [])
    if '--replay' in sys.argv:
        f = [a for a in sys.argv[1:] if not a.startswith('--')][1]
        d = json.load(open(f))
        r, err = concrete(pid, [dict(unit=d['unit'], assign=[d['inputs']])])()
        print(json.dumps(r, indent=1), err)
        return 0
    only = [a[7:] for a in sys.argv if a.startswith('--unit=')]
    if only:
        units = [u for u in units if u.name in only]
    if not units:
        print('no units for', pid)
        return 2
    verbose = '-v' in sys.argv or '--verbose' in sys.argv
    symu = [u for u in units if u.kw.get('symbolic', True)]
    conu = [u for u in units if u.kw.get('concrete', True)]
    # real code, real libraries: always
    chunks = [conu[i::3] for i in range(3)]
    waits = [concrete(pid, [dict(unit=u.key, trials=u.kw.get('trials', BUDGET['trials']) if TIER == 'quick' else BUDGET['trials'],
                                 seconds=(u.kw.get('seconds', BUDGET['seconds']) if TIER == 'quick' else BUDGET['seconds']))
                            for u in ch]) for ch in chunks if ch]
    res = run_units([u.key for u in symu], pid)
    con = {}
    err = ''
    for w in waits:
        r, e = w()
        if r is None:
            err += e
        else:
            con.update(r['units'])
    broken = []
    if err:
        broken.append('concrete runner: ' + err)
    known = load_known(pid)
    violations = []          # (unit, message, inputs or None, obligation)
    bounded = []
    for k, r in con.items():
        for e in r['errors']:
            broken.append('%s: %s' % (k, e))
        for f in r['failures']:
            if f.get('flaky'):
                print('note: not reproduced:', k, f['message'])
                continue
            kn = [d for d in known if d['unit'] == k and d['message'] in f['message']]
            if kn:
                continue
            violations.append(dict(unit=k, message=f['message'], inputs=f['inputs'], obligation=None, how='concrete contract run'))
    failed = {}
    for k, r in res.items():
        if r.get('crashed'):
            bounded.append((k, 'prover process ended: %s' % r.get('why', 'crash')))
            continue
        for o in r['obligations']:
            if o['status'] not in ('proved', 'unattempted'):
                failed.setdefault(k, []).append(o)
        if r['oor']:
            bounded.append((k, '; '.join(sorted(set(r['oor']))[:4])))
    names = {u.key: u for u in units}
    need = [k for k in list(failed) + [b[0] for b in bounded] if not any(v['unit'] == k for v in violations)]
    need = list(dict.fromkeys(need))
    searchable = [k for k in need if names[k].kw.get('concrete', True)]
    if searchable and not violations:
        tasks = []
        for k in searchable:
            ms = [fix_model(o['model']) for o in failed.get(k, []) if o.get('model')]
            if ms:
                tasks.append(dict(unit=k, assign=ms))
        per = max(3, BUDGET['search'] / max(1, (len(searchable) + 2) // 3))
        waits = [concrete(pid, tasks)] if tasks else []
        for i in range(3):
            ts = [dict(unit=k, trials=10 ** 6, seconds=per) for k in searchable[i::3]]
            if ts:
                waits.append(concrete(pid, ts, seed=SEED + 7919))
        for w in waits:
            r, e = w()
            for k, d in (r or {'units': {}})['units'].items():
                c = con.setdefault(k, d)
                if c is not d:
                    c['evaluations'] += d['evaluations']
                    c['distinct'] += d['distinct']
                    c['skipped'] += d['skipped']
                for f in d['failures']:
                    if f.get('flaky') or any(x['unit'] == k and x['message'] in f['message'] for x in known):
                        continue
                    o = failed.get(k, [None])[0]
                    violations.append(dict(unit=k, message=f['message'], inputs=f['inputs'],
                                           obligation=o and o['name'], how='replay of a counter-model or directed search'))
    for k, obs in failed.items():
        if any(v['unit'] == k for v in violations):
            continue
        hard = [o for o in obs if o['kind'] not in ('exception', 'induction')]
        if names[k].kw.get('concrete', True) is False:
            # this unit has no concrete reading: another unit of the property decides on real inputs
            pass
        if hard:
            violations.append(dict(unit=k, message='obligation not discharged: ' + hard[0]['name'], inputs=None,
                                   obligation=hard[0]['name'], how='proof', ob=hard[0], all=[o['name'] for o in obs]))
        elif obs[0]['kind'] == 'induction':
            bounded.append((k, 'the argument from one step to all histories does not apply: ' + obs[0]['name']))
        else:
            bounded.append((k, 'an exception on a symbolic path that the real code does not raise: ' + obs[0]['name']))
    total = sum(len(r.get('obligations', [])) + r.get('trivial', 0) for r in res.values())
    disch = sum(sum(o['status'] == 'proved' for o in r.get('obligations', [])) + r.get('trivial', 0) for r in res.values())
    unreached = [k for k, r in res.items() if not r.get('crashed') and not r['reached'] and not r['oor']]
    novac = [u.key for u in conu if con.get(u.key, {}).get('evaluations', 0) == 0]
    boundedkeys = {b[0] for b in bounded}
    # ---- evidence
    backs = {}
    for r in res.values():
        for o in r.get('obligations', []):
            b = o['backend'] if o['status'] == 'proved' else 'undischarged'
            backs[b] = backs.get(b, 0) + 1
    backs['simplifier (syntactic)'] = sum(r.get('trivial', 0) for r in res.values())
    assumptions = sorted({a for r in res.values() for a in r.get('assumptions', [])} |
                         {a for u in units for a in u.kw.get('assumes', [])} |
                         {'machine arithmetic treated as exact real arithmetic; float literals read as the decimal they print as',
                          'partial correctness: termination is checked only where a loop variant is listed'})
    units_ev = []
    for u in units:
        r = res.get(u.key, {})
        c = con.get(u.key, {})
        units_ev.append(dict(
            unit=u.name, functions=u.targets,
            status=('bounded: ' + dict(bounded)[u.key] if u.key in boundedkeys else
                    'bounded stand-in: ' + str(u.kw.get('bounded', 'concrete search')) if not u.kw.get('symbolic', True) else
                    'failed' if u.key in failed else 'proved'),
            obligations=len(r.get('obligations', [])) + r.get('trivial', 0),
            discharged=sum(o['status'] == 'proved' for o in r.get('obligations', [])) + r.get('trivial', 0),
            named_obligations=sorted({o['name'] for o in r.get('obligations', [])})[:60],
            paths=r.get('stats', {}).get('paths', 0), loops_with_invariants=r.get('loops', []),
            callee_contracts_used=r.get('contracts', []), functions_executed=sorted(r.get('calls', {})),
            explore_s=r.get('explore_s'), solve_s=r.get('solve_s'),
            concrete_evaluations=c.get('evaluations', 0), concrete_distinct=c.get('distinct', 0),
            concrete_skipped=c.get('skipped', 0)))
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='proof',
              coverage=dict(obligations=total, discharged=disch,
                            checker_cmd='VERIF_SEED=%d VERIF_TIER=%s %s/check.py %s' % (SEED, TIER, HERE, pid),
                            trusted_base=['pydv: AST transform, CPython execution on symbolic values, numpy/shapely shims (DESIGN.md)',
                                          'pydv ring normaliser', 'z3 5.3.2', 'cvc5 1.1.2'],
                            functions_under_contract=sorted({t for u in units for t in u.targets}),
                            discharged_by=backs,
                            solver_seconds=round(sum(o['seconds'] for r in res.values() for o in r.get('obligations', [])), 2),
                            units=units_ev,
                            concrete_cross_check=dict(evaluations=sum(c.get('evaluations', 0) for c in con.values()),
                                                      distinct_nontrivial=sum(c.get('distinct', 0) for c in con.values()),
                                                      samples=[s for c in con.values() for s in c.get('samples', [])][:4]),
                            bounded_units=[dict(unit=k, why=w) for k, w in bounded]),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    if verbose:
        for u in units_ev:
            print(u['unit'], u['status'], 'obl', u['discharged'], '/', u['obligations'], 'paths', u['paths'],
                  'explore', u['explore_s'], 'solve', u['solve_s'], 'concrete', u['concrete_evaluations'], 'skip', u['concrete_skipped'])
        for k, obs in failed.items():
            for o in obs[:12]:
                print('   FAILED', k, '|', o['name'], '|', o['kind'], o['line'], o['status'], o['backend'], o['seconds'], o['model'], o['path'])
        for k, r in res.items():
            slow = sorted(r.get('obligations', []), key=lambda o: -o['seconds'])[:2]
            for o in slow:
                if o['seconds'] > 2:
                    print('   slow', k, o['name'], o['seconds'], o['backend'])
    for b in broken:
        print('error:', b)
    for d in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, d['what']))
    if violations:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        best = sorted(violations, key=lambda v: v['inputs'] is None)
        for i, v in enumerate(best[:3]):
            path = os.path.join(HERE, 'replays', '%s-%d.json' % (pid, i))
            v['replay_command'] = '%s/check.py %s --replay %s' % (HERE, pid, path)
            json.dump(v, open(path, 'w'), indent=1, default=str)
            print('  %s: %s' % (v['unit'], v['message']))
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if v['inputs'] is not None else ' no-failing-input-found'))
            if v['inputs'] is not None:
                break
        return 1
    if broken:
        return 3
    if unreached or (total == 0 and not boundedkeys and symu):
        print('error: vacuous proof (no obligation reached) in', unreached or pid)
        return 4
    if novac:
        print('error: no concrete evaluation reached the contract in', novac)
        return 5
    for k, w in bounded:
        print('BOUNDED %s: %s' % (k, w))
    print('OK property=%s obligations=%d discharged=%d concrete=%d bounded=%d wall=%.1fs' % (
        pid, total, disch, ev['coverage']['concrete_cross_check']['evaluations'], len(bounded), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
