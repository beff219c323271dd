#!/opt/venv/bin/python
"""check.py <property> : decide one property on /repo's working tree."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import warnings
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ['MPLBACKEND'] = 'Agg'
T0 = time.time()


def known(pid):
    keys = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                parts = l.split(' ', 3)
                keys[parts[2].split('=', 1)[1]] = parts[3] if len(parts) > 3 else ''
    return keys


def work(kind, pid, idx, seed, tier, conn):
    try:
        devnull = open(os.devnull, 'w')
        os.dup2(devnull.fileno(), 1)
        os.dup2(devnull.fileno(), 2)
        if kind == 'proof':
            from vp.proofs import common as P
            u = P.UNITS[pid][idx]
            r = P.run_unit(u)
            conn.send(dict(status=r.status, reason=r.reason[:3000], obl=r.obl, paths=r.paths, secs=r.secs))
        else:
            from vp.conc import common as R
            c = R.CASES[pid][idx]
            conn.send(R.run_case(c, seed, tier))
    except BaseException as e:
        try:
            import traceback
            conn.send(dict(status='undecided', reason='%r' % (e,), message=traceback.format_exc()[-1500:], obl=[],
                           paths=0, secs=0, iterations=0, it=None))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def schedule(tasks, seed, tier, limit, slots=8):
    """tasks: (kind, pid, idx, timeout) -> results in order"""
    ctx = mp.get_context('fork')
    res = [None] * len(tasks)
    todo = list(range(len(tasks)))
    live = {}
    while todo or live:
        while todo and len(live) < slots and time.time() - T0 < limit:
            k = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=tasks[k][:3] + (seed, tier, b))
            p.start()
            b.close()
            live[k] = (p, a, time.time())
        if todo and not live:
            for k in todo:
                res[k] = dict(status='undecided', reason='time budget of the check', obl=[], paths=0, secs=0,
                              message='time budget of the check', iterations=0, it=None)
            break
        time.sleep(0.02)
        for k in list(live):
            p, a, t = live[k]
            got = None
            if a.poll():
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(status='undecided', reason='worker died', obl=[], paths=0, secs=0,
                               message='worker died', iterations=0, it=None)
            elif not p.is_alive():
                got = dict(status='undecided', reason='worker died', obl=[], paths=0, secs=0,
                           message='worker died', iterations=0, it=None)
            elif time.time() - t > tasks[k][3] or time.time() - T0 > limit + 30:
                got = dict(status='undecided', reason='timeout', obl=[], paths=0, secs=time.time() - t,
                           message='timeout', iterations=0, it=None)
            if got is not None:
                res[k] = got
                if p.is_alive():
                    p.join(0.3)
                    if p.is_alive():
                        p.kill()
                p.join()
                a.close()
                del live[k]
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    limit = 500 if tier == 'quick' else 3000
    P = R = None
    units, cases = [], []
    errs = []
    from vp.proofs import common as P
    try:
        importlib.import_module('vp.proofs.' + pid.lower())
        units = P.UNITS.get(pid, [])
    except ModuleNotFoundError as e:
        errs.append('no proofs: %s' % e)
    from vp.conc import common as R
    try:
        importlib.import_module('vp.conc.' + pid.lower())
        cases = R.CASES.get(pid, [])
    except ModuleNotFoundError as e:
        errs.append('no runtime contracts: %s' % e)
    except Exception as e:
        import traceback
        errs.append('runtime contracts cannot be set up: ' + traceback.format_exc()[-800:])
    tasks = [('proof', pid, i, u.budget + 60) for i, u in enumerate(units)] + \
            [('conc', pid, i, c.timeout if tier == 'quick' else c.timeout * 6) for i, c in enumerate(cases)]
    # the long ones first
    order = sorted(range(len(tasks)), key=lambda k: -tasks[k][3])
    out = schedule([tasks[k] for k in order], seed, tier, limit)
    res = [None] * len(tasks)
    for k, r in zip(order, out):
        res[k] = r
    # a refutation has to stand when nothing else competes for the solver's time
    again = [i for i in range(len(units)) if res[i]['status'] == 'failed']
    if again and not any(r['status'] == 'broken' for r in res[len(units):]):
        from vp.engine import prove as PV
        PV.TIMEOUT *= 3
        for i, r in zip(again, schedule([tasks[i] for i in again], seed, tier, limit + 120, slots=2)):
            if r['status'] != 'failed':
                r['reason'] = 'refuted only under load; ' + (r.get('reason') or '')
                res[i] = r
    pr = list(zip(units, res[:len(units)]))
    cr = list(zip(cases, res[len(units):]))
    kf = known(pid)
    failed_obl = [o for u, r in pr if r['status'] == 'failed' for o in r['obl'] if o['status'] == 'failed']
    broken = [(c, r) for c, r in cr if r['status'] == 'broken' and not (c.key and c.key in kf)]
    for c, r in cr:
        if r['status'] == 'broken' and c.key and c.key in kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[c.key] or r['message'].splitlines()[0]))
    obligations = sum(len(r['obl']) for _, r in pr)
    good = sum(1 for u, r in pr for o in r['obl'] if r['status'] != 'undecided' and o['status'] == 'proved')
    backends = {}
    for _, r in pr:
        for o in r['obl']:
            for b in o['backends']:
                backends[b] = backends.get(b, 0) + 1
    verdict = []
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', 'replay_%s.json' % pid)
    if broken:
        c, r = broken[0]
        json.dump(dict(property=pid, case=c.name, seed=seed, iteration=r['it'], message=r['message'],
                       other_cases=[dict(case=c2.name, iteration=r2['it'], message=r2['message'][:400])
                                    for c2, r2 in broken[1:]],
                       failed_obligations=failed_obl[:40],
                       how='/opt/venv/bin/python /verif/replay.py ' + rp), open(rp, 'w'), indent=1)
        print('contract broken on the real code: %s :: %s' % (c.name, r['message'].splitlines()[0][:300]))
        verdict.append('VIOLATION property=%s replay=%s' % (pid, rp))
    elif failed_obl:
        json.dump(dict(property=pid, case=None, failed_obligations=failed_obl,
                       verifier_output=[dict(unit=u.name, reason=r['reason']) for u, r in pr
                                        if r['status'] == 'failed']), open(rp, 'w'), indent=1)
        for o in failed_obl[:5]:
            print('obligation refuted: %s :: %s' % (o['name'], o['detail'][:200]))
        verdict.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    und = [(u.name, r['reason'][:300]) for u, r in pr if r['status'] == 'undecided']
    cund = [(c.name, r['message'][-300:]) for c, r in cr if r['status'] == 'undecided']
    funcs = sorted({f for u, r in pr if r['status'] != 'undecided' for f in u.functions})
    ufuncs = sorted({f for u, r in pr if r['status'] == 'undecided' for f in u.functions} - set(funcs))
    from vp import levels
    lvl = levels.LEVEL.get(pid, 'proof' if units else 'exploration')
    evals = sum(r.get('iterations', 0) for _, r in cr)
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, wall_s=round(time.time() - T0, 2),
              violations=len(broken) + (1 if failed_obl and not broken else 0),
              coverage=dict(
                  obligations=obligations, discharged=good,
                  checker_cmd='/opt/venv/bin/python /verif/check.py ' + pid,
                  trusted_base=levels.TRUSTED,
                  functions_under_contract=funcs, functions_undecided=ufuncs,
                  verification_conditions=sum(o['vcs'] for _, r in pr for o in r['obl']),
                  backends=backends, paths=sum(r['paths'] for _, r in pr),
                  solver_s=round(sum(o['secs'] for _, r in pr for o in r['obl']), 2),
                  units=[dict(unit=u.name, status=r['status'], obligations=len(r['obl']), paths=r['paths'],
                              secs=round(r['secs'], 2)) for u, r in pr],
                  undecided_units=[dict(unit=a, reason=b) for a, b in und],
                  bounded_evaluations=evals,
                  rule='bounded: each evaluation is one generated input (seeded by VERIF_SEED, case and iteration '
                       'number, all distinct) driven through the real functions with the contracts evaluated at '
                       'run time; replay and stand-in only, not counted as proved',
                  bounded_cases=[dict(case=c.name, evaluations=r.get('iterations', 0), status=r['status'])
                                 for c, r in cr],
                  undecided_cases=[dict(case=a, reason=b) for a, b in cund],
                  samples=[dict(case=c.name, seed=seed, iteration=0) for c, r in cr[:3]] +
                          [dict(obligation=o['name'], backends=o['backends']) for _, r in pr[:2] for o in r['obl'][:2]]),
              assumptions=levels.ASSUME + sorted({a for u, r in pr for a in u.assumes}) + errs)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d functions, %d bounded evaluations, %d undecided units, %.1fs'
          % (pid, good, obligations, len(funcs), evals, len(und), time.time() - T0))
    for a, b in und:
        print('  undecided (bounded stand-in only): %s :: %s' % (a, b.replace('\n', ' ')[:160]))
    for a, b in cund:
        print('  bounded case not run: %s :: %s' % (a, b.replace('\n', ' ')[-200:]))
    if verdict:
        print(verdict[0])
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
