#!/usr/bin/env python3
"""check.py <property> : verify the contracts of a property on the current source"""
import sys
sys.dont_write_bytecode = True
import os
SRC = os.environ.get('GITDB_SRC', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, SRC, '/opt/venv/lib/python3.12/site-packages']
import importlib
import json
import multiprocessing as mp
import tempfile
import time
import traceback
import re


def load_contracts(prop):
    mod = importlib.import_module('contracts.' + prop.lower())
    reg = {k.name: k for k in mod.CONTRACTS}
    reg.update(getattr(mod, 'REGISTRY', {}))
    return mod, reg


def contract_job(args):
    prop, cname, case, opts = args
    try:
        from pyvc.verify import verify
        mod, reg = load_contracts(prop)
        return verify(reg[cname], case, reg, opts)
    except BaseException as e:
        return {'contract': cname, 'target': '?', 'case': case, 'obligations': 1, 'discharged': 0, 'functions': [], 'contracts_used': [],
                'kinds': {}, 'backends': {}, 'solver_s': 0, 'wall_s': 0, 'paths': 0, 'returns': 0, 'raises': 0, 'bounded': None, 'assumptions': [], 'mode': '',
                'failures': [{'obligation': '%s can be verified' % cname, 'reason': '%s: %s' % (type(e).__name__, e), 'where': traceback.format_exc()[-400:], 'model': None}]}


def job_process(args, q, i):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    q.put((i, contract_job(args)))


def run_jobs(jobs, workers, hard_s):
    """own little pool: a job that overruns is killed, not waited for"""
    ctx = mp.get_context('fork')
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))
    running = {}
    q = ctx.Queue()
    while todo or running:
        while todo and len(running) < workers:
            i = todo.pop(0)
            pr = ctx.Process(target=job_process, args=(jobs[i], q, i), daemon=True)
            pr.start()
            running[i] = (pr, time.time())
        try:
            while True:
                i, r = q.get(timeout=0.05)
                res[i] = r
                pr, _ = running.pop(i)
                pr.join(5)
        except Exception:
            pass
        for i, (pr, t) in list(running.items()):
            if time.time() - t > hard_s or not pr.is_alive():
                if not pr.is_alive() and time.time() - t < 0.5:
                    continue
                time.sleep(0.2)
                if not q.empty():
                    continue
                why = 'time limit' if pr.is_alive() else 'verifier process ended'
                pr.kill()
                pr.join()
                running.pop(i)
                if res[i] is None:
                    prop, cname, case, _ = jobs[i]
                    res[i] = {'contract': cname, 'target': '?', 'case': case, 'obligations': 1, 'discharged': 0, 'functions': [], 'contracts_used': [], 'kinds': {},
                              'backends': {}, 'solver_s': 0, 'wall_s': round(time.time() - t, 1), 'paths': 0, 'returns': 0, 'raises': 0, 'bounded': None, 'assumptions': [], 'mode': '',
                              'failures': [{'obligation': 'obligations of %s %s' % (cname, case or ''), 'reason': why, 'where': '', 'model': None}]}
    return res


def start_driver(prop, seed, tier, budget, hints):
    from pyvc import driver
    fd, out = tempfile.mkstemp(prefix='gitdbdrv-')
    os.close(fd)
    ctx = mp.get_context('fork')
    pr = ctx.Process(target=driver.child, args=(prop, seed, tier, budget, hints, SRC, out))
    pr.start()
    return pr, out, time.time(), budget


def finish_driver(h):
    pr, out, t0, budget = h
    pr.join(max(1, budget + 60 - (time.time() - t0)))
    if pr.is_alive():
        try:
            os.system('pkill -KILL -P %d' % pr.pid)
        except Exception:
            pass
        pr.kill()
        pr.join()
    try:
        with open(out) as f:
            r = json.load(f)
    except ValueError:
        r = {'error': 'driver gave no result'}
    os.unlink(out)
    return r


def model_ints(results):
    out = set()
    for r in results:
        for f in r['failures']:
            for v in (f.get('model') or {}).values():
                for x in re.findall(r'\d+', str(v))[:40]:
                    if len(x) < 30:
                        out.add(int(x))
    return sorted(out)[:200]


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, 'KNOWN_FINDINGS.txt')):
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.strip())
    except OSError:
        pass
    return out


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    nodriver = '--no-driver' in sys.argv
    thorough = tier == 'thorough'
    opts = {'budget_s': 600 if thorough else 200, 'prove_s': 60 if thorough else None, 'dump': thorough}
    err = None
    results = []
    mod = None
    dres = {'evaluations': 0, 'distinct': 0, 'failures': [], 'samples': [], 'kinds': {}, 'wall_s': 0}
    try:
        mod, reg = load_contracts(prop)
        have_driver = os.path.exists(os.path.join(HERE, 'drivers', prop.lower() + '.py')) and not nodriver
        dh = start_driver(prop, seed, tier, 240 if thorough else 12, []) if have_driver else None
        jobs = []
        for k in mod.CONTRACTS:
            if only and only not in k.name:
                continue
            for case in k.cases:
                jobs.append((prop, k.name, case, opts))
        results = run_jobs(jobs, 8, opts['budget_s'] + 60)
        if dh:
            dres = finish_driver(dh)
    except Exception as e:
        err = traceback.format_exc()
    failed = [(r, f) for r in results for f in r['failures']]
    cross = None
    if thorough and not failed and not err:
        try:
            from pyvc.crosscheck import crosscheck
            cross = crosscheck(results, 240)
            if cross['contradicted']:
                err = 'cvc5 contradicts z3: %s' % cross['contradictions']
        except ImportError:
            cross = None
    driver_error = dres.get('error')
    if (failed or err) and not dres.get('failures') and not nodriver and mod is not None:
        # look harder for an input that fails on the real code
        try:
            r2 = finish_driver(start_driver(prop, seed + 1000, 'deep', 300 if thorough else 75, model_ints(results)))
            if r2.get('failures'):
                dres['failures'] = r2['failures']
            dres['evaluations'] = dres.get('evaluations', 0) + r2.get('evaluations', 0)
            dres['distinct'] = dres.get('distinct', 0) + r2.get('distinct', 0)
        except Exception:
            pass
    fails = dres.get('failures') or []
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rc = 0
    nviol = 0
    if failed or fails or err or driver_error:
        rc = 1
        nviol = 1
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
        rec = {'property': prop, 'failed_obligations': [dict(f, contract=r['contract'], case=r['case'], function=r['target']) for r, f in failed][:30],
               'verifier_error': err or driver_error,
               'failing_input': fails[0] if fails else None,
               'how_to_replay': 'python3-vt /verif/replay.py %s' % rp}
        with open(rp, 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        for r, f in failed[:12]:
            print('FAILED obligation: %s: %s [%s] at %s' % (r['contract'], f['obligation'], f['reason'], f['where']))
        if err or driver_error:
            print('ERROR:', (err or driver_error).strip().splitlines()[-1])
        for f in fails[:3]:
            print('FAILING INPUT (%s): %s' % (f['check'], json.dumps(f['inputs'])[:600]))
            print('   ', f['why'])
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fails else ' no-failing-input-found'))
    for l in known_findings(prop):
        print('KNOWN-FINDING: ' + l[len('finding: '):])
    write_evidence(prop, tier, seed, mod, results, dres, cross, nviol, time.time() - t0)
    n = sum(r['obligations'] for r in results)
    d = sum(r['discharged'] for r in results)
    print('%s: %d of %d obligations discharged in %d contract runs, %d concrete evaluations, %.1f s' % (prop, d, n, len(results), dres.get('evaluations', 0), time.time() - t0))
    sys.stdout.flush()
    os._exit(rc)


def write_evidence(prop, tier, seed, mod, results, dres, cross, nviol, wall):
    proved = [r for r in results if not r.get('bounded')]
    bounded = [r for r in results if r.get('bounded')]
    funcs = sorted({r['target'] for r in proved})
    inl = sorted({f for r in results for f in r['functions']})
    kinds, back = {}, {}
    for r in results:
        for k, v in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
        for k, v in r['backends'].items():
            back[k] = back.get(k, 0) + v
    trusted = ['z3 4.x (python binding)', 'the rules of /verif/pyvc for Python semantics (interp.py, builtin_models.py)', 'CPython parser (ast)']
    trusted += list(getattr(mod, 'TRUSTED', []))
    assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    for r in results:
        for a in r['assumptions']:
            if a not in assumptions:
                assumptions.append(a)
    cov = {'obligations': sum(r['obligations'] for r in results), 'discharged': sum(r['discharged'] for r in results),
           'checker_cmd': 'python3-vt /verif/check.py %s' % prop, 'trusted_base': trusted,
           'functions_under_contract': funcs, 'functions_interpreted': inl,
           'obligations_by_kind': kinds, 'discharged_by': back, 'solver_s': round(sum(r['solver_s'] for r in results), 2),
           'contracts': [{'contract': r['contract'], 'case': r['case'], 'function': r['target'], 'obligations': r['obligations'], 'discharged': r['discharged'],
                          'paths': r['paths'], 'returns': r['returns'], 'raises': r['raises'], 'bounded': r['bounded'], 'wall_s': r['wall_s'],
                          'invariants_found_by': r['mode']} for r in results],
           'bounded_stand_ins': [{'function': r['target'], 'bound': r['bounded'], 'obligations': r['obligations']} for r in bounded],
           'concrete_replay': {'evaluations': dres.get('evaluations', 0), 'distinct': dres.get('distinct', 0), 'by_check': dres.get('kinds', {}),
                               'samples': dres.get('samples', [])[:6], 'note': 'runs of the real code against an executable oracle; they decide nothing on their own'}}
    if cross is not None:
        cov['cross_check'] = cross
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'), 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(wall, 2), 'violations': nviol}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    main()
