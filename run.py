"""Check of one property: discharge every obligation generated from /repo's current source, cross-check on CPython.

usage: python3-vt run.py C06 [quick|thorough]
exit 0: property holds on everything explored; exit 1 + VIOLATION line: broken.
"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
CPY = '/opt/venv/bin/python'


def run_unit(args):
    prop, k, tier, deadline, scale = args
    from pv import engine
    engine.SCALE = scale
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    t0 = time.time()
    r = {'unit': '?', 'k': k, 'status': 'unsupported', 'why': '', 'obligations': 0, 'discharged': 0, 'by': {}, 'time': 0, 'solver': 0, 'failed': []}
    try:
        mod = importlib.import_module('contracts.' + prop.lower())
        name, build = mod.units(tier)[k]
        r['unit'] = name
        u = build()
        u.name = name
        u.run(deadline=time.time() + deadline)
        r['status'] = u.status
        r['why'] = (u.unsupported or '')
        r['trace'] = getattr(u, 'unsupported_tb', '')[-1500:]
        r['functions'] = u.functions
        r['obligations'] = len(u.obls)
        r['discharged'] = len([o for o in u.obls if o.status == 'valid'])
        for o in u.obls:
            r['by'][o.backend] = r['by'].get(o.backend, 0) + 1
        r['safety'] = u.safety_ok
        r['paths'] = u.paths
        r['covers'] = sorted(u.covered)
        missing = [c for c in getattr(u, 'need_covers', ()) if c not in u.covered]
        if missing and u.status == 'proved':
            r['status'] = 'unsupported'
            r['why'] = 'program point never reached under the preconditions: %s' % missing
        r['solver'] = round(u.tsolve, 2)
        for o in u.failed:
            r['failed'].append({'obligation': o.name, 'status': o.status, 'reason': o.reason, 'goal': o.goal, 'model': o.model, 'backend': o.backend})
        r['sample'] = [o.name for o in u.obls[:3]]
    except MemoryError:
        r['why'] = 'memory limit'
    except Exception as e:
        r['why'] = 'front end: %s' % e
        r['trace'] = traceback.format_exc()[-1500:]
    r['time'] = round(time.time() - t0, 2)
    return r


def conc(prop, seed, secs, known):
    out = os.path.join(HERE, 'evidence', '.conc-%s-%d.json' % (prop, os.getpid()))
    try:
        subprocess.run([CPY, os.path.join(HERE, 'conc', 'main.py'), prop, '--seed', str(seed), '--time', str(secs), '--out', out,
                        '--known', ','.join(known)], timeout=secs * 2 + 240, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return json.load(open(out))
    except Exception as e:
        return {'evaluations': 0, 'violation': None, 'error': 'concrete run failed: %s' % e, 'cases': {}, 'interface': {}, 'known_seen': {}}
    finally:
        if os.path.exists(out):
            os.remove(out)


def known_findings(prop):
    """lines 'KNOWN-FINDING property=Cxx key=K what' / 'fixed: ...' (the latter suppress nothing)"""
    d = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('KNOWN-FINDING property=%s ' % prop):
                rest = l.split(None, 2)[2]
                key, what = rest.split(None, 1)
                d[key[4:]] = what.strip()
    return d


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    known = known_findings(prop)
    mod = importlib.import_module('contracts.' + prop.lower())
    have_conc = os.path.exists(os.path.join(HERE, 'conc', prop.lower() + '.py'))
    base_secs = 12 if tier == 'quick' else 120
    udl = 300 if tier == 'quick' else 700
    ctx = mp.get_context('fork')
    cres = {'evaluations': 0, 'violation': None, 'cases': {}, 'interface': {}, 'known_seen': {}, 'error': None}
    try:
        units = mod.units(tier)
        n = len(units)
        err = None
    except Exception:
        units, n, err = [], 0, traceback.format_exc()[-1500:]
    if err or not n:
        print('broken contract module: %s' % err)
        sys.exit(2)
    import threading
    box = {}
    th = None
    if have_conc:
        th = threading.Thread(target=lambda: box.update(r=conc(prop, seed, base_secs, list(known))))
        th.start()
    results = []
    if n:
        # heavy units first if the module says so
        with ctx.Pool(min(7, n), maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(run_unit, [(prop, k, tier, udl, 1.) for k in range(n)], chunksize=1):
                results.append(r)
                if os.environ.get('PV_VERBOSE'):
                    print('%-60s %-12s %4d/%4d %6.1fs %s' % (r['unit'], r['status'], r['discharged'], r['obligations'], r['time'], r['why'][:200]), flush=True)
                    for f in r['failed'][:3]:
                        print('    FAILED', f['obligation'], f['status'], (f['goal'] or '')[:600].replace('\n', ' '))
                    if r['status'] == 'unsupported' and os.environ.get('PV_VERBOSE') == '2':
                        print(r.get('trace'))
    if th:
        th.join()
        cres = box.get('r', cres)
    failed = [r for r in results if r['status'] == 'failed']
    unsup = [r for r in results if r['status'] in ('unsupported', 'vacuous')]
    viol = cres.get('violation')
    extra_evals = 0
    if (failed or unsup) and not viol and have_conc:
        # search longer for a failing input on the real code
        for s in range(1, 3):
            c2 = conc(prop, seed + 1000 * s, 30 if tier == 'quick' else 100, list(known))
            extra_evals += c2.get('evaluations', 0)
            if c2.get('violation'):
                viol = c2['violation']
                break
            if not failed:
                break
    if failed and not viol:
        # a second attempt with generous solver limits: a loaded machine must not turn a time-out into a verdict
        with ctx.Pool(min(4, len(failed)), maxtasksperchild=1) as pool:
            again = {r['k']: r for r in pool.imap_unordered(run_unit, [(prop, r['k'], tier, 330 if tier == 'quick' else 900, 5.) for r in failed], chunksize=1)}
        results = [again[r['k']] if r['k'] in again and again[r['k']]['status'] in ('proved', 'failed') else r for r in results]
        failed = [r for r in results if r['status'] == 'failed']
    obl = sum(r['obligations'] for r in results)
    dis = sum(r['discharged'] for r in results)
    by = {}
    for r in results:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    by_unit = [{'unit': r['unit'], 'status': r['status'], 'obligations': r['obligations'], 'discharged': r['discharged'], 'wall_s': r['time'],
                'solver_s': r['solver'], 'paths': r.get('paths'), 'why': r['why'][:300], 'covers': r.get('covers')} for r in sorted(results, key=lambda r: r['unit'])]
    funcs = sorted(set(f for r in results if r['status'] == 'proved' for f in r.get('functions', [])))
    level = getattr(mod, 'LEVEL', 'proof')
    code = 0
    line = None
    if viol or failed:
        code = 1
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
        if viol:
            viol = dict(viol, property=prop, how='/verif/replay.sh evidence/replay-%s.json' % prop,
                        obligations=[dict(unit=r['unit'], failed=r['failed'][:3]) for r in failed])
            json.dump(viol, open(rp, 'w'), indent=1)
            line = 'VIOLATION property=%s replay=%s' % (prop, rp)
        else:
            json.dump({'property': prop, 'no_failing_input_found': True,
                       'obligations': [dict(unit=r['unit'], failed=r['failed']) for r in failed]}, open(rp, 'w'), indent=1)
            line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)
    ev = {
        'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level,
        'coverage': {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': 'python3-vt run.py %s (z3 %s, cvc5 fallback)' % (prop, z3v()),
            'trusted_base': getattr(mod, 'TRUSTED', []) + BASE_TRUST,
            'functions_under_contract': funcs,
            'discharged_by': by, 'solver_s': round(sum(r['solver'] for r in results), 1),
            'safety_conditions_discharged': sum(r.get('safety', 0) for r in results),
            'units': by_unit,
            'unsupported_units': [{'unit': r['unit'], 'why': r['why'][:300]} for r in unsup],
            'bounded_standins': getattr(mod, 'BOUNDED', []),
            'concrete_cross_check': {'evaluations': cres.get('evaluations', 0) + extra_evals, 'per_case': cres.get('cases'),
                                     'interface_mismatch': cres.get('interface'), 'error': cres.get('error')},
            'explanation': 'every contract clause of the listed functions becomes an SMT obligation generated from the source text of this run',
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + BASE_ASSUME,
        'wall_s': round(time.time() - t0, 1), 'violations': 1 if code else 0,
    }
    if err:
        ev['coverage']['front_end_error'] = err
    if level == 'exploration':
        ev['coverage'].update(evaluations=cres.get('evaluations', 0) + extra_evals, distinct_nontrivial=cres.get('evaluations', 0) + extra_evals,
                              rule='seeded random instances of the property contract, each with different inputs', samples=[str(cres.get('cases'))])
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    for k, what in known.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    for r in failed:
        for f in r['failed'][:2]:
            print('failed obligation [%s] %s: %s (%s)' % (r['unit'], f['obligation'], f['status'], f['reason']))
    for r in unsup:
        print('outside the verifier subset (bounded stand-in only) [%s]: %s' % (r['unit'], r['why'][:200]))
    if viol:
        print('failing input: %s' % json.dumps({k: viol.get(k) for k in ('case', 'seed', 'round', 'message')}))
    print('%s: %d/%d obligations discharged, %d units (%d proved), %d concrete evaluations, %.1fs' % (
        prop, dis, obl, len(results), len([r for r in results if r['status'] == 'proved']), cres.get('evaluations', 0) + extra_evals, time.time() - t0))
    if line:
        print(line)
    sys.exit(code)


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


BASE_TRUST = ['the verification-condition generator pv/ and its contracts of numpy / RNG primitives (pv/numpyshim.py, pv/engine.py)',
              'z3 and cvc5', 'CPython semantics of straight-line code executed over symbolic values']
BASE_ASSUME = ['floating point is treated as exact real arithmetic', 'machine integers are mathematical integers',
               'random draws are arbitrary values of their support (no statement about their distribution)',
               'while loops: partial correctness (termination of rejection loops not shown)',
               'extraction drops print() output and text formatting only']

if __name__ == '__main__':
    main()
