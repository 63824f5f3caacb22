"""Runtime contracts on the real code (CPython): cross-check of the verifier and search for failing inputs.

usage: main.py PROP [--seed S] [--time T] [--out FILE] | --replay FILE
"""
import argparse
import importlib
import io
import json
import os
import sys
import time
import traceback
import contextlib
import warnings
import zlib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('MPLBACKEND', 'Agg')


class Bad(Exception):
    def __init__(self, msg, key=''):
        Exception.__init__(self, msg)
        self.key = key


class Skip(Exception):
    pass


# exceptions which mean that the harness no longer fits the code's interface, not that the property fails
INTERFACE = (AttributeError, ImportError, NameError, KeyError)


def run_case(mod, name, seed, rnd, hint=None):
    import numpy as np
    s = zlib.crc32(('%s/%d/%d' % (name, seed, rnd)).encode()) & 0x7fffffff
    rng = np.random.RandomState(s)
    np.random.seed(s)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            mod.CASES[name](rng) if hint is None else mod.CASES[name](rng, hint)
    except Bad as e:
        return {'case': name, 'seed': seed, 'round': rnd, 'message': str(e)[:1500], 'key': e.key or name}
    except Skip:
        return 'skip'
    except INTERFACE as e:
        return 'interface: ' + traceback.format_exc(limit=-3)
    except TypeError as e:
        if 'argument' in str(e):
            return 'interface: ' + traceback.format_exc(limit=-3)
        return exc(name, seed, rnd, e)
    except Exception as e:
        return exc(name, seed, rnd, e)
    return None


def exc(name, seed, rnd, e):
    tb = traceback.extract_tb(e.__traceback__)
    if tb and HERE in tb[-1].filename:
        return 'interface: ' + traceback.format_exc(limit=-3)
    return {'case': name, 'seed': seed, 'round': rnd, 'message': 'raises %s: %s at %s' % (
        type(e).__name__, e, ['%s:%s' % (os.path.basename(t.filename), t.name) for t in tb[-2:]]), 'key': name + ':exception'}


def load(prop):
    from conc import natives
    mod = importlib.import_module('conc.' + prop.lower())
    top = natives.scratch_package(getattr(mod, 'NATIVES', None))
    sys.path.insert(0, top)
    os.chdir(top)
    if hasattr(mod, 'setup'):
        mod.setup()
    return mod


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--time', type=float, default=10)
    ap.add_argument('--rounds', type=int, default=100000)
    ap.add_argument('--out')
    ap.add_argument('--known', default='')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        if 'case' not in r:
            print('the replay file names a failed obligation without a concrete input:')
            print(json.dumps(r, indent=1)[:4000])
            return 0
        mod = load(r['property'])
        v = run_case(mod, r['case'], r['seed'], r['round'])
        print(json.dumps(v, indent=1) if v else 'not reproduced')
        return 1 if isinstance(v, dict) else 0
    known = set(k for k in a.known.split(',') if k)
    res = {'evaluations': 0, 'cases': {}, 'violation': None, 'interface': {}, 'known_seen': {}, 'error': None}
    t0 = time.time()
    try:
        mod = load(a.prop)
        res['setup_s'] = round(time.time() - t0, 1)
        t0 = time.time()
        names = list(mod.CASES)
        dead = set()
        for rnd in range(a.rounds):
            for n in names:
                if n in dead:
                    continue
                v = run_case(mod, n, a.seed, rnd)
                if v == 'skip':
                    continue
                if isinstance(v, str):
                    res['interface'][n] = v[-800:]
                    dead.add(n)
                    continue
                res['evaluations'] += 1
                res['cases'][n] = res['cases'].get(n, 0) + 1
                if v:
                    if v['key'] in known:
                        res['known_seen'][v['key']] = v['message']
                        continue
                    v['property'] = a.prop
                    res['violation'] = v
                    break
            if res['violation'] or time.time() - t0 > a.time or len(dead) == len(names):
                break
    except Exception:
        res['error'] = traceback.format_exc()[-2000:]
    res['time'] = round(time.time() - t0, 1)
    if a.out:
        json.dump(res, open(a.out, 'w'))
    else:
        print(json.dumps(res, indent=1))
    return 0


if __name__ == '__main__':
    sys.modules['conc.main'] = sys.modules['__main__']
    sys.exit(main())
