"""all units of a contract module in parallel: python3-vt tools/runall.py c12 [substring] [tier]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import importlib, time, multiprocessing as mp
m = importlib.import_module('contracts.' + sys.argv[1])
us = [u for u in m.units(sys.argv[3] if len(sys.argv) > 3 else 'thorough') if (sys.argv[2] if len(sys.argv) > 2 else '') in u[0]]
def go(k):
    name, b = us[k]
    t = time.time()
    u = b()
    u.name = name
    u.run()
    miss = [x for x in u.need_covers if x not in u.covered]
    return name, u.status, time.time() - t, u.unsupported, getattr(u, 'unsupported_tb', ''), [(o.status, round(o.time, 1), o.backend, o.name, o.goal if o.status != 'valid' else '') for o in u.obls if o.status != 'valid' or o.time > 5], miss, len(u.obls), u.paths, {kk: sorted(v['dropped']) for kk, v in ((str(a[:2]), b) for a, b in u.loops.items())} if os.environ.get('PV_LOOPS') else ''
with mp.Pool(int(os.environ.get('J', 6)), maxtasksperchild=1) as p:
    for r in p.imap_unordered(go, range(len(us))):
        print(r[1], round(r[2], 1), r[0], 'obls', r[7], 'paths', r[8], 'MISS' if r[6] else '', r[6] or '', r[9])
        if r[3]: print('   unsupported', r[3], r[4][-900:])
        for o in r[5]: print('   ', str(o)[:600])
        sys.stdout.flush()
