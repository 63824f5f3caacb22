"""run one unit in-process: python3-vt tools/dbg.py c05 'unit name' [profile]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
import importlib
import time
import cProfile
import pstats
m = importlib.import_module('contracts.' + sys.argv[1])
us = m.units('thorough')
sel = [u for u in us if sys.argv[2] in u[0]]
for name, b in sel[:1]:
    u = b()
    u.name = name
    pr = cProfile.Profile()
    t = time.time()
    pr.enable()
    u.run()
    pr.disable()
    print({k: v for k, v in vars(u).items() if k in ('status', 'error', 'unsupported', 'err')})
    print('total', round(time.time() - t, 1))
    for o in u.obls:
        if o.time > 1 or o.status != 'valid':
            print(o.status, round(o.time, 1), o.backend, o.name)
    print('sum of obligation times', sum(o.time for o in u.obls))
    if len(sys.argv) > 3:
        pstats.Stats(pr).sort_stats('cumtime').print_stats(45); pstats.Stats(pr).sort_stats('tottime').print_stats(25)
