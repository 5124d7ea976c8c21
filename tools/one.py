"""run one contract group in this process, with a traceback: python3-vt tools/one.py PROP 'group name' [seconds] [root]"""
import sys, signal, traceback, importlib, cProfile, pstats, time
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from pyvc import vc as V
prop, name = sys.argv[1:3]
limit = int(sys.argv[3]) if len(sys.argv) > 3 else 120
root = sys.argv[4] if len(sys.argv) > 4 else '/repo'
importlib.import_module('contracts.' + prop)


def alarm(*a):
    raise KeyboardInterrupt
signal.signal(signal.SIGALRM, alarm)
for n, fn, lim, tiers, f in V.GROUPS:
    if n != name:
        continue
    g = V.G(n, fn, root, 'quick', 1)
    signal.alarm(limit)
    p = cProfile.Profile()
    try:
        if len(sys.argv) > 5:
            p.runcall(f, g)
        else:
            f(g)
    except BaseException:
        print(traceback.format_exc()[-4500:])
    signal.alarm(0)
    for o in g.obl:
        print(o['status'], o['name'], o.get('detail', '')[:9000] if o['status'] != 'discharged' else '')
    if len(sys.argv) > 5:
        pstats.Stats(p).sort_stats('cumtime').print_stats(40)
