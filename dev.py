"""Developer driver: python3-vt dev.py C03 [goal substring]"""
import sys, importlib, time
sys.path.insert(0, '/verif')
from pyv.contract import run_goal
p = sys.argv[1]
m = importlib.import_module('goals.' + p.lower())
sub = sys.argv[2] if len(sys.argv) > 2 else ''
for g in m.GOALS:
    if sub not in g.name:
        continue
    r = run_goal(g)
    from collections import Counter
    print('%-50s %-10s %s %.1fs paths=%d feas=%d q=%d' % (g.name, r.status, dict(Counter(o.status for o in r.obls)), r.wall,
          r.stats.get('paths', 0), r.feasible_paths, r.stats.get('queries', 0)), flush=True)
    if r.status != 'proved':
        print('   ', r.reason)
        for o in [o for o in r.obls if o.status != 'discharged'][:6]:
            print('    ', o.status, o.name, '|', o.detail)
            if '-v' in sys.argv: print(o.model)
