"""python concrete/run.py PROP --seed N --budget S --out FILE   |   --replay FILE"""
import argparse
import importlib
import json
import os
import random
import sys
sys.dont_write_bytecode = True
sys.setrecursionlimit(3000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concrete import core   # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--budget', type=float, default=20)
    ap.add_argument('--min', type=int, default=1)
    ap.add_argument('--max', type=int, default=100000)
    ap.add_argument('--only', default='')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    m = importlib.import_module('concrete.' + a.prop.lower())
    if a.replay:
        r = json.load(open(a.replay))
        c = [c for c in m.CASES if c.name == r['case']][0]
        rng = random.Random('%s|%s|%d|%d' % (r['seed'], c.name, r['index'], r['sub']))
        why = c.judge(c.make(rng))
        print('input:', json.dumps(r['input'])[:3000])
        print('FAILS: ' + why if why else 'holds')
        return 1 if why else 0
    cases = [c for c in m.CASES if not a.only or c.name in a.only.split('|')]
    known = []
    for k in getattr(m, 'KNOWN', []):
        try:
            known.append([k[0], bool(k[1]())])
        except Exception as e:
            known.append([k[0], 'error %r' % e])
    res, fails, distinct, samples = core.run_cases(cases, a.seed, a.budget, a.max, a.min)
    out = {'cases': res, 'fails': fails, 'known': known, 'distinct': distinct, 'samples': samples}
    txt = json.dumps(out, default=repr)
    if a.out:
        open(a.out, 'w').write(txt)
    else:
        print(json.dumps(out, indent=1, default=repr)[:6000])
    return 0


if __name__ == '__main__':
    sys.exit(main())
