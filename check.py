#!/usr/bin/env python3-vt
"""check.py PROP: discharge the proof obligations of one property on /repo's current source and report.

exit 0  every obligation was discharged (or, for obligations the verifier could not decide, the stated bounded check
        found nothing); exit 1 with a VIOLATION line otherwise."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
RUNPY = os.environ.get('VERIF_PY', '/opt/venv/bin/python')
WORK = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))


def child(prop, idx, scale, timeout_ms, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        import threading
        threading.stack_size(256 << 20)
        from pyv.contract import run_goal
        m = importlib.import_module('goals.' + prop.lower())
        g = m.GOALS[idx]
        g.timeout = g.timeout * scale
        box = []

        def go():
            box.append(run_goal(g, timeout_ms).as_dict())
        t = threading.Thread(target=go)
        t.start()
        t.join()
        conn.send(box[0] if box else dict(name=g.name, status='undecided', reason='crashed', obls=[], stats={},
                                           executed=[], wall=0, feasible_paths=0))
    except BaseException as e:
        conn.send(dict(name='?', status='undecided', reason='worker: %r' % e, obls=[], stats={}, executed=[], wall=0,
                       feasible_paths=0))
    conn.close()


def run_goals(prop, names, timeouts, scale, timeout_ms, procs, deadline):
    """One process per goal; results in order."""
    out = [None] * len(names)
    todo = list(range(len(names)))
    todo.sort(key=lambda i: -timeouts[i])
    live = {}
    while todo or live:
        while todo and len(live) < procs:
            i = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(prop, i, scale, timeout_ms, b), daemon=True)
            p.start()
            b.close()
            live[i] = (p, a, time.time() + timeouts[i] * scale + 30)
        for i, (p, a, dl) in list(live.items()):
            r = None
            if a.poll(0):
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(status='undecided', reason='worker died', obls=[], stats={}, executed=[], wall=0, feasible_paths=0)
            elif time.time() > dl or time.time() > deadline:
                r = dict(status='undecided', reason='time budget exhausted', obls=[], stats={}, executed=[], wall=0, feasible_paths=0)
            elif not p.is_alive() and not a.poll(0.1):
                r = dict(status='undecided', reason='worker died', obls=[], stats={}, executed=[], wall=0, feasible_paths=0)
            if r is not None:
                r['name'] = names[i]
                out[i] = r
                p.kill()
                p.join()
                a.close()
                del live[i]
        time.sleep(0.02)
    return out


def start_concrete(prop, seed, budget, tag, only=''):
    if not os.path.exists(os.path.join(HERE, 'concrete', prop.lower() + '.py')):
        return None
    f = os.path.join(WORK, '%s.%s.json' % (prop, tag))
    if os.path.exists(f):
        os.unlink(f)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    cmd = [RUNPY, os.path.join(HERE, 'concrete', 'run.py'), prop, '--seed', str(seed), '--budget', str(budget), '--out', f]
    if only:
        cmd += ['--only', only]
    log = open(f[:-5] + '.log', 'w')
    return subprocess.Popen(cmd, stdout=log, stderr=log, env=env, cwd=HERE), f, log.name


def join_concrete(h, limit):
    if h is None:
        return None, ''
    p, f, log = h
    try:
        p.wait(limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    if os.path.exists(f):
        return json.load(open(f)), ''
    return None, open(log).read()[-2000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    quick = tier != 'thorough'
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    m = importlib.import_module('goals.' + prop.lower())
    goals = m.GOALS
    budget = getattr(m, 'CONCRETE', 20)
    conc = start_concrete(prop, seed, budget if quick else budget * 10, 'cross')
    res = run_goals(prop, [g.name for g in goals], [g.timeout for g in goals], 1 if quick else 4,
                    8000 if quick else 30000, 7, t0 + (560 if quick else 3000))
    cres, cerr = join_concrete(conc, 400 if quick else 3000)
    expected = json.load(open(os.path.join(HERE, 'baseline.json'))).get(prop, {}) if \
        os.path.exists(os.path.join(HERE, 'baseline.json')) else {}

    obls = [(r, o) for r in res for o in r['obls']]
    refuted = [(r, o) for r, o in obls if o['status'] == 'refuted']
    undecided = [r for r in res if r['status'] in ('undecided',)]
    missing = [r for r in res if r['status'] == 'missing']
    newund = [r for r in undecided + missing if expected.get(r['name'], 'proved') == 'proved']
    fails = list(cres['fails']) if cres else []
    deep = None
    # a goal that is not discharged (any more): look harder for a failing input
    if (refuted or newund) and not fails and quick:
        left = 820 - (time.time() - t0)
        hs = [start_concrete(prop, seed * 1000 + k, min(150, left - 40), 'deep%d' % k) for k in range(1, 8)] if left > 60 else []
        deep = []
        for h in hs:
            r, e = join_concrete(h, 240)
            if r:
                deep.append(r)
                fails += r['fails']
    known = [k for k in (cres or {}).get('known', [])]
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))
    for e in kf.get('findings', []):
        if e['property'] == prop and [e['id'], True] in [list(k) for k in known]:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))

    violation = None
    rp = os.path.join(WORK, '%s.replay.json' % prop)
    if os.path.exists(rp):
        os.unlink(rp)
    if fails:
        f = dict(fails[0])
        f['property'] = prop
        f['how'] = 'PYTHONHASHSEED=0 %s %s/concrete/run.py %s --replay %s' % (RUNPY, HERE, prop, rp)
        f['failed_obligations'] = [dict(goal=r['name'], obligation=o['name'], detail=o['detail']) for r, o in refuted][:20]
        json.dump(f, open(rp, 'w'), indent=1, default=repr)
        violation = 'VIOLATION property=%s replay=%s' % (prop, rp)
    elif refuted:
        json.dump({'property': prop, 'failed_obligations': [
            dict(goal=r['name'], obligation=o['name'], detail=o['detail'], model=o['model']) for r, o in refuted][:20],
            'verifier': 'pyv + z3'}, open(rp, 'w'), indent=1)
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp)

    cases = sum(c['cases'] for c in cres['cases'].values()) if cres else 0
    total, done = len(obls), sum(1 for _, o in obls if o['status'] == 'discharged')
    solver = sum(r['stats'].get('solver_s', 0) for r in res)
    meta = getattr(m, 'META', {})
    ev = {
        'property': prop, 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': meta.get('level', 'proof'),
        'coverage': {
            'obligations': total, 'discharged': done,
            'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (prop, tier),
            'trusted_base': TRUSTED + meta.get('trusted', []),
            'goals': len(res), 'goals_proved': sum(1 for r in res if r['status'] == 'proved'),
            'goals_not_proved': [{'goal': r['name'], 'status': r['status'], 'reason': r['reason'][:300]} for r in res if r['status'] != 'proved'],
            'functions_under_contract': sorted({f for g in goals for f in g.functions}),
            'functions_executed_symbolically': sorted({q for r in res for q in r['executed']}),
            'back_end': 'z3 %s via pyv (own verification condition generator over the Python AST of /repo); cvc5 second opinion' % z3v(),
            'solver_seconds': round(solver, 2), 'solver_queries': sum(r['stats'].get('queries', 0) for r in res),
            'paths': sum(r['stats'].get('paths', 0) for r in res),
            'feasible_paths_confirmed': sum(r['feasible_paths'] for r in res),
            'explanation': meta.get('explanation', 'every goal is an unbounded proof; concrete runs only cross-check the contracts'),
            'bounded_standins': meta.get('bounded', []),
            'concrete_crosscheck': {'evaluations': cases, 'distinct_nontrivial': cres['distinct'] if cres else 0,
                                    'per_case': cres['cases'] if cres else cerr[-500:],
                                    'rule': 'random inputs of the contract pre-state run through the real code under CPython and '
                                            'compared with the contract function; distinct = different printed input',
                                    'samples': cres['samples'][:3] if cres else []},
        },
        'assumptions': ASSUME + meta.get('assumptions', []),
        'violations': 1 if violation else 0,
        'wall_s': round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(WORK, '%s.json' % prop), 'w'), indent=1, default=repr)
    if a.v or violation:
        for r in res:
            if r['status'] != 'proved':
                print('  %-9s %s  %s' % (r['status'], r['name'], r['reason'][:300].replace('\n', ' ')))
        for r, o in refuted[:10]:
            print('  failed obligation %s | %s | %s' % (r['name'], o['name'], o['detail'][:200]))
        for f in fails[:3]:
            print('  failing input in case %s: %s' % (f['case'], f['why'][:400]))
    print('%s: %d/%d obligations discharged, %d/%d goals proved, %d concrete cases, %.1fs' %
          (prop, done, total, sum(1 for r in res if r['status'] == 'proved'), len(res), cases, time.time() - t0))
    if violation:
        print(violation)
        return 1
    if cres is None and os.path.exists(os.path.join(HERE, 'concrete', prop.lower() + '.py')):
        print('concrete cross-check did not run: %s' % cerr[-800:])
        return 2
    if not total and not cases:
        print('nothing was checked')
        return 2
    return 0


def z3v():
    import z3
    return z3.get_version_string()


TRUSTED = ['pyv: the verification condition generator in /verif/pyv (semantics of the Python subset, loop summaries, models of '
           'builtins and of the used parts of networkx 2.3, ElementTree, minidom, uuid, copy, os)', 'z3', 'CPython for the replay']
ASSUME = ['uuid4 values are fresh and distinct', 'integers and floats are mathematical (no rounding, no overflow)',
          'containers inside the input state are not shared except where the code itself shares them',
          'str values are compared only by equality unless stated; hash order of sets is not observable']

if __name__ == '__main__':
    sys.exit(main())
