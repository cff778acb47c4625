"""tools/seed.py SPEC.py...: turn planted-bug specs into /verif/seeded/<id>/ after confirming them in a scratch copy.
A spec file defines SEEDS = [dict(id, property, file|edits, old, new, needs, breaks, demo)] ; demo is Python source run by
/opt/venv/bin/python with cwd /repo (nonzero exit when the bug shows)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    only = None
    files = []
    for a in sys.argv[1:]:
        if a.startswith('--only='):
            only = a[7:]
        else:
            files.append(a)
    for f in files:
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        for s in ns['SEEDS']:
            if only and only not in s['id']:
                continue
            make(s)


def make(s):
    tmp = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        r = os.path.join(tmp, 'repo')
        sh('cp -a /repo %s' % r)
        for e in s.get('edits') or [(s['file'], s['old'], s['new'])]:
            p = os.path.join(r, e[0])
            t = open(p).read()
            if t.count(e[1]) != 1:
                print('FAIL', s['id'], 'old text occurs %d times' % t.count(e[1]), e[1][:60])
                return
            open(p, 'w').write(t.replace(e[1], e[2]))
        d = sh('git -C %s diff' % r).stdout
        dd = os.path.join(tmp, 'd')
        os.makedirs(dd)
        open(os.path.join(dd, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(dd, 'demo.sh'), 0o755)
        open(os.path.join(dd, 'demo.py'), 'w').write(s['demo'])
        good = sh('bash %s/demo.sh' % dd, cwd='/repo')
        bad = sh('bash %s/demo.sh' % dd, cwd=r)
        t = sh('cd %s && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -o "python_files=test_*.py *_test.py manually_generated_*.py" tests 2>&1 | tail -3' % r, env=dict(os.environ, PYTHONPATH=r, MPLBACKEND='Agg', PYTHONHASHSEED='0', PYTHONUTF8='1'))
        ok = good.returncode == 0 and bad.returncode != 0 and re.search(r'\b83 passed', t.stdout) and 'failed' not in t.stdout
        print('OK  ' if ok else 'FAIL', s['id'], good.returncode, bad.returncode, t.stdout.strip().splitlines()[-1])
        if not ok:
            if good.returncode:
                print(good.stdout[-600:])
            return
        out = os.path.join(HERE, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for x in ('demo.sh', 'demo.py'):
            shutil.copy(os.path.join(dd, x), out)
        open(os.path.join(out, 'patch.diff'), 'w').write(d)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
