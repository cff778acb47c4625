"""Apply each planted bug (or any patch) to a scratch copy of /repo and run the check of its property there.
usage: trial.py [id-substring ...]   prints CAUGHT / MISSED."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(i):
    d = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    tmp = tempfile.mkdtemp(prefix='trial_', dir='/tmp')
    try:
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        p = subprocess.run(['git', '-C', r, 'apply', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
        if p.returncode:
            return i, 'NOAPPLY', p.stderr
        os.makedirs(os.path.join(tmp, 'ev'))
        p = subprocess.run(['python3-vt', os.path.join(HERE, 'check.py'), prop], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=os.path.join(tmp, 'ev')))
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        return i, 'CAUGHT' if p.returncode == 1 and v else 'MISSED(rc=%d)' % p.returncode, (v or [p.stdout[-300:]])[0][-120:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ids = [i for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))) if not sys.argv[1:] or any(a in i for a in sys.argv[1:])]
with cf.ThreadPoolExecutor(2) as ex:
    for r in ex.map(run, ids):
        print(*r, flush=True)
