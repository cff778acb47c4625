"""tools/mutate.py FILE PROP[,PROP] N [SEED]: random small changes of FILE that pass the tests, run through the checks of the properties.
Prints one line per surviving mutant: CAUGHT / quiet and the change (a quiet one may be equivalent: look at it)."""
import ast, concurrent.futures as cf, os, random, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE, PROPS, N = sys.argv[1], sys.argv[2].split(','), int(sys.argv[3])
rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
SRC = open(os.path.join('/repo', FILE)).read()
LINES = SRC.splitlines(True)
OFF = [0]
for l in LINES:
    OFF.append(OFF[-1] + len(l.encode()))
B = SRC.encode()
NAMES = ['id', 'name', 'x', 'y', 'width', 'height', 'source_ref', 'target_ref', 'incoming_flow', 'outgoing_flow', 'process', 'default']
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


def span(n):
    return OFF[n.lineno - 1] + n.col_offset, OFF[n.end_lineno - 1] + n.end_col_offset


def src(n):
    a, b = span(n)
    return B[a:b].decode()


def mutants():
    t = ast.parse(SRC)
    out = []
    for n in ast.walk(t):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            out.append((n, '%s %s %s' % (src(n.left), CMP[type(n.ops[0])], src(n.comparators[0]))))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            c = n.test
            out += [(c, 'not (%s)' % src(c)), (c, 'True'), (c, 'False')] if not isinstance(n, ast.While) else []
        elif isinstance(n, ast.BoolOp):
            out.append((n, (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % src(v) for v in n.values)))
            out += [(n, src(v)) for v in n.values]
        elif isinstance(n, ast.Constant) and n.value in ('true', 'false'):
            out.append((n, repr('false' if n.value == 'true' else 'true')))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append((n, repr(not n.value)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            out += [(n, repr(n.value + 1)), (n, repr(n.value - 1))]
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and src(n.value) == 'consts.Consts':
            out += [(n, 'consts.Consts.' + rng.choice(NAMES))] * 2
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            out += [(n, 'pass')] * 2
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            i = rng.randrange(len(n.args) - 1)
            a, b = n.args[i], n.args[i + 1]
            out.append((n, None, [(a, src(b)), (b, src(a))]))
        elif isinstance(n, (ast.List, ast.Set)) and len(n.elts) > 1 and isinstance(getattr(n, 'ctx', ast.Load()), ast.Load):
            i = rng.randrange(len(n.elts))
            o, c = ('[', ']') if isinstance(n, ast.List) else ('{', '}')
            out.append((n, o + ', '.join(src(e) for j, e in enumerate(n.elts) if j != i) + c))
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Constant) is False:
            pass
    res = []
    for m in out:
        eds = m[2] if len(m) == 3 else [(m[0], m[1])]
        b = B
        for n, new in sorted(eds, key=lambda e: -span(e[0])[0]):
            x, y = span(n)
            b = b[:x] + new.encode() + b[y:]
        if b != B:
            res.append((m[0].lineno, ' / '.join('%s -> %s' % (' '.join(src(n).split())[:90], new[:90]) for n, new in eds), b))
    return res


def run(m):
    line, what, b = m
    try:
        ast.parse(b)
    except SyntaxError:
        return None
    tmp = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    try:
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        open(os.path.join(r, FILE), 'wb').write(b)
        p = subprocess.run('cd %s && timeout 100 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -o "python_files=test_*.py *_test.py manually_generated_*.py" tests 2>&1 | tail -1' % r, shell=True, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'))
        if 'failed' in p.stdout or 'error' in p.stdout or 'passed' not in p.stdout:
            return None
        out = []
        for prop in PROPS:
            os.makedirs(os.path.join(tmp, 'ev'), exist_ok=True)
            p = subprocess.run(['timeout', '900', 'python3-vt', os.path.join(HERE, 'check.py'), prop], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=os.path.join(tmp, 'ev')))
            v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('%s:%s' % (prop, ('CAUGHT' + ('*' if 'no-failing' in v[0] else '')) if p.returncode == 1 and v else 'quiet' if p.returncode == 0 else 'RC%d' % p.returncode))
            if 'CAUGHT' in out[-1]:
                break
        return line, what, ' '.join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


ms = mutants()
rng.shuffle(ms)
with cf.ThreadPoolExecutor(2) as ex:
    done = 0
    for r in ex.map(run, ms[:N]):
        if r:
            print('%s:%d %s | %s' % (os.path.basename(FILE), r[0], r[2], r[1]), flush=True)
print('end of', FILE, len(ms), 'possible')
