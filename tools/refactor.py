"""tools/refactor.py SPEC.py... [--only=substr]: apply behaviour-preserving edits to a scratch copy of /repo, run the tests and the checks
named by the spec against it.  A spec file defines EDITS = [dict(id, props, file, edits=[(old, new), ...])].  Checks must stay quiet."""
import ast
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def replace_function(t, name, new):
    """t with the (unique) function or method `name` replaced by the source text new (dedented; re-indented here)"""
    found = [n for n in ast.walk(ast.parse(t)) if isinstance(n, ast.FunctionDef) and n.name == name]
    assert len(found) == 1, (name, len(found))
    n = found[0]
    first = min([n.lineno] + [d.lineno for d in n.decorator_list])
    lines = t.split('\n')
    body = textwrap.indent(textwrap.dedent(new).strip('\n'), ' ' * n.col_offset).split('\n')
    return '\n'.join(lines[:first - 1] + body + lines[n.end_lineno:])


def run(s):
    tmp = tempfile.mkdtemp(prefix='refac_')
    out = []
    try:
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        p = repo + '/' + s['file']
        t = open(p).read()
        for name, new in s.get('funcs', {}).items():
            t = replace_function(t, name, new)
        for old, new in s.get('edits', ()):
            if t.count(old) != 1:
                return s['id'], ['EDIT DOES NOT APPLY (%d): %s' % (t.count(old), old[:60])]
            t = t.replace(old, new)
        open(p, 'w').write(t)
        r = subprocess.run('/opt/venv/bin/python -m pytest -q tests -x -p no:cacheprovider 2>&1 | tail -1', shell=True, cwd=repo, text=True,
                           stdout=subprocess.PIPE)
        out.append('tests: ' + r.stdout.strip())
        for prop in s['props']:
            e = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=tmp + '/ev')
            r = subprocess.run(['python3-vt', HERE + '/check.py', prop, '-v'], env=e, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            for l in r.stdout.splitlines():
                if l.startswith('  ') and ('undecided' in l or 'refuted' in l or 'missing' in l or 'failed obl' in l):
                    out.append('    ' + l.strip()[:260])
            ls = [l for l in r.stdout.splitlines() if not l.startswith(('KNOWN', ' '))]
            out.append('%s rc=%d %s' % (prop, r.returncode, ' | '.join(x[:120] for x in ls[-2:])))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return s['id'], out


def main():
    only = [a[7:] for a in sys.argv[1:] if a.startswith('--only=')]
    specs = []
    for f in [a for a in sys.argv[1:] if not a.startswith('--')]:
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        specs += [s for s in ns['EDITS'] if not only or only[0] in s['id']]
    with ThreadPoolExecutor(2) as ex:
        for i, out in ex.map(run, specs):
            print('==', i)
            for l in out:
                print('  ', l)
            sys.stdout.flush()


main()
