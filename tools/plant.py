"""Make /verif/seeded/<id> from a spec file, after confirming it.

usage: plant.py SPEC.py... ; a spec defines PROPERTY, EDITS [(file, old, new)],
NEEDS, BREAKS and DEMO (source of a python program that must succeed on the
unchanged tree and fail with the change).
"""
import json
import os
import re
import subprocess
import sys
import tempfile

PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
SH = '''#!/bin/bash
# exit 0 if the property holds for this example, nonzero otherwise
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, text=True,
                          capture_output=True, **k)


def tests(tree):
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8',
            '--timeout=300', 'seismostats'], tree)
    tail = r.stdout.strip().splitlines()[-1]
    return r.returncode == 0, tail, base


def plant(spec, tree):
    name = os.path.splitext(os.path.basename(spec))[0]
    s = {}
    exec(open(spec).read(), s)
    sh(['git', 'checkout', '-q', '--', '.'], tree)
    for f, old, new in s['EDITS']:
        p = os.path.join(tree, f)
        t = open(p).read()
        if t.count(old) != 1:
            return f'{name}: edit matches {t.count(old)} times in {f}'
        open(p, 'w').write(t.replace(old, new))
    diff = sh(['git', 'diff'], tree).stdout
    out = f'/verif/seeded/{name}'
    tmp = tempfile.mkdtemp(prefix='demo')
    open(f'{tmp}/demo.py', 'w').write(s['DEMO'].lstrip())
    open(f'{tmp}/demo.sh', 'w').write(SH)
    bad = sh(['bash', f'{tmp}/demo.sh'], tree, timeout=300)
    good = sh(['bash', f'{tmp}/demo.sh'], '/repo', timeout=300)
    if good.returncode or not bad.returncode:
        return f'{name}: demo good={good.returncode} bad={bad.returncode}\n' \
            + good.stderr[-1500:] + bad.stderr[-500:]
    ok, tail, _ = tests(tree)
    if not ok:
        return f'{name}: tests fail: {tail}'
    os.makedirs(out, exist_ok=True)
    open(f'{out}/patch.diff', 'w').write(diff)
    for f in ('demo.py', 'demo.sh'):
        open(f'{out}/{f}', 'w').write(open(f'{tmp}/{f}').read())
    json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'],
                   what_it_breaks=s['BREAKS']),
              open(f'{out}/meta.json', 'w'), indent=1)
    r = subprocess.run([PY, 'run.py', s['PROPERTY']], cwd='/verif', text=True,
                       capture_output=True, env=dict(ENV, SYMEX_REPO=tree,
                                                     SYMEX_EVIDENCE='/dev/null'
                                                     ))
    v = [ln for ln in r.stdout.splitlines() if ln.startswith('VIOLATION')]
    st = 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}'
    return f'{name}: planted; {s["PROPERTY"]} {st} ' + \
        re.sub(r'\s+', ' ', r.stdout[-150:] if st[0] == 'M' else v[0])[:200]


def main():
    tree = tempfile.mkdtemp(prefix='plant') + '/repo'
    sh(['git', 'worktree', 'add', '-f', '--detach', tree, 'HEAD'], '/repo')
    try:
        for spec in sys.argv[1:]:
            print(plant(spec, tree), flush=True)
    finally:
        sh(['git', 'worktree', 'remove', '--force', tree], '/repo')


main()
