#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json from tools/props.py and the
check modules"""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import PROPS, NA  # noqa: E402

have = {os.path.basename(f).split('_')[0].upper()
        for f in glob.glob(os.path.join(HERE, 'checks', 'c[0-9]*.py'))}
checks, na = [], []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        pid = p['id']
        assert len(p['title']) <= 80, (pid, len(p['title']))
        over = p.get('over', ['inputs', 'configurations'])
        ent = dict(
            id=pid, title=p['title'], statement=p['statement'],
            quantifier=dict(over=over, text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         mechanism=[dict(name=n, where=w)
                                    for n, w in p['mech']],
                         observe_at=p.get('observe', []),
                         hook_needed=None))
        fh.write(json.dumps(ent) + '\n')
        if pid in have and pid not in NA:
            checks.append(dict(
                property=pid,
                quick_cmd=f'/opt/venv/bin/python run.py {pid} --tier quick',
                thorough_cmd=f'/opt/venv/bin/python run.py {pid} '
                             '--tier thorough',
                technique='symbolic execution of the current /repo source '
                          '(numpy/pandas shims) + z3, counterexamples '
                          'replayed on the untouched code',
                level='model_checking',
                level_note=p.get('note') or (
                    'Every path of the real functions within the stated '
                    'bounds; exact real arithmetic stands for floats; '
                    'numpy/scipy entry points are modelled by shims that '
                    'are cross-validated on each run against the real '
                    'libraries; z3 trusted.')))
        else:
            na.append(dict(property=pid, reason=NA.get(
                pid, 'no check built yet')))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python run.py --selftest',
         checks=checks, not_applicable=na,
         notes='see DESIGN.md')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'n/a')
