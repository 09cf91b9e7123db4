#!/opt/venv/bin/python
"""run.py <ID> [--tier quick|thorough]      decide one property
   run.py --replay FILE                     re-run a counterexample on /repo
   run.py --concrete FILE                   (internal) batch of concrete runs
"""
from __future__ import annotations

import os
import re
import sys

os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('SYMEX_REPO', '/repo')

import argparse  # noqa: E402
import glob  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import math  # noqa: E402
import subprocess  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402


def load_check(pid):
    fs = glob.glob(os.path.join(HERE, 'checks', f'{pid.lower()}_*.py'))
    if len(fs) != 1:
        sys.exit(f'no unique check module for {pid}: {fs}')
    name = os.path.basename(fs[0])[:-3]
    return importlib.import_module(f'checks.{name}')


# ----------------------------------------------------------------------
# concrete side (real, un-instrumented code)
# ----------------------------------------------------------------------


def concrete_one(mod, item):
    from symex.ctx import ConcreteCtx, Violation, Excluded
    fn = getattr(mod, item['harness'])
    ctx = ConcreteCtx(item['values'], item['choices'],
                      rtol=getattr(mod, 'RTOL', 1e-8),
                      atol=getattr(mod, 'ATOL', 1e-9))
    res = dict(status='ok', label='', detail='', outs=[])
    try:
        try:
            fn(ctx, **item['params'])
        finally:
            ctx.unpatch()
    except Violation as v:
        res.update(status='violation', label=v.label, detail=str(v.detail))
    except Excluded:
        res.update(status='excluded')
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = ' <- '.join(f'{x.filename.split("/")[-1]}:{x.lineno}'
                            for x in reversed(tb[-6:]))
        in_repo = any(x.filename.startswith(REPO) for x in tb)
        res.update(status='exception', in_repo=in_repo,
                   label=f'exception {type(ex).__name__}',
                   detail=f'{ex} at {where}')
    outs = []
    for label, v in ctx.outs:
        if v is None or isinstance(v, (str, bool)):
            outs.append((label, v))
        else:
            try:
                outs.append((label, float(v)))
            except Exception:
                outs.append((label, str(v)))
    res['outs'] = outs
    return res


def concrete_main(path):
    with open(path) as fh:
        batch = json.load(fh)
    from symex import loader
    mod = load_check(batch['property'])
    loader.install_stubs(getattr(mod, 'KEEP_IMPORTS', ()))
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    out = []
    for item in batch['items']:
        out.append(concrete_one(mod, item))
    import numpy as np

    def enc(o):
        if isinstance(o, np.generic):
            return o.item()
        return str(o)
    with open(path + '.out', 'w') as fh:
        json.dump(out, fh, default=enc)
    return 0


def run_concrete(pid, items, tag):
    """run items on the untouched code in a fresh interpreter"""
    if not items:
        return []
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'.{pid}_{tag}_{os.getpid()}.json')
    with open(path, 'w') as fh:
        json.dump(dict(property=pid, items=items), fh)
    try:
        p = subprocess.run([sys.executable, os.path.join(HERE, 'run.py'),
                            '--concrete', path], capture_output=True,
                           text=True, timeout=600)
        if not os.path.exists(path + '.out'):
            raise RuntimeError('concrete runner failed: ' + p.stderr[-2000:])
        with open(path + '.out') as fh:
            return json.load(fh)
    finally:
        for f in (path, path + '.out'):
            if os.path.exists(f):
                os.unlink(f)


# ----------------------------------------------------------------------
# symbolic side
# ----------------------------------------------------------------------
_MOD = None
_DEADLINE = None
_SEED = 1
_NVAL = 6


def _job(a):
    k, (hname, params) = a
    from symex.ctx import run_symbolic
    try:
        r = run_symbolic(getattr(_MOD, hname), params, deadline=_DEADLINE,
                         seed=_SEED * 1000 + k, n_validate=_NVAL,
                         timeout_ms=getattr(_MOD, 'TIMEOUT_MS', 4000))
    except BaseException as ex:
        r = dict(error=f'{type(ex).__name__}: {ex}\n' +
                 traceback.format_exc()[-3000:])
    return k, r


def run_jobs(jobs, procs):
    """results of the jobs, each computed in its own forked process"""
    import pickle
    import selectors
    import signal
    sel = selectors.DefaultSelector()
    todo = list(reversed(jobs))
    running = {}
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        while todo or running:
            while todo and len(running) < procs:
                job = todo.pop()
                rd, wr = os.pipe()
                pid = os.fork()
                if not pid:
                    code = 1
                    try:
                        signal.signal(signal.SIGTERM, signal.SIG_DFL)
                        os.close(rd)
                        data = pickle.dumps(_job(job))
                        with os.fdopen(wr, 'wb') as fh:
                            fh.write(data)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(wr)
                running[rd] = (pid, job[0], [])
                sel.register(rd, selectors.EVENT_READ)
            for key, _ in sel.select():
                rd = key.fd
                pid, k, buf = running[rd]
                chunk = os.read(rd, 1 << 20)
                if chunk:
                    buf.append(chunk)
                    continue
                sel.unregister(rd)
                os.close(rd)
                del running[rd]
                _, st = os.waitpid(pid, 0)
                try:
                    yield pickle.loads(b''.join(buf))
                except (EOFError, pickle.UnpicklingError):
                    yield k, dict(error=f'worker ended with status {st}')
    finally:
        for rd, (pid, _, _) in running.items():
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass
            os.close(rd)
        sel.close()


def load_known(pid):
    f = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(f):
        return []
    with open(f) as fh:
        return [e for e in json.load(fh).get('findings', [])
                if e.get('property') == pid]


def known_match(known, hname, params, label, detail):
    for e in known:
        if e.get('harness') and e['harness'] != hname:
            continue
        if e.get('label') and e['label'] not in label:
            continue
        if e.get('detail') and e['detail'] not in detail:
            continue
        if any(params.get(k) != v for k, v in (e.get('params')
                                                or {}).items()):
            continue
        return e
    return None


def close(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b or a == '?' or b == '?'
    a, b = float(a), float(b)
    if a != a or b != b:
        return (a != a) == (b != b)
    if a == b:
        return True
    if not (math.isfinite(a) and math.isfinite(b)):
        return False
    return abs(a - b) <= 1e-7 + 1e-6 * max(abs(a), abs(b))


def degenerate(item, v, detail):
    """a division by an exact zero, in numbers that floats round: the float
    code divides by rounding noise instead, any order of the operations is
    right (bins exact in binary are compared strictly)"""
    return item['params'].get('conf') != 'dy' and bool(
        re.search(r'(^|\W)(inf|nan)\b', detail)) and any(
        isinstance(x, float) and not math.isfinite(x)
        or str(x) in ('inf', '-inf', 'nan') for _, x in v['outs'])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--concrete')
    ap.add_argument('--jobs', default='')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--procs', type=int, default=int(
        os.environ.get('SYMEX_PROCS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.concrete:
        return concrete_main(a.concrete)
    if a.replay:
        return replay_main(a.replay)
    return check_main(a)


def selftest():
    """everything a check needs is present and loads"""
    from symex import loader, core, npshim
    import z3
    loader.install_stubs()
    loader.install()
    importlib.import_module('seismostats')
    mods = sorted(glob.glob(os.path.join(HERE, 'checks', 'c[0-9]*.py')))
    for f in mods:
        load_check(os.path.basename(f).split('_')[0].upper())
    print(f'z3 {z3.get_version_string()}; {len(mods)} checks load')
    return 0


def replay_main(path):
    with open(path) as fh:
        r = json.load(fh)
    item = {k: r[k] for k in ('harness', 'params', 'values', 'choices')}
    res = run_concrete(r['property'], [item], 'replay')[0]
    print(json.dumps(dict(property=r['property'], inputs=item, result={
        k: v for k, v in res.items() if k != 'outs'}), indent=1))
    return 1 if res['status'] in ('violation', 'exception') else 0


def check_main(a):
    global _MOD, _DEADLINE, _SEED, _NVAL
    t0 = time.time()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    _SEED = seed
    from symex import loader
    _MOD = mod = load_check(pid)
    loader.install_stubs(getattr(mod, 'KEEP_IMPORTS', ()))
    loader.install()
    budget = getattr(mod, 'BUDGET', {}).get(tier, 500 if tier == 'quick'
                                            else 3600)
    _DEADLINE = t0 + budget
    _NVAL = 5 if tier == 'quick' else 10
    warnings.simplefilter('ignore')
    importlib.import_module('seismostats')
    if hasattr(mod, 'preload'):
        mod.preload()
    jobs = list(mod.jobs(tier))
    if a.jobs:
        jobs = [j for j in jobs if a.jobs in f'{j[0]} {j[1]}']
    known = load_known(pid)
    results = {}
    status = 0
    errors, notes = [], []
    violation = None
    known_hits = {}
    spurious = []
    concretised = 0
    n_replayed = 0

    it = run_jobs(list(enumerate(jobs)), a.procs)
    try:
        for k, r in it:
            hname, params = jobs[k]
            if 'error' in r:
                errors.append(f'{hname} {params}: {r["error"]}')
                continue
            results[k] = r
            if a.v:
                s = r['stats']
                print(f'  {hname} {params}: paths={s["paths"]} '
                      f'branches={s["branches"]} obl={s["obligations"]} '
                      f'q={s["queries"]} solver={s["solver_s"]:.1f}s '
                      f'wall={r["wall"]:.1f}s cand={len(r["candidates"])} '
                      f'unsup={s["unsupported"]} '
                      f'inc={len(r["inconclusive"])}', flush=True)
                for c in r['candidates'][:3]:
                    print('     cand', c['label'], c['detail'][:300])
                for c in r['unsupported'][:2]:
                    print('     unsup', c['msg'][:300])
                for c in r['inconclusive'][:2]:
                    print('     inc', c)
            # replay candidates at once
            items = [dict(harness=hname, params=params, values=c['values'],
                          choices=c['choices']) for c in r['candidates']]
            ures = [u for u in r['unsupported'] if u.get('values')]
            items += [dict(harness=hname, params=params, values=u['values'],
                           choices=u['choices']) for u in ures]
            rs = run_concrete(pid, items, f'c{k}') if items else []
            n_replayed += len(rs)
            others = {}
            for c, res in zip(r['candidates'], rs):
                if c.get('more') and not r.get('fp'):
                    others.setdefault(
                        (c['label'], c['detail'], str(c['choices'])),
                        set()).add(res['status'])
            for c, item, res in zip(r['candidates'] + ures, items, rs):
                bad = res['status'] == 'violation' or (
                    res['status'] == 'exception')
                if bad:
                    kn = known_match(known, hname, params, res['label'],
                                     res['detail'])
                    if kn:
                        known_hits[kn['id']] = kn
                        continue
                    if violation is None:
                        violation = dict(item, property=pid,
                                         label=res['label'],
                                         detail=res['detail'],
                                         solver_label=c.get('label', ''),
                                         solver_detail=c.get('detail', ''))
                elif 'label' in c and not c.get('exc') and others.get(
                        (c['label'], c['detail'], str(c['choices']))) == \
                        {'ok'} and re.search(
                            r'(exp|ln|log|sin|cos|tan|erf\w*|cdf|ppf)\(',
                            c['detail']):
                    # a difference between terms over exp, log, ... which
                    # is none on the real code at several other models
                    concretised += 1
                    notes.append(f'{hname}: {c["label"]}: terms over '
                                 'uninterpreted functions not decided; '
                                 'checked on concrete inputs only')
                elif 'label' in c and not c.get('exc'):
                    spurious.append(f'{hname} {params} {c["label"]}: '
                                    f'{c["detail"]} values={c["values"]} '
                                    f'choices={c["choices"]} -> '
                                    f'{res["status"]}')
                else:
                    concretised += 1
                    notes.append(f'{hname}: path not encodable '
                                 f'({c.get("msg") or c.get("detail")}); '
                                 f'checked on one concrete input only')
            if violation:
                break
    finally:
        it.close()

    # translator validation: same inputs through the untouched code
    vitems, vexp = [], []
    for k, r in results.items():
        for v in r['validate']:
            if v is not None:
                vitems.append(dict(harness=jobs[k][0], params=jobs[k][1],
                                   values=v['values'],
                                   choices=v['choices']))
                vexp.append(v)
    validated, mismatches = 0, []
    outs_compared = 0
    if violation is None and vitems:
        vres = run_concrete(pid, vitems, 'v')
        for item, v, res in zip(vitems, vexp, vres):
            if res['status'] == 'excluded':
                continue
            if res['status'] in ('violation', 'exception'):
                kn = known_match(known, item['harness'], item['params'],
                                 res['label'], res['detail'])
                if kn:
                    known_hits[kn['id']] = kn
                    continue
                if degenerate(item, v, res['detail']):
                    continue
                if res['status'] == 'exception' and not res.get('in_repo'):
                    mismatches.append(f'{item}: {res["detail"]}')
                    continue
                violation = dict(item, property=pid, label=res['label'],
                                 detail=res['detail'],
                                 solver_label='path model',
                                 solver_detail='model of an explored path')
                break
            validated += 1
            a_, b_ = v['outs'], res['outs']
            bad = None
            if len(a_) != len(b_):
                bad = f'{len(a_)} outputs symbolic, {len(b_)} concrete'
            else:
                for (l1, x), (l2, y) in zip(a_, b_):
                    outs_compared += 1
                    if l1 == l2 and not close(x, y) and \
                            degenerate(item, v, f'{x} {y}'):
                        break
                    if l1 != l2 or not close(x, y):
                        bad = f'{l1}: symbolic {x} concrete {y}'
                        break
            if bad:
                mismatches.append(f'{item["harness"]} {item["params"]} '
                                  f'{item["values"]} {item["choices"]}: '
                                  f'{bad}')

    tot = {}
    entered, reached, labels = set(), set(), set()
    inconc = []
    for k, r in results.items():
        for kk, v in r['stats'].items():
            tot[kk] = tot.get(kk, 0) + v
        entered |= set(r['entered'])
        reached |= set(r['reached'])
        labels |= set(r['labels'])
        inconc += [f'{jobs[k][0]} {jobs[k][1]}: {x}'
                   for x in r['inconclusive']]
    missing = [w for w in getattr(mod, 'WITNESS', []) if w not in reached]
    if a.jobs:
        missing = []
    wall = time.time() - t0
    samples = []
    for v, it_ in list(zip(vexp, vitems))[:6]:
        samples.append(dict(harness=it_['harness'], params=it_['params'],
                            inputs=it_['values'], choices=it_['choices'],
                            outputs=[list(o) for o in v['outs'][:8]]))
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot.get('paths', 0),
            transitions=tot.get('branches', 0),
            traces_validated_against_impl=validated,
            samples=samples or [dict(note='no path sampled')],
            functions_encoded=sorted(entered),
            obligations_checked=tot.get('obligations', 0),
            obligations_discharged=tot.get('discharged', 0),
            obligations_needing_solver=tot.get('solver_obl', 0),
            solver_queries=tot.get('queries', 0),
            solver_seconds=round(tot.get('solver_s', 0), 2),
            paths_excluded_by_assumptions=tot.get('abandoned', 0),
            paths_not_encodable=tot.get('unsupported', 0),
            counterexamples_replayed=n_replayed,
            outputs_compared=outs_compared,
            jobs=len(jobs), jobs_completed=len(results),
            witnesses_reached=sorted(reached),
            assertions=sorted(labels),
            bounds=getattr(mod, 'BOUNDS', {}).get(tier, ''),
            outside=getattr(mod, 'OUTSIDE', ''),
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2),
        violations=1 if violation else 0,
    )
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write('\n')

    print(f'{pid} [{tier}] paths={tot.get("paths", 0)} '
          f'branches={tot.get("branches", 0)} '
          f'obligations={tot.get("obligations", 0)} '
          f'(solver {tot.get("solver_obl", 0)}) '
          f'queries={tot.get("queries", 0)} '
          f'solver={tot.get("solver_s", 0):.1f}s '
          f'validated={validated} wall={wall:.1f}s')
    for kn in known_hits.values():
        print(f'KNOWN-FINDING: property={pid} {kn["what"]}')
    if violation:
        d = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{pid}.json')
        with open(path, 'w') as fh:
            json.dump(violation, fh, indent=1)
            fh.write('\n')
        print(f'counterexample: {violation["harness"]} '
              f'{violation["params"]} inputs={violation["values"]} '
              f'choices={violation["choices"]}')
        print(f'  on the real code: {violation["label"]} '
              f'{violation["detail"]}')
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    for n in sorted(set(notes))[:10]:
        print('INCOMPLETE:', n)
    bad = []
    if errors:
        bad.append('engine errors: ' + '\n'.join(errors[:3]))
    if inconc:
        bad.append(f'{len(inconc)} inconclusive: ' + '; '.join(inconc[:5]))
    if spurious:
        bad.append('counterexample not reproduced: ' + '\n'.join(
            spurious[:4]))
    if mismatches:
        bad.append(f'{len(mismatches)} validation mismatches: ' + '\n'.join(
            mismatches[:40]))
    if missing:
        bad.append(f'vacuity witnesses not reached: {missing}')
    if tot.get('paths', 0) == 0:
        bad.append('no path explored')
    if bad:
        for b in bad:
            print('INCONCLUSIVE:', b)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
