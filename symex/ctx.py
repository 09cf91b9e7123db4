"""The harness context: the same harness runs symbolically (SymCtx) and, on
concrete values against the untouched code (ConcreteCtx)."""
from __future__ import annotations

import math
import random
import sys
import time
import traceback
import warnings
from fractions import Fraction as F

import numpy as np

from . import exact


class Violation(BaseException):
    def __init__(self, label, detail=''):
        self.label = label
        self.detail = detail


class Excluded(BaseException):
    """concrete run outside the harness assumptions"""


def _is_nan(x):
    try:
        return x is None or bool(x != x)
    except Exception:
        return False


class BaseCtx:
    def __init__(self):
        self._patches = []
        self.reached = set()

    def patch(self, obj, name, val):
        miss = object()
        old = obj.__dict__.get(name, miss) if hasattr(obj, '__dict__') \
            else getattr(obj, name)
        self._patches.append((obj, name, old, miss))
        setattr(obj, name, val)

    def replace(self, obj, name, val):
        """patch obj.name and every import of it in the package"""
        old = getattr(obj, name)
        self.patch(obj, name, val)
        for key, mod in list(sys.modules.items()):
            if key.split('.')[0] != 'seismostats':
                continue
            for k, v in list(getattr(mod, '__dict__', {}).items()):
                if v is old:
                    self.patch(mod, k, val)

    def unpatch(self):
        for obj, name, old, miss in reversed(self._patches):
            if old is miss:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self._patches = []

    def reach(self, label):
        self.reached.add(label)

    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f'{name}{i}', lo, hi) for i in range(n)]

    def ints(self, name, n, lo, hi):
        return [self.int(f'{name}{i}', lo, hi) for i in range(n)]

    def list(self, xs):
        return [self.f(x) for x in xs]

    def flag(self, name):
        return self.pick(name, (False, True))

    def grid(self, k, step, off='0'):
        """k-th point of a decimal grid (correctly rounded when concrete)"""
        if self.symbolic:
            return k * self.const(step) + self.const(off)
        return exact.mk(F(int(k)) * F(step) + F(off))

    def same_shape(self, a, b, label):
        la, lb = _flat(a), _flat(b)
        self.true(len(la) == len(lb),
                  label + f': length {len(la)} instead of {len(lb)}')
        return list(zip(la, lb))

    def eqs(self, a, b, label):
        """elementwise equality of two sequences"""
        for i, (x, y) in enumerate(self.same_shape(a, b, label)):
            self.eq(x, y, f'{label}[{i}]')

    def raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            return
        self.true(False, f'{label}: no {exc.__name__} raised')

    def not_raises(self, fn, label):
        try:
            return fn()
        except Exception as e:  # noqa
            from .core import Unsupported
            if isinstance(e, Unsupported):
                raise
            self.true(False, f'{label}: raised {type(e).__name__}: {e}')


def _flat(a):
    if isinstance(a, (list, tuple)):
        return list(a)
    if hasattr(a, 'to_numpy'):
        a = a.to_numpy()
    a = np.asarray(a)
    return list(a.flat) if a.dtype != object else [x for x in a.flat]


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.e = eng
        self.values = {}
        self.choices = {}
        self.outs = []
        self.labels = set()

    def text(self, x):
        """printed form of a number"""
        from . import core
        return core.text(x)

    # -- inputs ---------------------------------------------------------
    def real(self, name, lo=None, hi=None):
        v = self.e.new_var(name, False, lo, hi)
        return v

    def int(self, name, lo, hi):
        return self.e.new_var(name, True, lo, hi)

    def pick(self, name, options):
        options = list(options)
        i = self.e.pick(len(options), name)
        self.choices[name] = i
        return options[i]

    def const(self, s):
        from . import core
        return core.const(s)

    def f(self, x):
        return x

    def array(self, xs):
        from .npshim import sarr
        return sarr(list(xs))

    @property
    def nan(self):
        from .core import NAN
        return NAN

    def nearest(self, x):
        """x as the nearest double"""
        from . import core
        return core.nearest(core.lift(x))

    def floats(self):
        """context: the code under test runs in rounding arithmetic"""
        from . import core
        return core.floats()

    # -- assumptions ------------------------------------------------------
    def assume(self, c):
        from .core import PathAbandon
        if not c:
            raise PathAbandon

    def _d(self, a, b):
        from .core import lift, p_add
        return p_add(lift(a).p, lift(b).p, -1)

    def assume_lt(self, a, b):
        self.e.constrain(self._d(a, b), '<')

    def assume_le(self, a, b):
        self.e.constrain(self._d(a, b), '<=')

    def assume_ne(self, a, b):
        self.e.constrain(self._d(a, b), '==', negate=True)

    def assume_eq(self, a, b):
        self.e.constrain(self._d(a, b), '==')

    # -- obligations --------------------------------------------------------
    def _fail(self, label, model, zneg=None, detail=''):
        raise SymFailure(label, model, zneg, detail)

    def true(self, cond, label):
        self.e.stats.obligations += 1
        self.labels.add(label.split(':')[0].split('[')[0])
        if not cond:
            self._fail(label, self.e.any_model())
        self.e.stats.discharged += 1
        self.e.stats.trivial += 1

    def _prove(self, a, b, op, label):
        from . import core
        self.e.stats.obligations += 1
        self.labels.add(label.split(':')[0].split('[')[0])
        a, b = core.lift(a), core.lift(b)
        if type(a) is not core.R or type(b) is not core.R:
            ok = (a < b) if op == '<' else (a <= b)
            if not ok:
                self._fail(label, self.e.any_model(),
                           detail=f'{a} {op} {b}')
            self.e.stats.discharged += 1
            return
        d = core.p_add(a.p, b.p, -1)
        r = self.e.prove(d, op)
        if r is not True:
            self._fail(label, r, (d, op, True), f'not {a!r} {op} {b!r}')
        self.e.stats.discharged += 1

    def lt(self, a, b, label):
        self._prove(a, b, '<', label)

    def le(self, a, b, label):
        self._prove(a, b, '<=', label)

    def eq(self, a, b, label, rtol=1e-9, atol=1e-9):
        from . import core
        from .core import R
        import z3
        self.e.stats.obligations += 1
        self.labels.add(label.split(':')[0].split('[')[0])
        if not _numlike(a) or not _numlike(b):
            if a is None or b is None or isinstance(a, str) or isinstance(
                    b, str) or not (_numlike(a) and _numlike(b)):
                same = (a is b) or (_is_nan(a) and _is_nan(b)) or bool(a == b)
                if not same:
                    self._fail(label, self.e.any_model(),
                               detail=f'{a!r} != {b!r}')
                self.e.stats.discharged += 1
                self.e.stats.trivial += 1
                return
        x, y = core.lift(a), core.lift(b)
        if type(x) is not R or type(y) is not R:
            same = (type(x) is not R and type(y) is not R
                    and ((x != x and y != y) or x == y))
            if not same:
                self._fail(label, self.e.any_model(),
                           detail=f'{x!r} != {y!r}')
            self.e.stats.discharged += 1
            self.e.stats.trivial += 1
            return
        d = core.p_add(x.p, y.p, -1)
        if not d or _close_polys(x.p, y.p, rtol):
            self.e.stats.discharged += 1
            self.e.stats.trivial += 1
            return
        if _ln_equal(d):
            self.e.stats.discharged += 1
            return
        # exact equality first, then equality up to the tolerance
        e = self.e
        e.stats.solver_obl += 1
        m = e.model
        far = None
        if m is not None and not m.get('approx'):
            try:
                dv = core.eval_poly(d, dict(m))
                yv = core.eval_poly(y.p, dict(m))
                if abs(dv) > F(rtol) * 1000 * (1 + abs(yv)):
                    far = dict(m)
            except core.NoExact:
                pass
        dc = core.reduce_sqrt(core.clear_denoms(d))
        zd = core.poly_z(dc) != 0
        if far is not None:
            self._fail(label, far, zd, f'{x!r} != {y!r}')
        r = e._check(zd)
        if r == z3.unsat:
            e.stats.discharged += 1
            return
        zx, zy = core.poly_z(d), core.poly_z(y.p)
        bound = z3.If(zy >= 0, zy, -zy) * core.z_rat(F(rtol)) + \
            core.z_rat(F(atol))
        zneg = z3.Or(zx > bound, -zx > bound)
        r = e._check(zneg)
        if r == z3.unsat:
            e.stats.discharged += 1
            return
        if r == z3.unknown:
            raise core.Inconclusive(f'solver unknown at obligation {label}')
        self._fail(label, e._get_model(), zneg, f'{x!r} != {y!r}')

    # -- outputs for translator validation --------------------------------
    def out(self, label, v):
        if isinstance(v, (list, tuple, np.ndarray)) or hasattr(
                v, 'to_numpy'):
            vs = _flat(v)
            self.outs.append((label + '#len', len(vs)))
            for i, x in enumerate(vs):
                self.outs.append((f'{label}[{i}]', x))
        else:
            self.outs.append((label, v))


class SymFailure(BaseException):
    def __init__(self, label, model, zneg, detail):
        self.label = label
        self.model = model
        self.zneg = zneg
        self.detail = detail


def _numlike(x):
    from .core import R
    return type(x) is R or isinstance(
        x, (bool, np.bool_, int, float, np.integer, np.floating, F))


def _ln_equal(d):
    """is d identically 0 by ln(a) + ln(b) = ln(ab)?  (arguments positive)"""
    from . import core
    t = {}
    for m, c in d.items():
        if len(m) != 1 or m[0][1] != 1 or \
                core.REG.atoms[m[0][0]].kind != 'ln':
            return False
        t[m[0][0]] = c
    if len(t) < 2:
        return False
    base = min(abs(c) for c in t.values())
    pos, neg = {core.ONE: F(1)}, {core.ONE: F(1)}
    for i, c in t.items():
        k = c / base
        n = round(k)
        if abs(k - n) > F(1, 10**12) or abs(n) > 6:
            return False
        q = core.REG.atoms[i].args[0].p
        for _ in range(abs(n)):
            if n > 0:
                pos = core.p_mul(pos, q)
            else:
                neg = core.p_mul(neg, q)
            if len(pos) > 3000 or len(neg) > 3000:
                return False
    return not core.clear_denoms(core.p_add(pos, neg, -1))


def _close_polys(a, b, rtol):
    """equal up to rounding of the coefficients, over common denominators"""
    from . import core
    tag = core.REG.get(('tag',), 'var', '_tag')
    t = {((tag.id, 1),): F(1)}
    try:
        p = core.reduce_sqrt(core.clear_denoms(
            core.p_add(a, core.p_mul(b, t))))
    except core.Unsupported:
        return False
    pa, pb = {}, {}
    for m, c in p.items():
        if any(i == tag.id for i, e in m):
            pb[tuple(x for x in m if x[0] != tag.id)] = c
        else:
            pa[m] = c
    big = max([abs(c) for c in pa.values()] + [abs(c) for c in pb.values()]
              + [F(0)])
    # the coefficient scale is only meaningful monomial by monomial
    for m in set(pa) | set(pb):
        x, y = pa.get(m, F(0)), pb.get(m, F(0))
        if abs(x - y) > F(rtol) * max(abs(x), abs(y)) and \
                abs(x - y) > F(1, 10**13) * big:
            return False
    return True


class ConcreteCtx(BaseCtx):
    symbolic = False

    def __init__(self, values, choices, rtol=1e-6, atol=1e-8):
        super().__init__()
        self.values = values
        self.choices = choices
        self.outs = []
        self.rtol, self.atol = rtol, atol
        self.labels = set()

    def text(self, x):
        """printed form of a number"""
        return repr(float(x))

    def real(self, name, lo=None, hi=None):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0)
        return exact.mk(F(v))

    def int(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            v = lo
        return int(F(v))

    def pick(self, name, options):
        return list(options)[self.choices.get(name, 0)]

    def const(self, s):
        return exact.mk(F(s))

    def f(self, x):
        """a scalar as the code under test receives it: a plain float"""
        return None if x is None else float(x)

    def array(self, xs):
        return np.array([float(x) for x in xs], dtype=float)

    def nearest(self, x):
        return exact.mk(F(float(x)))

    def floats(self):
        import contextlib
        return contextlib.nullcontext()

    @property
    def nan(self):
        return np.nan

    def assume(self, c):
        if not c:
            raise Excluded

    def assume_lt(self, a, b):
        self.assume(a < b)

    def assume_le(self, a, b):
        self.assume(a <= b)

    def assume_ne(self, a, b):
        self.assume(a != b)

    def assume_eq(self, a, b):
        self.assume(abs(a - b) <= 1e-12 * (1 + abs(a)))

    def true(self, cond, label):
        self.labels.add(label.split(':')[0].split('[')[0])
        if not cond:
            raise Violation(label)

    def _tol(self, a, b):
        return self.atol + self.rtol * max(abs(a), abs(b))

    def lt(self, a, b, label):
        self.le(a, b, label)

    def le(self, a, b, label):
        if not (float(a) <= float(b) + self._tol(float(a), float(b))):
            raise Violation(label, f'not {a!r} <= {b!r}')

    def eq(self, a, b, label, rtol=None, atol=None):
        if _num(a) and _num(b):
            x, y = float(a), float(b)
            if x != x and y != y:
                return
            if x == y:
                return
            tol = self._tol(x, y)
            if not math.isfinite(x) or not math.isfinite(y) \
                    or abs(x - y) > tol:
                raise Violation(label, f'{x!r} != {y!r}')
            return
        same = (a is b) or (_is_nan(a) and _is_nan(b)) or bool(a == b)
        if not same:
            raise Violation(label, f'{a!r} != {b!r}')

    def out(self, label, v):
        SymCtx.out(self, label, v)


def _num(x):
    return isinstance(x, (bool, np.bool_, int, float, np.integer,
                          np.floating, F))


# ----------------------------------------------------------------------
# running one job symbolically
# ----------------------------------------------------------------------


def _values(eng, model):
    out = {}
    for name, a in eng.vars.items():
        v = model.get(a.id)
        if v is None:
            v = a.lo if a.lo is not None else (
                a.hi if a.hi is not None else F(0))
        out[name] = str(F(v))
    return out


def _path_holds(eng, model):
    """do all decisions of the current path hold under model?  Exactly, or
    with a clear margin when the terms can only be evaluated in floats"""
    from . import core

    def test(key, op):
        p = dict(key)
        try:
            v = core.eval_poly(p, exact)
            return v < 0 if op == '<' else (v <= 0 if op == '<=' else v == 0)
        except core.NoExact:
            v = core.float_poly(p, model, cache)
            if v != v or abs(v) < 1e-7 or op == '==' and abs(v) < 1e-3:
                raise
            return False if op == '==' else v < 0
    exact, cache = dict(model), {}
    try:
        for a in eng.vars.values():
            v = model[a.id]
            if a.lo is not None and v < a.lo or a.hi is not None \
                    and v > a.hi:
                return False
        for d in eng.trace:
            if d.kind == 'b' and test(*d.cond) != d.val:
                return False
        for s in eng.ax_levels:
            for k in s:
                if k[0] == 'assume' and test(k[1], k[2]) != k[3]:
                    return False
                if k[0] == 'assumez':
                    return False
    except (core.NoExact, OverflowError, ZeroDivisionError):
        return False
    return True


def round_model(eng, model):
    """dyadic values that keep every decision of the path, or None"""
    ufs = {i: v for i, v in model.items() if i != 'approx'
           and eng_atom(i).kind == 'uf'}
    for den in (8, 64, 1024, 2**20):
        m = dict(ufs)
        for a in eng.vars.values():
            v = model.get(a.id, F(0))
            m[a.id] = v if a.is_int else F(round(v * den), den)
        if _path_holds(eng, m):
            return m
    return None


def eng_atom(i):
    from . import core
    return core.REG.atoms[i]


def nice_model(eng, zneg, model, dens=(4, 64, 10, 1000)):
    """a counter-model with short decimal/dyadic values when there is one"""
    import z3
    from . import core
    if isinstance(zneg, tuple):
        d, op, _ = zneg
        q, op2, pol = core.canon(d, op)
        z = eng.zcond(q, op2)
        zneg = z3.Not(z) if pol else z
    reals = [a for a in eng.vars.values() if not a.is_int]
    if not reals:
        return model
    for den in dens:
        eng.solver.push()
        try:
            if zneg is not None:
                eng.solver.add(zneg)
            for a in reals:
                k = z3.Int(f'nice!{a.id}!{den}')
                eng.solver.add(a.z * den == z3.ToReal(k))
            eng.solver.set('timeout', 1500)
            eng._hard_model = None
            if eng.solver.check() == z3.sat:
                return eng._get_model()
        finally:
            eng.solver.set('timeout', eng.timeout_ms)
            eng.solver.pop()
    return model


def other_inputs(eng, zneg, model, k=25):
    """further counter-models that differ in the integer inputs"""
    import z3
    from . import core
    if isinstance(zneg, tuple):
        d, op, _ = zneg
        q, op2, pol = core.canon(d, op)
        z = eng.zcond(q, op2)
        zneg = z3.Not(z) if pol else z
    ints = [a for a in eng.vars.values() if a.is_int]
    out = []
    eng.solver.push()
    try:
        if zneg is not None:
            eng.solver.add(zneg)
        for _ in range(k if ints else 0):
            eng.solver.add(z3.Or(*[a.z != int(model[a.id]) for a in ints]))
            eng._hard_model = None
            if eng.solver.check() != z3.sat:
                break
            model = eng._get_model()
            out.append(_values(eng, model))
    finally:
        eng.solver.pop()
    return out


def other_reals(eng, zneg, model, k=4):
    """further counter-models in which the real inputs differ"""
    import z3
    from . import core
    if isinstance(zneg, tuple):
        d, op, _ = zneg
        q, op2, pol = core.canon(d, op)
        z = eng.zcond(q, op2)
        zneg = z3.Not(z) if pol else z
    reals = [a for a in eng.vars.values() if not a.is_int][:12]
    out = []
    if not reals:
        return out
    depth = eng.solver.num_scopes()
    eng.solver.push()
    try:
        eng.solver.set('timeout', 1000)
        if zneg is not None:
            eng.solver.add(zneg)
        rnd = random.Random(7)
        for i in range(k):
            eng.solver.push()
            # each input in a random part of its range, where the path allows
            for a in reals:
                lo = F(-10) if a.lo is None else F(a.lo)
                hi = lo + 20 if a.hi is None else F(a.hi)
                t = lo + (hi - lo) * F(rnd.randrange(1, 59), 64)
                z = z3.And(a.z > core.z_rat(t),
                           a.z < core.z_rat(t + (hi - lo) / 16))
                eng._hard_model = None
                if eng.solver.check(z) == z3.sat:
                    eng.solver.add(z)
            eng._hard_model = None
            if eng.solver.check() == z3.sat:
                out.append(_values(eng, eng._get_model()))
            eng.solver.pop()
    except core.Inconclusive:
        pass
    finally:
        eng.solver.set('timeout', eng.timeout_ms)
        eng.solver.pop(eng.solver.num_scopes() - depth)
        eng._hard_model = None
    return out


def run_symbolic(fn, params, *, max_candidates=4, n_validate=6, deadline=None,
                 timeout_ms=4000, seed=1, budget_paths=None):
    """explore every path of harness fn; returns a plain-data report"""
    from . import core, loader
    core.reset_registry()
    eng = core.Engine(timeout_ms=timeout_ms, deadline=deadline)
    core.activate(eng)
    loader.ENTERED.clear()
    rep = dict(candidates=[], validate=[], inconclusive=[], unsupported=[],
               reached=set(), labels=set(), sample=None, path_reached=0)
    rnd = random.Random(seed)
    t0 = time.time()
    more = True
    st = eng.stats
    warnings.simplefilter('ignore')
    seen_labels = {}
    while more:
        ctx = SymCtx(eng)
        eng.path_begin()
        try:
            try:
                fn(ctx, **params)
                st.paths += 1
                try:
                    _collect(ctx, eng, rep, rnd, n_validate, st)
                except Exception as ex:
                    rep['inconclusive'].append(
                        f'engine error while sampling: {ex!r}')
            finally:
                ctx.unpatch()
                rep['labels'] |= ctx.labels
                rep['reached'] |= ctx.reached
        except core.PathAbandon:
            st.abandoned += 1
        except SymFailure as f:
            st.paths += 1
            key = f.label.split('[')[0]
            if seen_labels.get(key, 0) < (200 if eng.fp else max_candidates):
                seen_labels[key] = seen_labels.get(key, 0) + 1
                m = nice_model(eng, f.zneg, f.model)
                rep['candidates'].append(dict(
                    label=f.label, detail=str(f.detail)[:400],
                    values=_values(eng, m), choices=dict(ctx.choices)))
                if eng.fp:
                    # rounding errors are over-approximated: offer other
                    # inputs for the replay too
                    alt = other_inputs(eng, f.zneg, m)
                else:
                    # exp, log, sin are uninterpreted: at the first model
                    # the two sides may happen to agree
                    alt = other_reals(eng, f.zneg, m)
                last = rep['candidates'][-1]
                for v in alt:
                    rep['candidates'].append(dict(last, values=v, more=True))
            if sum('more' not in c for c in rep['candidates']) >= \
                    (200 if eng.fp else 3 * max_candidates):
                st.truncated += 1
                break
        except core.Inconclusive as ex:
            rep['inconclusive'].append(str(ex))
            if deadline and time.time() > deadline:
                st.truncated += 1
                break
        except core.Unsupported as ex:
            st.unsupported += 1
            _unsup(ctx, eng, rep, f'{ex}')
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as ex:
            st.paths += 1
            tb = traceback.extract_tb(ex.__traceback__)
            where = ' <- '.join(f'{x.filename.split("/")[-1]}:{x.lineno}'
                                for x in reversed(tb[-6:]))
            key = f'exception {type(ex).__name__}'
            seen_labels[key] = seen_labels.get(key, 0) + 1
            if seen_labels[key] <= max_candidates:
                try:
                    m = nice_model(eng, None, eng.any_model())
                    rep['candidates'].append(dict(
                        label=key, detail=f'{ex} at {where}'[:600],
                        values=_values(eng, m), choices=dict(ctx.choices),
                        exc=True))
                except core.PathAbandon:
                    pass
                except core.Inconclusive as e2:
                    rep['inconclusive'].append(str(e2))
            elif seen_labels[key] > 40:
                st.truncated += 1
                break
        if deadline and time.time() > deadline:
            st.truncated += 1
            rep['inconclusive'].append('time budget exhausted')
            break
        if budget_paths and st.paths >= budget_paths:
            st.truncated += 1
            break
        more = eng.backtrack()
    rep['stats'] = st.as_dict()
    rep['fp'] = bool(eng.fp)
    rep['entered'] = sorted(loader.ENTERED)
    rep['reached'] = sorted(rep['reached'])
    rep['labels'] = sorted(rep['labels'])
    rep['wall'] = time.time() - t0
    core.activate(None)
    return rep


def _unsup(ctx, eng, rep, msg):
    from . import core
    ent = dict(msg=msg[:300], values=None)
    if len(rep['unsupported']) < 25:
        try:
            m = nice_model(eng, None, eng.any_model())
            ent.update(values=_values(eng, m), choices=dict(ctx.choices))
        except (core.PathAbandon, core.Inconclusive):
            pass
    rep['unsupported'].append(ent)


def _collect(ctx, eng, rep, rnd, n_validate, st):
    """reservoir-sample paths whose outputs are compared with the real code"""
    from . import core
    k = st.paths
    if len(rep['validate']) < n_validate:
        slot = len(rep['validate'])
        rep['validate'].append(None)
    else:
        slot = rnd.randrange(k)
        if slot >= n_validate:
            return
    try:
        m = dict(eng.any_model())
    except (core.PathAbandon, core.Inconclusive):
        rep['validate'][slot] = None
        return
    m2 = round_model(eng, m)
    if m2 is None:
        m2 = round_model(eng, nice_model(eng, None, m, dens=(64,)))
    if m2 is None:
        # ties that floats cannot represent: not comparable
        rep['validate'][slot] = None
        return
    m = m2
    # derived atoms are evaluated for real, not taken from the solver
    m = {i: v for i, v in m.items() if i in core.REG.atoms_free()}
    cache = {}
    outs = []
    for label, v in ctx.outs:
        if type(v) is core.R:
            try:
                v = core.float_poly(v.p, dict(m), cache)
            except Exception:
                v = '?'
        elif v is None or isinstance(v, str):
            pass
        elif isinstance(v, (bool, np.bool_)):
            v = bool(v)
        else:
            try:
                v = float(v)
            except Exception:
                v = str(v)
        outs.append((label, v))
    rep['validate'][slot] = dict(values=_values(eng, m),
                                 choices=dict(ctx.choices), outs=outs)
