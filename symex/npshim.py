"""numpy on symbolic numbers.

``SA`` is an object-dtype ndarray whose elements are ``R`` numbers (or concrete
nan/inf).  ``NP`` is a stand-in for the ``numpy`` module handed to the code
under test: creation functions yield ``SA`` arrays, functions that cannot work
on objects are given reference implementations that follow numpy's documented
behaviour, everything else is numpy itself.
"""
from __future__ import annotations

import functools
import math
import types

import numpy as np

from . import core
from .core import R, F, NAN, INF, lift, const, Unsupported


def isnan1(x):
    if type(x) is R:
        return False
    if x is None:
        return True
    try:
        return bool(x != x)
    except Exception:
        return False


def isinf1(x):
    return isinstance(x, (float, np.floating)) and type(x) is not R \
        and x in (math.inf, -math.inf)


def _el(x):
    """element of a symbolic array"""
    if type(x) is R:
        return x
    v = lift(x)
    if v is not None:
        return v
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _el(x.item())
    return x


class SA(np.ndarray):
    """object array of symbolic numbers"""

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        return _out(arr)

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray) and v.dtype != object:
            v = to_sa(v)
        elif isinstance(v, (list, tuple)):
            v = to_sa(v)
        elif not isinstance(v, np.ndarray):
            v = _el(v)
        if isinstance(k, SA):
            k = _index(k)
        elif isinstance(k, R):
            pass
        np.ndarray.__setitem__(self, k, v)

    def __getitem__(self, k):
        if isinstance(k, SA):
            k = _index(k)
        elif isinstance(k, tuple):
            k = tuple(_index(i) if isinstance(i, SA) else
                      (i.__index__() if type(i) is R else i) for i in k)
        elif type(k) is R:
            k = k.__index__()
        r = np.ndarray.__getitem__(self, k)
        return r

    # -- dispatch ------------------------------------------------------
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return sa_ufunc(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kw):
        name = func.__name__
        f = IMPL.get(name)
        if f is not None and (func is getattr(np, name, None)
                              or name in ('amin', 'amax', 'round')):
            return f(*args, **kw)
        args = tuple(_strip(a) for a in args)
        kw = {k: _strip(v) for k, v in kw.items()}
        r = func(*args, **kw)
        if isinstance(r, tuple):
            return tuple(_out(x) for x in r)
        return _out(r)

    # -- methods ---------------------------------------------------------
    def astype(self, dtype, *a, **k):
        return sa_astype(self, dtype)

    def mean(self, axis=None, dtype=None, out=None, **k):
        return mean(self, axis, dtype, out, **k)

    def sum(self, axis=None, dtype=None, out=None, **k):
        return np_sum(self, axis, dtype, out, **k)

    def prod(self, axis=None, dtype=None, out=None, **k):
        return prod(self, axis, **k)

    def cumprod(self, axis=None, *a, **k):
        return cumprod(self, axis)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return std(self, axis, ddof=ddof)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return var(self, axis, ddof=ddof)

    def min(self, axis=None, out=None, **k):
        return amin(self, axis, out, **k)

    def max(self, axis=None, out=None, **k):
        return amax(self, axis, out, **k)

    def argmin(self, axis=None, out=None, **k):
        return argmin(self, axis, **k)

    def argmax(self, axis=None, out=None, **k):
        return argmax(self, axis, **k)

    def sort(self, axis=-1, *a, **k):
        self[...] = sort(self, axis)

    def argsort(self, axis=-1, *a, **k):
        return argsort(self, axis, *a, **k)

    def any(self, axis=None, *a, **k):
        return np_any(self, axis, **k)

    def all(self, axis=None, *a, **k):
        return np_all(self, axis, **k)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return clip(self, min, max, out)

    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side, sorter)

    def dot(self, o):
        return _out(np.dot(np.asarray(self, dtype=object),
                           np.asarray(o, dtype=object)))

    def cumsum(self, axis=None, *a, **k):
        return cumsum(self, axis)

    def ptp(self, axis=None):
        return amax(self, axis) - amin(self, axis)

    def nonzero(self):
        return np.array([bool(x) for x in self.flat],
                        dtype=bool).reshape(self.shape).nonzero()

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    def __contains__(self, x):
        return any(bool(y == x) for y in self.flat)


def base(x):
    return x.view(np.ndarray) if isinstance(x, np.ndarray) else x


def _index(k):
    """an SA used as an index: concrete integers or booleans"""
    vals = [x for x in k.flat]
    if vals and all(isinstance(x, (bool, np.bool_)) for x in vals):
        return np.array(vals, dtype=bool).reshape(k.shape)
    if not vals:
        raise IndexError(
            'arrays used as indices must be of integer (or boolean) type')
    raise IndexError(
        'arrays used as indices must be of integer (or boolean) type')


def _strip(a):
    if isinstance(a, SA):
        return base(a)
    if isinstance(a, (list, tuple)):
        return type(a)(_strip(x) for x in a) if type(a) in (list, tuple) \
            else a
    return a


def _out(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            if r.ndim == 0:
                return _el(r.item())
            if all(type(x) is R or core.is_num(x) for x in r.flat):
                return to_sa(r)
            return base(r)
        if isinstance(r, SA):
            return base(r)
        return r
    if type(r) is R:
        return r
    return r


_lift_vec = np.frompyfunc(_el, 1, 1)


def to_sa(x):
    """anything numeric -> SA (elements lifted)"""
    if isinstance(x, SA):
        return x
    if type(x) is R:
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SA)
    a = np.array(x, dtype=object)
    if a.size:
        a = _lift_vec(a)
        if not isinstance(a, np.ndarray):
            b = np.empty((), dtype=object)
            b[()] = a
            a = b
    return a.view(SA)


def sarr(xs):
    """1-d SA from a list of elements"""
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = _el(x)
    return a.view(SA)


def _is_numeric_obj(a):
    return all(type(x) is R or core.is_num(x) for x in a.flat)


def symbolic(x):
    """does x involve symbolic data (so that the shim must handle it)?"""
    if type(x) is R or isinstance(x, SA):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(type(e) is R for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(symbolic(e) for e in x)
    if hasattr(x, 'to_numpy') and not isinstance(x, type):
        try:
            return symbolic(x.to_numpy())
        except Exception:
            return False
    return False


def as_el_array(x):
    """array-like -> SA or native int/bool array or other native"""
    if isinstance(x, SA):
        return x
    if type(x) is R:
        return to_sa(x)
    a = np.asarray(x)
    if a.dtype.kind == 'f':
        return to_sa(a)
    if a.dtype == object and _is_numeric_obj(a):
        if a.size and all(isinstance(e, (bool, np.bool_)) for e in a.flat):
            return a.astype(bool)
        return to_sa(a)
    return a


# ----------------------------------------------------------------------
# ufuncs
# ----------------------------------------------------------------------


def _pick_nan(a, b, better):
    if isnan1(a):
        return a
    if isnan1(b):
        return b
    return a if better(a, b) else b


def _max2(a, b):
    return _pick_nan(a, b, lambda x, y: bool(x >= y))


def _min2(a, b):
    return _pick_nan(a, b, lambda x, y: bool(x <= y))


def _fmax2(a, b):
    if isnan1(a):
        return b
    if isnan1(b):
        return a
    return _max2(a, b)


def _fmin2(a, b):
    if isnan1(a):
        return b
    if isnan1(b):
        return a
    return _min2(a, b)


def _m(name):
    def f(x):
        if type(x) is R:
            return getattr(x, name)()
        return getattr(np, name if name != 'ln' else 'log')(x)
    return f


def _hypot(a, b):
    return core.sqrt(_el(a * a + b * b))


def _arctan2(a, b):
    return core.uf('arctan2', lift(a), lift(b))


def _copysign(a, b):
    return abs(a) if b >= 0 else -abs(a)


UF1 = {
    'isnan': (isnan1, bool), 'isinf': (isinf1, bool),
    'isfinite': (lambda x: not isnan1(x) and not isinf1(x), bool),
    'logical_not': (lambda x: not bool(x), bool),
    'signbit': (lambda x: bool(x < 0), bool),
    'floor': (lambda x: core.floor(_el(x)), object),
    'ceil': (lambda x: -core.floor(-_el(x)), object),
    'trunc': (lambda x: core.trunc(_el(x)), object),
    'rint': (lambda x: core.round_half_even(_el(x), 0), object),
    'exp': (lambda x: core.exp(_el(x)), object),
    'log': (lambda x: core.ln(_el(x)), object),
    'sqrt': (lambda x: core.sqrt(_el(x)), object),
    'absolute': (abs, object), 'fabs': (abs, object),
    'square': (lambda x: x * x, object),
    'reciprocal': (lambda x: 1 / x, object),
    'sign': (lambda x: x if isnan1(x) else lift(
        (x > 0) * 1 - (x < 0) * 1) if type(x) is not R
        else lift(core.sign(x)), object),
    'exp2': (lambda x: lift(2) ** x, object),
    'cbrt': (lambda x: x ** lift(F(1, 3)), object),
    'positive': (lambda x: x, object),
    'conjugate': (lambda x: x, object),
    # exact arithmetic has no floating-point resolution
    'spacing': (lambda x: core.spacing(_el(x)), object),
}
for _n in ('log10', 'log2', 'log1p', 'expm1', 'sin', 'cos', 'tan', 'arcsin',
           'arccos', 'arctan', 'radians', 'deg2rad', 'degrees', 'rad2deg'):
    UF1[_n] = (_m(_n), object)

UF2 = {
    'maximum': (_max2, object), 'minimum': (_min2, object),
    'fmax': (_fmax2, object), 'fmin': (_fmin2, object),
    'hypot': (_hypot, object), 'arctan2': (_arctan2, object),
    'logical_and': (lambda a, b: bool(a) and bool(b), bool),
    'logical_or': (lambda a, b: bool(a) or bool(b), bool),
    'logical_xor': (lambda a, b: bool(a) != bool(b), bool),
    'copysign': (_copysign, object),
    'fmod': (lambda a, b: a - b * core.trunc(_el(a / b)), object),
    'float_power': (lambda a, b: _el(a) ** b, object),
    'power': (lambda a, b: _pow(a, b), object),
    'divide': (lambda a, b: _el(a) / _el(b) if type(_el(a)) is R
               or type(_el(b)) is R else np.divide(a, b), object),
    'multiply': (lambda a, b: a * b, object),
    'remainder': (lambda a, b: _el(a) % b, object),
    'floor_divide': (lambda a, b: _el(a) // b, object),
    'heaviside': (lambda a, b: a if isnan1(a) else (
        lift(0) if a < 0 else (lift(1) if a > 0 else _el(b))), object),
    'ldexp': (lambda a, b: _el(a) * lift(2) ** b, object),
}

# two results
UFT = {
    'divmod': (lambda a, b: _el(a) // b, lambda a, b: _el(a) % b),
    'modf': (lambda x: _el(x) - core.trunc(_el(x)),
             lambda x: core.trunc(_el(x))),
}


def _pow(a, b):
    a, b = _el(a), _el(b)
    if type(a) is not R or type(b) is not R:
        if isnan1(a) or isnan1(b):
            return NAN
        raise Unsupported('power with inf')
    return core.fp_round(core.power(a, b))


def _elems(x):
    """operand -> object ndarray or scalar with lifted elements"""
    if isinstance(x, SA):
        return base(x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        if x.dtype.kind in 'f':
            return base(to_sa(x))
        if x.dtype.kind in 'iub':
            return base(to_sa(x))
        return x
    if isinstance(x, (list, tuple)):
        return base(to_sa(x))
    v = lift(x)
    return x if v is None else v


def sa_ufunc(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    where = kw.pop('where', True)
    kw.pop('casting', None)
    kw.pop('dtype', None)
    if method == '__call__':
        ins = [_elems(x) for x in inputs]
        if name in ('bitwise_and', 'bitwise_or', 'bitwise_xor', 'invert'):
            name = {'bitwise_and': 'logical_and', 'bitwise_or': 'logical_or',
                    'bitwise_xor': 'logical_xor',
                    'invert': 'logical_not'}[name]
        ent = UF1.get(name) or UF2.get(name)
        if name in UFT and where is True and out is None:
            res = tuple(np.frompyfunc(f, len(ins), 1)(*ins)
                        for f in UFT[name])
        elif ent is not None:
            f, dt = ent
            if where is not True:
                w = np.asarray(where, dtype=bool)
                shp = np.broadcast(*[x for x in ins], w).shape
                res = np.empty(shp, dtype=object)
                ob = out[0] if out else None
                bc = [np.broadcast_to(np.asarray(x, dtype=object), shp)
                      for x in ins]
                wb = np.broadcast_to(w, shp)
                for ix in np.ndindex(*shp):
                    if wb[ix]:
                        res[ix] = f(*[b[ix] for b in bc])
                    else:
                        res[ix] = ob[ix] if ob is not None else lift(0)
            else:
                res = np.frompyfunc(f, len(ins), 1)(*ins)
                if isinstance(res, np.ndarray) and dt is bool:
                    res = res.astype(bool)
                elif dt is bool:
                    res = np.bool_(res)
        else:
            if where is not True:
                raise Unsupported(f'ufunc {name} with where')
            res = getattr(ufunc, method)(*ins, **kw)
        if out is not None:
            o = out[0]
            if isinstance(o, SA):
                base(o)[...] = base(to_sa(res)) if isinstance(
                    res, np.ndarray) else res
            else:
                o[...] = res
            return o
        if isinstance(res, tuple):
            return tuple(_out(r) for r in res)
        return _out(res)
    ins = [base(to_sa(x)) if i == 0 else x for i, x in enumerate(inputs)]
    if method == 'reduce':
        axis = kw.pop('axis', 0)
        g = {'maximum': amax, 'minimum': amin, 'add': np_sum,
             'multiply': prod, 'logical_and': np_all,
             'logical_or': np_any}.get(name)
        if kw.get('initial', 0) is np._NoValue:
            del kw['initial']
        if g is not None:
            return g(to_sa(inputs[0]), axis, where=where,
                     **{k: v for k, v in kw.items()
                        if k in ('initial', 'keepdims')})
        if where is not True:
            raise Unsupported('reduce with where')
        return _out(getattr(ufunc, method)(*ins, axis=axis, **kw))
    if method == 'accumulate' and name in ('maximum', 'minimum', 'fmax',
                                           'fmin'):
        f = UF2[name][0]
        axis = kw.get('axis', 0)

        def scan(xs):
            r, acc = [], None
            for x in xs:
                acc = x if acc is None else f(acc, x)
                r.append(acc)
            return r
        if ins[0].ndim == 1:
            return sarr(scan(ins[0]))
        b = np.moveaxis(ins[0].copy(), axis, -1)
        for ix in np.ndindex(*b.shape[:-1]):
            b[ix] = np.array(scan(list(b[ix])), dtype=object)
        return _out(np.moveaxis(b, -1, axis))
    if method == 'outer':
        a, b = [base(to_sa(x)) for x in inputs]
        return sa_ufunc(ufunc, '__call__',
                        (a.reshape(a.shape + (1,) * b.ndim).view(SA), b),
                        None, {})
    if method == 'at':
        a, idx = inputs[0], inputs[1]
        if name in ('add', 'subtract', 'multiply'):
            vals = inputs[2] if len(inputs) > 2 else None
            ix = np.atleast_1d(np.asarray(idx))
            vb = np.broadcast_to(np.asarray(vals, dtype=object), ix.shape)
            for i, v in zip(ix, vb):
                cur = np.ndarray.__getitem__(a, i)
                a[i] = cur + v if name == 'add' else (
                    cur - v if name == 'subtract' else cur * v)
            return None
    if method in ('accumulate', 'reduceat'):
        return _out(getattr(ufunc, method)(*ins, *[], **kw))
    raise Unsupported(f'ufunc {name}.{method}')


# ----------------------------------------------------------------------
# reductions
# ----------------------------------------------------------------------


def _along(f, a, axis, keepdims=False):
    a = as_el_array(a)
    if axis is None:
        r = f(list(a.flat))
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return _out(o)
        return r
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return _along(f, a, None, keepdims)
        ax = tuple(i % a.ndim for i in axis)
        b = np.moveaxis(base(a), ax, range(-len(ax), 0))
        r = _along(f, b.reshape(b.shape[:-len(ax)] + (-1,)).view(type(a)),
                   -1)
        return np.expand_dims(r, ax) if keepdims else r
    axis = axis % a.ndim if a.ndim else 0
    if a.ndim == 1:
        r = f(list(a))
        if keepdims:
            return sarr([r])
        return r
    b = np.moveaxis(base(a), axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = f(list(b[ix]))
    if keepdims:
        out = np.expand_dims(out, axis)
    if all(isinstance(x, (int, np.integer)) and not isinstance(x, bool)
           and type(x) is not R for x in out.flat):
        return out.astype(int)
    return _out(out)


def _sum(xs):
    s = lift(0)
    for x in xs:
        s = _el(s + x)
    return s


def _mean(xs):
    if not len(xs):
        return NAN
    return _el(_sum(xs) / len(xs))


def _var(xs, ddof=0):
    n = len(xs)
    if n == 0:
        return NAN
    m = _mean(xs)
    s = _sum([(x - m) * (x - m) for x in xs])
    d = n - ddof
    if d <= 0:
        d = 0
    return _el(s) / lift(d) if type(_el(s)) is R else NAN


def _max(xs):
    if not len(xs):
        raise ValueError('zero-size array to reduction operation maximum '
                         'which has no identity')
    return functools.reduce(_max2, xs)


def _min(xs):
    if not len(xs):
        raise ValueError('zero-size array to reduction operation minimum '
                         'which has no identity')
    return functools.reduce(_min2, xs)


def _argbest(xs, better, what):
    if not len(xs):
        raise ValueError(f'attempt to get {what} of an empty sequence')
    bi = 0
    if isnan1(xs[0]):
        return 0
    for i in range(1, len(xs)):
        if isnan1(xs[i]):
            return i
        if better(xs[i], xs[bi]):
            bi = i
    return np.intp(bi)


def nn(xs):
    return [x for x in xs if not isnan1(x)]


_SKIP = object()


def _given(x):
    return x is not None and x is not np._NoValue


def _reduce(f, a, axis, keepdims=False, where=None, initial=None, out=None):
    """a reduction with numpy's optional arguments"""
    keepdims = keepdims is True
    a = as_el_array(a)
    if _given(where) and where is not True:
        w = np.broadcast_to(np.asarray(where, dtype=bool), a.shape)
        o = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            o[ix] = base(a)[ix] if w[ix] else _SKIP
        a = o.view(SA)

    def g(xs):
        xs = [x for x in xs if x is not _SKIP]
        if _given(initial):
            xs = [_el(initial)] + xs
        return f(xs)
    r = _along(g, a, axis, keepdims)
    if _given(out):
        out[...] = r
        return out
    return r


def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=None):
    return _reduce(_mean, a, axis, keepdims, where, None, out)


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
           where=None):
    if isinstance(a, types.GeneratorType):
        return sum(a)
    a = as_el_array(a)
    if not isinstance(a, SA):
        return np.sum(a, axis=axis, keepdims=keepdims is True, **{
            k: v for k, v in (('where', where), ('initial', initial))
            if _given(v)})
    return _reduce(_sum, a, axis, keepdims, where, initial, out)


def average(a, axis=None, weights=None, returned=False, keepdims=False):
    a = as_el_array(a)
    if weights is None:
        avg = _along(_mean, a, axis)
        if returned:
            return avg, lift(a.size)
        return avg
    w = as_el_array(weights)
    if a.shape != w.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and '
                            'weights differ.')
        if w.shape[0] != a.shape[axis]:
            raise ValueError('Shape of weights must be consistent with shape '
                             'of a along specified axis.')
        raise Unsupported('average over an axis with 1-d weights')
    if axis is not None and a.ndim != 1:
        raise Unsupported('average over an axis')
    wl, al = list(w.flat), list(a.flat)
    scl = _sum(wl)
    if scl == 0:
        raise ZeroDivisionError(
            "Weights sum to zero, can't be normalized")
    avg = _el(_sum([x * y for x, y in zip(al, wl)]) / scl)
    if returned:
        return avg, scl
    return avg


def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
        where=None, correction=None, **k):
    dd = ddof if correction is None else correction
    return _reduce(lambda xs: _var(xs, dd), a, axis, keepdims, where)


def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
        where=None, correction=None, **k):
    dd = ddof if correction is None else correction

    def f(xs):
        v = _var(xs, dd)
        return core.sqrt(v) if type(v) is R else np.sqrt(v)
    return _reduce(f, a, axis, keepdims, where)


def amax(a, axis=None, out=None, keepdims=False, initial=None, where=None):
    a = as_el_array(a)
    if not isinstance(a, SA):
        return np.max(a, axis=axis)
    return _reduce(_max, a, axis, keepdims, where, initial, out)


def amin(a, axis=None, out=None, keepdims=False, initial=None, where=None):
    a = as_el_array(a)
    if not isinstance(a, SA):
        return np.min(a, axis=axis)
    return _reduce(_min, a, axis, keepdims, where, initial, out)


def argmax(a, axis=None, out=None, keepdims=False):
    a = as_el_array(a)
    if not isinstance(a, SA):
        return np.argmax(a, axis=axis)
    return _along(lambda xs: _argbest(xs, lambda x, y: bool(x > y),
                                      'argmax'), a, axis, keepdims is True)


def argmin(a, axis=None, out=None, keepdims=False):
    a = as_el_array(a)
    if not isinstance(a, SA):
        return np.argmin(a, axis=axis)
    return _along(lambda xs: _argbest(xs, lambda x, y: bool(x < y),
                                      'argmin'), a, axis, keepdims is True)


def _nan_reduce(f, empty=None):
    def g(a, axis=None, **k):
        def h(xs):
            ys = nn(xs)
            if not ys and empty is not None:
                return empty
            return f(ys, **{kk: v for kk, v in k.items() if kk == 'ddof'})
        return _along(h, a, axis, k.get('keepdims', False))
    return g


def _std1(xs, ddof=0):
    v = _var(xs, ddof)
    return core.sqrt(v) if type(v) is R else np.sqrt(v)


def nanargmax(a, axis=None, **k):
    xs = list(as_el_array(a).flat)
    ok = [i for i, x in enumerate(xs) if not isnan1(x)]
    if not ok:
        raise ValueError('All-NaN slice encountered')
    return np.intp(ok[int(_argbest([xs[i] for i in ok],
                                   lambda x, y: bool(x > y), 'argmax'))])


def nanargmin(a, axis=None, **k):
    xs = list(as_el_array(a).flat)
    ok = [i for i, x in enumerate(xs) if not isnan1(x)]
    if not ok:
        raise ValueError('All-NaN slice encountered')
    return np.intp(ok[int(_argbest([xs[i] for i in ok],
                                   lambda x, y: bool(x < y), 'argmin'))])


def cumsum(a, axis=None, dtype=None, out=None):
    a = as_el_array(a)
    if not isinstance(a, SA):
        return np.cumsum(a, axis=axis)
    if a.ndim > 1 and axis is not None:
        return _out(np.cumsum(base(a), axis=axis))
    r, s = [], lift(0)
    for x in a.flat:
        s = _el(s + x)
        r.append(s)
    return sarr(r)


def cumprod(a, axis=None, **k):
    a = as_el_array(a)
    if a.ndim > 1 and axis is not None:
        return _out(np.cumprod(base(to_sa(a)), axis=axis))
    r, s = [], lift(1)
    for x in as_el_array(a).flat:
        s = _el(s * x)
        r.append(s)
    return sarr(r)


def prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
         where=None):
    def f(xs):
        s = lift(1)
        for x in xs:
            s = _el(s * x)
        return s
    return _reduce(f, a, axis, keepdims, where, initial, out)


# ----------------------------------------------------------------------
# sorting and searching
# ----------------------------------------------------------------------


def _lt(a, b):
    """a sorts strictly before b (nan last)"""
    if isnan1(b):
        return not isnan1(a)
    if isnan1(a):
        return False
    return bool(a < b)


def _order(xs):
    """stable argsort (binary insertion)"""
    o = []
    for i, x in enumerate(xs):
        lo, hi = 0, len(o)
        while lo < hi:
            mid = (lo + hi) // 2
            if _lt(x, xs[o[mid]]):
                hi = mid
            else:
                lo = mid + 1
        o.insert(lo, i)
    return o


def argsort(a, axis=-1, kind=None, order=None, stable=None, **k):
    a = as_el_array(a)
    if not isinstance(a, SA):
        return np.argsort(a, axis=axis, kind=kind)
    if a.ndim > 1:
        if axis is None:
            return np.array(_order(list(a.flat)), dtype=np.intp)
        b = np.moveaxis(base(a), axis, -1)
        out = np.empty(b.shape, dtype=np.intp)
        for ix in np.ndindex(*b.shape[:-1]):
            out[ix] = _order(list(b[ix]))
        return np.moveaxis(out, -1, axis)
    return np.array(_order(list(a)), dtype=np.intp)


def sort(a, axis=-1, kind=None, order=None, stable=None, **k):
    a = as_el_array(a)
    if not isinstance(a, SA):
        return np.sort(a, axis=axis, kind=kind)
    if a.ndim > 1:
        if axis is None:
            xs = list(a.flat)
            return sarr([xs[i] for i in _order(xs)])
        b = np.moveaxis(base(a).copy(), axis, -1)
        for ix in np.ndindex(*b.shape[:-1]):
            xs = list(b[ix])
            for j, i in enumerate(_order(xs)):
                b[ix][j] = xs[i]
        return np.moveaxis(b, -1, axis).view(SA)
    xs = list(a)
    return sarr([xs[i] for i in _order(xs)])


def lexsort(keys, axis=-1):
    keys = [list(as_el_array(k)) for k in keys]
    n = len(keys[0])

    def lt(i, j):
        for k in reversed(keys):
            if _lt(k[i], k[j]):
                return True
            if _lt(k[j], k[i]):
                return False
        return False
    o = []
    for i in range(n):
        lo, hi = 0, len(o)
        while lo < hi:
            mid = (lo + hi) // 2
            if lt(i, o[mid]):
                hi = mid
            else:
                lo = mid + 1
        o.insert(lo, i)
    return np.array(o, dtype=np.intp)


def _unique_rows(a, return_index, return_inverse, return_counts):
    """sorted distinct rows; as in numpy, rows with nan are all distinct"""
    rows = [list(r) for r in base(a)]
    o = list(lexsort([[r[c] for r in rows] for c in range(a.shape[1])][::-1]))
    idx, inv, cnt = [], [0] * len(rows), []
    for i in o:
        if not idx or not all(
                not isnan1(x) and not isnan1(y) and bool(x == y)
                for x, y in zip(rows[i], rows[idx[-1]])):
            idx.append(i)
            cnt.append(0)
        cnt[-1] += 1
        inv[i] = len(idx) - 1
    out = [base(a)[np.array(idx, dtype=np.intp)].view(SA)]
    if return_index:
        out.append(np.array(idx, dtype=np.intp))
    if return_inverse:
        out.append(np.array(inv, dtype=np.intp))
    if return_counts:
        out.append(np.array(cnt, dtype=np.intp))
    return out[0] if len(out) == 1 else tuple(out)


def unique(ar, return_index=False, return_inverse=False, return_counts=False,
           axis=None, equal_nan=True, sorted=True):
    a = as_el_array(ar)
    if not isinstance(a, SA):
        return np.unique(a, return_index, return_inverse, return_counts, axis)
    if axis == 0 and a.ndim == 2:
        return _unique_rows(a, return_index, return_inverse, return_counts)
    xs = list(a.flat)
    o = _order(xs)
    vals, idx, cnt = [], [], []
    inv = [0] * len(xs)
    for i in o:
        x = xs[i]
        same = vals and ((isnan1(x) and isnan1(vals[-1]))
                         or (not isnan1(x) and not isnan1(vals[-1])
                             and bool(x == vals[-1])))
        if not same:
            vals.append(x)
            idx.append(i)
            cnt.append(0)
        else:
            idx[-1] = min(idx[-1], i)
        cnt[-1] += 1
        inv[i] = len(vals) - 1
    out = [sarr(vals)]
    if return_index:
        out.append(np.array(idx, dtype=np.intp))
    if return_inverse:
        out.append(np.array(inv, dtype=np.intp).reshape(a.shape))
    if return_counts:
        out.append(np.array(cnt, dtype=np.intp))
    return out[0] if len(out) == 1 else tuple(out)


def searchsorted(a, v, side='left', sorter=None):
    a = as_el_array(a)
    xs = list(a)
    if sorter is not None:
        xs = [xs[int(i)] for i in sorter]

    def one(x):
        lo, hi = 0, len(xs)
        while lo < hi:
            mid = (lo + hi) // 2
            if (_lt(xs[mid], x) if side == 'left' else not _lt(x, xs[mid])):
                lo = mid + 1
            else:
                hi = mid
        return lo
    if np.ndim(v) == 0:
        return np.intp(one(v if not isinstance(v, np.ndarray) else v.item()))
    vv = as_el_array(v)
    return np.array([one(x) for x in vv.flat], dtype=np.intp).reshape(
        vv.shape)


def digitize(x, bins, right=False):
    b = list(as_el_array(bins))
    if len(b) > 1 and bool(b[0] > b[-1]):
        rev = searchsorted(sarr(b[::-1]), x,
                           side='right' if right else 'left')
        return len(b) - rev
    return searchsorted(sarr(b), x, side='left' if right else 'right')


def histogram_bin_edges(a, bins=10, range=None, weights=None):
    if np.ndim(bins) == 0:
        xs = list(as_el_array(a).flat)
        if range is None:
            lo, hi = (_min(xs), _max(xs)) if xs else (lift(0), lift(1))
        else:
            lo, hi = range
        if bool(lo == hi):
            lo, hi = lo - F(1, 2), hi + F(1, 2)
        return linspace(lo, hi, int(bins) + 1)
    return as_el_array(bins)


def histogram(a, bins=10, range=None, density=None, weights=None):
    edges = histogram_bin_edges(a, bins, range)
    e = list(edges)
    for i, _ in enumerate(e[:-1]):
        if bool(e[i] > e[i + 1]):
            raise ValueError('`bins` must increase monotonically, '
                             'when an array')
    n = len(e) - 1
    xs = list(as_el_array(a).flat)
    ws = None if weights is None else list(as_el_array(weights).flat)
    if ws is not None and len(ws) != len(xs):
        raise ValueError('weights should have the same shape as a.')
    cnt = [0] * n if ws is None else [lift(0)] * n
    for j, x in enumerate(xs):
        if isnan1(x):
            continue
        if not bool(x >= e[0]) or not bool(x <= e[-1]):
            continue
        lo, hi = 0, n - 1
        # largest i with e[i] <= x
        while lo < hi:
            mid = (lo + hi + 1) // 2
            if bool(e[mid] <= x):
                lo = mid
            else:
                hi = mid - 1
        cnt[lo] = cnt[lo] + (1 if ws is None else ws[j])
    if ws is None and not density:
        return np.array(cnt, dtype=np.intp), edges
    c = sarr(cnt)
    if density:
        tot = _sum(list(c))
        c = sarr([c[i] / (e[i + 1] - e[i]) / tot for i, _ in enumerate(cnt)])
    return c, edges


def bincount(x, weights=None, minlength=0):
    x = np.asarray(x)
    if x.dtype == object:
        x = np.array([int(i) for i in x], dtype=int)
    if weights is None:
        return np.bincount(x, minlength=minlength)
    w = list(as_el_array(weights))
    n = max(int(x.max()) + 1 if len(x) else 0, minlength)
    c = [lift(0)] * n
    for i, v in zip(x, w):
        c[i] = _el(c[i] + v)
    return sarr(c)


def isin(element, test_elements, assume_unique=False, invert=False, **k):
    e = as_el_array(element)
    t = list(as_el_array(test_elements).flat)
    r = np.array([any(bool(x == y) for y in t) for x in e.flat],
                 dtype=bool).reshape(e.shape)
    return ~r if invert else r


def _close(a, b, rtol, atol, equal_nan):
    if isnan1(a) or isnan1(b):
        return bool(equal_nan and isnan1(a) and isnan1(b))
    if isinf1(a) or isinf1(b):
        return bool(a == b)
    # rounding is monotone: the comparison is the same with or without it
    # (up to a difference that rounds onto the tolerance)
    with core.floats(False):
        return bool(abs(_el(a) - b) <= lift(atol) + lift(rtol) * abs(_el(b)))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if np.ndim(a) == 0 and np.ndim(b) == 0:
        return np.bool_(_close(_el(a), _el(b), rtol, atol, equal_nan))
    x, y = np.broadcast_arrays(base(to_sa(a)), base(to_sa(b)))
    out = np.empty(x.shape, dtype=bool)
    for ix in np.ndindex(*x.shape):
        out[ix] = _close(x[ix], y[ix], rtol, atol, equal_nan)
    return out


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    x, y = np.broadcast_arrays(base(to_sa(a)), base(to_sa(b)))
    for ix in np.ndindex(*x.shape):
        if not _close(x[ix], y[ix], rtol, atol, equal_nan):
            return False
    return True


def array_equal(a, b, equal_nan=False):
    x, y = base(as_el_array(a)), base(as_el_array(b))
    if x.shape != y.shape:
        return False
    for ix in np.ndindex(*x.shape):
        if not bool(x[ix] == y[ix]) and not (
                equal_nan and isnan1(x[ix]) and isnan1(y[ix])):
            return False
    return True


def _quantile(xs, q):
    """linear interpolation; q in [0, 1]"""
    if not xs or any(isnan1(x) for x in xs):
        return NAN
    o = _order(xs)
    ys = [xs[i] for i in o]
    q = lift(q)
    h = q * (len(ys) - 1)
    if not h.is_const():
        lo = int(core.floor(h))
    else:
        lo = math.floor(h.cval())
    lo = max(0, min(lo, len(ys) - 1))
    hi = min(lo + 1, len(ys) - 1)
    return _el(ys[lo] + (ys[hi] - ys[lo]) * (h - lo))


def quantile(a, q, axis=None, **k):
    if np.ndim(q):
        return sarr([_along(lambda xs: _quantile(xs, qq), a, axis)
                     for qq in q])
    return _along(lambda xs: _quantile(xs, q), a, axis)


def percentile(a, q, axis=None, **k):
    if np.ndim(q):
        return quantile(a, [lift(x) / 100 for x in q], axis)
    return quantile(a, lift(q) / 100, axis)


def nanquantile(a, q, axis=None, **k):
    if np.ndim(q):
        return sarr([_along(lambda xs: _quantile(nn(xs), qq), a, axis)
                     for qq in q])
    return _along(lambda xs: _quantile(nn(xs), q), a, axis)


def nanpercentile(a, q, axis=None, **k):
    if np.ndim(q):
        return nanquantile(a, [lift(x) / 100 for x in q], axis)
    return nanquantile(a, lift(q) / 100, axis)


def median(a, axis=None, **k):
    return _along(lambda xs: _quantile(xs, F(1, 2)), a, axis)


def nanmedian(a, axis=None, **k):
    return _along(lambda xs: _quantile(nn(xs), F(1, 2)), a, axis)


def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(as_el_array(xp)), list(as_el_array(fp))

    def one(v):
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        if bool(v >= xp[-1]):
            return fp[-1] if right is None or bool(v == xp[-1]) else right
        i = int(searchsorted(sarr(xp), v, side='right')) - 1
        return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (
            xp[i + 1] - xp[i])
    if np.ndim(x) == 0:
        return _el(one(_el(x)))
    return sarr([one(v) for v in as_el_array(x)])


def around(a, decimals=0, out=None):
    if np.ndim(a) == 0:
        return core.round_half_even(_el(a), decimals)
    a = as_el_array(a)
    if not isinstance(a, SA):
        return np.round(a, decimals)
    return _out(np.frompyfunc(
        lambda x: core.round_half_even(x, decimals), 1, 1)(base(a)))


def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    if out is not None:
        out[...] = clip(a, a_min, a_max, None, min, max)
        return out
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = as_el_array(a)
    if a_min is not None:
        r = sa_ufunc(np.maximum, '__call__', (r, a_min), None, {})
    if a_max is not None:
        r = sa_ufunc(np.minimum, '__call__', (r, a_max), None, {})
    return r


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    f = np.frompyfunc(lambda e: lift(nan) if isnan1(e) else e, 1, 1)
    return _out(f(base(as_el_array(x))))


def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = list(as_el_array(y))
    xs = None if x is None else list(as_el_array(x))
    s = lift(0)
    for i in range(len(y) - 1):
        d = lift(dx) if xs is None else xs[i + 1] - xs[i]
        s = s + d * (y[i] + y[i + 1]) / 2
    return s


def np_where(cond, *ab):
    if isinstance(cond, SA):
        cond = np.array([bool(x) for x in cond.flat],
                        dtype=bool).reshape(cond.shape)
    if not ab:
        return np.nonzero(cond)
    a, b = ab
    if symbolic(a) or symbolic(b) or _floaty(a) or _floaty(b):
        c, x, y = np.broadcast_arrays(
            np.asarray(cond, dtype=bool), base(to_sa(a)), base(to_sa(b)))
        out = np.empty(c.shape, dtype=object)
        for ix in np.ndindex(*c.shape):
            out[ix] = x[ix] if c[ix] else y[ix]
        return _out(out)
    return np.where(cond, a, b)


def _floaty(x):
    if isinstance(x, (float, np.floating)):
        return True
    return isinstance(x, np.ndarray) and x.dtype.kind == 'f'


def diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = as_el_array(a)
    if not isinstance(a, SA):
        kw = {}
        if prepend is not np._NoValue:
            kw['prepend'] = prepend
        if append is not np._NoValue:
            kw['append'] = append
        return np.diff(a, n=n, axis=axis, **kw)
    if a.ndim > 1:
        return _out(np.diff(base(a), n=n, axis=axis))
    xs = list(a)
    if prepend is not np._NoValue:
        xs = list(np.atleast_1d(base(to_sa(prepend)))) + xs
    if append is not np._NoValue:
        xs = xs + list(np.atleast_1d(base(to_sa(append))))
    for _ in range(n):
        xs = [y - x for x, y in zip(xs, xs[1:])]
    return sarr(xs)


def dot(a, b):
    return _out(np.dot(base(to_sa(a)), base(to_sa(b))))


def matmul(a, b):
    return _out(np.dot(base(to_sa(a)), base(to_sa(b))))


def outer(a, b):
    return _out(np.outer(base(to_sa(a)), base(to_sa(b))))


def cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None,
        aweights=None, **k):
    if fweights is not None or aweights is not None:
        raise Unsupported('np.cov with weights')
    m = np.atleast_2d(base(to_sa(m)))
    if not rowvar and m.shape[0] != 1:
        m = m.T
    if y is not None:
        y = np.atleast_2d(base(to_sa(y)))
        if not rowvar and y.shape[0] != 1:
            y = y.T
        m = np.concatenate((m, y), axis=0)
    n = m.shape[1]
    d = n - ((0 if bias else 1) if ddof is None else ddof)
    c = [[x - mu for x in row] for row in m for mu in [_mean(list(row))]]
    o = np.empty((len(c), len(c)), dtype=object)
    for i, p in enumerate(c):
        for j, q in enumerate(c):
            o[i, j] = _el(_sum([s * t for s, t in zip(p, q)]) / lift(d)) \
                if d > 0 else NAN
    return _out(np.squeeze(o))


def gradient(f, *varargs, axis=None, edge_order=1):
    if len(varargs) > 1 or edge_order != 1 or axis not in (None, 0, -1):
        raise Unsupported('np.gradient')
    f = list(as_el_array(f))
    n = len(f)
    if n < 2:
        raise ValueError('Shape of array too small to calculate a numerical '
                         'gradient')
    h = varargs[0] if varargs else 1
    if np.ndim(h):
        x = list(as_el_array(h))
        d = [b - a for a, b in zip(x, x[1:])]
    else:
        d = [h] * (n - 1)
    r = [(f[1] - f[0]) / d[0]]
    for i in range(1, n - 1):
        p, q = d[i - 1], d[i]
        r.append((p * p * f[i + 1] + (q * q - p * p) * f[i]
                  - q * q * f[i - 1]) / (p * q * (p + q)))
    r.append((f[-1] - f[-2]) / d[-1])
    return sarr(r)


def fromiter(it, dtype=None, count=-1, **k):
    xs = list(it) if count < 0 else [x for x, _ in zip(it, range(count))]
    if not any(type(x) is R for x in xs):
        return _relift(np.fromiter(iter(xs), dtype=dtype))
    return sa_astype(sarr(xs), dtype)


class vectorize:
    def __init__(self, pyfunc=None, otypes=None, **k):
        self.f, self.k, self.otypes = pyfunc, k, otypes

    def __call__(self, *a, **k):
        v = np.vectorize(self.f, **self.k)
        if not any(symbolic(x) or _floaty(x) for x in
                   list(a) + list(k.values())):
            if self.otypes is not None:
                v = np.vectorize(self.f, otypes=self.otypes, **self.k)
            return _relift(v(*a, **k))
        if self.otypes is not None and len(self.otypes) != 1 or self.k:
            raise Unsupported('np.vectorize')
        sh = np.broadcast(*[np.asarray(x, dtype=object) for x in a]).shape
        b = [np.broadcast_to(base(to_sa(x)) if symbolic(x) or _floaty(x)
                             else np.asarray(x), sh) for x in a]
        o = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh):
            o[ix] = self.f(*[x[ix] for x in b], **k)
        r = _out(o)
        if self.otypes is not None and isinstance(r, SA):
            r = sa_astype(r, self.otypes[0])
        elif isinstance(r, np.ndarray) and r.size and all(
                isinstance(x, (bool, np.bool_)) for x in r.flat):
            r = np.array(r.tolist(), dtype=bool)
        return r


def _bools(a):
    a = as_el_array(a)
    return np.array([bool(x) for x in a.flat], dtype=bool).reshape(a.shape)


def _logic(native):
    def g(a, axis=None, out=None, keepdims=False, where=True, **k):
        if isinstance(a, types.GeneratorType):
            return native(a)
        k = {}
        if keepdims is True:
            k['keepdims'] = True
        if where is not True and where is not np._NoValue:
            k['where'] = np.asarray(where, dtype=bool)
        return native(_bools(a), axis=axis, **k)
    return g


np_any = _logic(np.any)
np_all = _logic(np.all)


def count_nonzero(a, axis=None, **k):
    a = as_el_array(a)
    if axis is not None:
        return np.count_nonzero(base(a), axis=axis)
    return int(sum(bool(x) for x in a.flat))


def ptp(a, axis=None, **k):
    return amax(a, axis) - amin(a, axis)


def append(arr, values, axis=None):
    a, b = as_el_array(arr), as_el_array(values)
    return concatenate((np.ravel(base(a)), np.ravel(base(b)))) \
        if axis is None else concatenate((a, b), axis=axis)


def concatenate(arrs, axis=0, **k):
    xs = [as_el_array(a) for a in arrs]
    if any(isinstance(x, SA) for x in xs):
        xs = [base(to_sa(x)) if x.dtype.kind in 'fiubO' and (
            x.dtype != object or _is_numeric_obj(x)) else x for x in xs]
    return _out(np.concatenate(xs, axis=axis))


def hstack(t, **k):
    return concatenate([np.atleast_1d(base(as_el_array(x))) for x in t])


def stack(arrs, axis=0, **k):
    xs = [as_el_array(a) for a in arrs]
    if any(isinstance(x, SA) for x in xs):
        xs = [base(to_sa(x)) for x in xs]
    return _out(np.stack(xs, axis=axis))


def vstack(t, **k):
    xs = [as_el_array(a) for a in t]
    if any(isinstance(x, SA) for x in xs):
        xs = [base(to_sa(x)) for x in xs]
    return _out(np.vstack(xs))


def column_stack(t):
    xs = [as_el_array(a) for a in t]
    if any(isinstance(x, SA) for x in xs):
        xs = [base(to_sa(x)) for x in xs]
    return _out(np.column_stack(xs))


# ----------------------------------------------------------------------
# creation
# ----------------------------------------------------------------------


def _is_float_dtype(dt):
    if dt is None:
        return True
    if dt is object:
        return False
    try:
        return np.dtype(dt).kind in 'f'
    except TypeError:
        return False


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return int(s)


def full(shape, fill_value, dtype=None, **k):
    if dtype is None and isinstance(fill_value, (bool, np.bool_)):
        return np.full(_shape(shape), fill_value)
    if dtype is None and isinstance(fill_value, (int, np.integer)) \
            and type(fill_value) is not R:
        return np.full(_shape(shape), fill_value)
    if _is_float_dtype(dtype) and (core.is_num(fill_value)
                                   or type(fill_value) is R):
        a = np.empty(_shape(shape), dtype=object)
        a[...] = _el(fill_value)
        return a.view(SA)
    return np.full(_shape(shape), fill_value, dtype=dtype)


def zeros(shape, dtype=None, **k):
    if _is_float_dtype(dtype):
        return full(shape, lift(0))
    return np.zeros(_shape(shape), dtype=dtype)


def ones(shape, dtype=None, **k):
    if _is_float_dtype(dtype):
        return full(shape, lift(1))
    return np.ones(_shape(shape), dtype=dtype)


def empty(shape, dtype=None, **k):
    if _is_float_dtype(dtype):
        return full(shape, NAN)
    return np.empty(_shape(shape), dtype=dtype)


def _like(f):
    def g(a, *args, dtype=None, **k):
        a = as_el_array(a)
        if dtype is None and not isinstance(a, SA):
            return f(a.shape, *args, dtype=a.dtype)
        return f(a.shape, *args, dtype=dtype)
    return g


def _full_like(a, fill_value, dtype=None, **k):
    a = as_el_array(a)
    if dtype is None and not isinstance(a, SA):
        return np.full_like(a, fill_value)
    return full(a.shape, lift(fill_value) if isinstance(
        fill_value, int) and dtype is None else fill_value, dtype=dtype)


def eye(n, m=None, k=0, dtype=None, **kk):
    a = np.eye(n, m, k)
    return to_sa(a) if _is_float_dtype(dtype) else a.astype(dtype)


class TDArray(np.ndarray):
    """array of symbolic time differences"""
    __array_ufunc__ = None

    def astype(self, dtype, *a, **k):
        if dtype is object or np.dtype(dtype).kind == 'm':
            return self.copy()
        raise Unsupported(f'astype {dtype}')

    def _each(self, f):
        r = np.empty(self.shape, dtype=object).view(TDArray)
        for i in np.ndindex(self.shape):
            r[i] = f(self[i])
        return r

    def __neg__(self):
        return self._each(lambda x: -x)

    def __mul__(self, k):
        return self._each(lambda x: x * k)
    __rmul__ = __mul__


def array(obj, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(obj, TDArray):
        return obj if dtype is None else obj.astype(dtype)
    if isinstance(obj, SA):
        a = obj.copy() if copy else obj
        if dtype is not None and dtype is not object:
            a = sa_astype(a, dtype)
    else:
        if isinstance(obj, (types.GeneratorType, map, filter)):
            return np.array(obj, dtype=object)
        if isinstance(obj, set):
            return np.array(obj)
        if dtype is not None and not _is_float_dtype(dtype):
            if symbolic(obj) and dtype is not object:
                return sa_astype(to_sa(obj), dtype)
            a = np.array(obj, dtype=dtype)
        elif dtype is None:
            a = np.array(obj, copy=True if copy else None)
            a = as_el_array(a)
        else:
            a = np.array(obj)
            a = to_sa(a) if a.dtype.kind in 'fiubO' else np.array(
                obj, dtype=dtype)
    if ndmin and a.ndim < ndmin:
        a = a.reshape((1,) * (ndmin - a.ndim) + a.shape)
    return a


def asarray(obj, dtype=None, **k):
    if isinstance(obj, np.ndarray) and dtype is None and (
            isinstance(obj, (SA, TDArray)) or obj.dtype.kind not in 'fO'):
        return obj
    if isinstance(obj, SA) and _is_float_dtype(dtype):
        return obj
    return array(obj, dtype=dtype, copy=False)


def atleast_1d(*arys):
    r = []
    for x in arys:
        a = as_el_array(x)
        r.append(a.reshape(1) if a.ndim == 0 else a)
    return r[0] if len(r) == 1 else tuple(r)


def arange(*args, dtype=None, **k):
    if 'start' in k:
        args = (k['start'],) + args
    if 'stop' in k:
        args = (args[0] if args else 0, k['stop'])
    if 'step' in k:
        args = (args + ((k['step'],))) if len(args) == 2 else (
            0, args[0], k['step'])
    if len(args) == 1:
        args = (0, args[0], 1)
    elif len(args) == 2:
        args = (args[0], args[1], 1)
    if all(isinstance(x, (int, np.integer)) and type(x) is not R
           for x in args):
        a = np.arange(*args)
        return a if dtype is None or not _is_float_dtype(dtype) else to_sa(a)
    if any(isinstance(x, (np.datetime64, np.timedelta64)) for x in args):
        return np.arange(*args)
    st, sp, d = [lift(x) for x in args]
    step = d if not core.FP else (st + d) - st
    n = (sp - st) / d
    if type(n) is not R:
        raise ValueError('arange: cannot compute length')
    n = -core.floor(-n)
    n = math.ceil(n.cval()) if n.is_const() else int(n)
    return sarr([st + step * i for i in range(max(n, 0))])


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
             axis=0):
    num = int(num)
    st, sp = lift(start), lift(stop)
    div = num - 1 if endpoint else num
    step = (sp - st) / div if div else NAN
    a = sarr([st + (sp - st) * F(i, div) if div else st
              for i in range(num)])
    return (a, step) if retstep else a


def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None):
    e = linspace(start, stop, num, endpoint)
    return sarr([lift(base) ** x for x in e])


def sa_astype(a, dtype):
    if dtype is object or np.dtype(dtype) == object:
        return a.copy()
    dt = np.dtype(dtype)
    if dt.kind == 'f':
        return to_sa(base(a).copy())
    if dt.kind in 'iu':
        vals = [core.trunc(_el(x)) for x in a.flat]
        if all(v.is_const() for v in vals):
            return np.array([int(v.cval()) for v in vals],
                            dtype=dt).reshape(a.shape)
        o = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            o[i] = v
        return o.reshape(a.shape).view(SA)
    if dt.kind == 'b':
        return np.array([bool(x) for x in a.flat],
                        dtype=bool).reshape(a.shape)
    if dt.kind in 'US':
        return np.array([str(x) for x in a.flat]).reshape(a.shape)
    raise Unsupported(f'astype {dt}')


def ufunc_wrapper(name):
    uf = getattr(np, name)

    class W:
        __name__ = name

        def __call__(self, *a, out=None, where=True, **k):
            if any(symbolic(x) for x in a) or any(
                    _floaty(x) for x in a):
                if len(a) > uf.nin:
                    out, a = a[uf.nin], a[:uf.nin]
                return _scalar(sa_ufunc(
                    uf, '__call__', a,
                    None if out is None else (
                        out if isinstance(out, tuple) else (out,)),
                    {'where': where} if where is not True else {}))
            kk = dict(k)
            if out is not None:
                kk['out'] = out
            if where is not True:
                kk['where'] = where
            return uf(*a, **kk)

        def __getattr__(self, n):
            return getattr(uf, n)

        def reduce(self, a, axis=0, **k):
            if symbolic(a):
                return sa_ufunc(uf, 'reduce', (a,), None,
                                {'axis': axis, **k})
            return uf.reduce(a, axis=axis, **k)

        def accumulate(self, a, axis=0, **k):
            if symbolic(a):
                return sa_ufunc(uf, 'accumulate', (a,), None,
                                {'axis': axis})
            return uf.accumulate(a, axis=axis, **k)

        def outer(self, a, b, **k):
            if symbolic(a) or symbolic(b):
                return sa_ufunc(uf, 'outer', (a, b), None, {})
            return uf.outer(a, b, **k)

        def at(self, a, *r):
            if isinstance(a, SA):
                return sa_ufunc(uf, 'at', (a,) + r, None, {})
            return uf.at(a, *r)
    return W()


def _scalar(r):
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r.item()
    return r


IMPL = dict(
    mean=mean, sum=np_sum, average=average, var=var, std=std, amax=amax,
    max=amax, amin=amin, min=amin, argmax=argmax, argmin=argmin,
    nansum=_nan_reduce(_sum), nanmean=_nan_reduce(_mean, NAN),
    nanstd=_nan_reduce(_std1, NAN), nanvar=_nan_reduce(_var, NAN),
    nanmax=_nan_reduce(_max, NAN), nanmin=_nan_reduce(_min, NAN),
    nanargmax=nanargmax, nanargmin=nanargmin,
    cumsum=cumsum, cumprod=cumprod, prod=prod,
    argsort=argsort, sort=sort, lexsort=lexsort, unique=unique,
    searchsorted=searchsorted, digitize=digitize, histogram=histogram,
    histogram_bin_edges=histogram_bin_edges, bincount=bincount, isin=isin,
    in1d=isin, isclose=isclose, allclose=allclose, array_equal=array_equal,
    quantile=quantile, percentile=percentile, nanquantile=nanquantile,
    nanpercentile=nanpercentile, median=median, nanmedian=nanmedian,
    interp=interp, around=around, round=around, clip=clip,
    nan_to_num=nan_to_num, trapezoid=trapezoid, where=np_where, diff=diff,
    dot=dot, matmul=matmul, outer=outer, cov=cov, any=np_any, all=np_all,
    count_nonzero=count_nonzero, ptp=ptp, append=append,
    concatenate=concatenate, hstack=hstack, vstack=vstack, stack=stack,
    column_stack=column_stack, full_like=_full_like,
    zeros_like=_like(zeros), ones_like=_like(ones), empty_like=_like(empty),
    atleast_1d=atleast_1d, gradient=gradient,
)

CREATE = dict(full=full, zeros=zeros, ones=ones, empty=empty, eye=eye,
              array=array, asarray=asarray, asanyarray=asarray,
              ascontiguousarray=asarray, arange=arange, linspace=linspace,
              logspace=logspace, fromiter=fromiter, vectorize=vectorize)


def _guard(name, f, native):
    """use the reference implementation only where floats are involved"""
    @functools.wraps(f)
    def g(*a, **k):
        if any(symbolic(x) or _floaty(x) for x in a) or any(
                symbolic(x) or _floaty(x) for x in k.values()):
            return f(*a, **k)
        if name in ('concatenate', 'hstack', 'vstack', 'stack',
                    'column_stack', 'append', 'zeros_like', 'ones_like',
                    'full_like', 'empty_like', 'atleast_1d'):
            return f(*a, **k)
        return _relift(native(*a, **k))
    return g


def _relift(r):
    if isinstance(r, np.ndarray) and r.dtype.kind == 'f' \
            and not isinstance(r, SA):
        return to_sa(r)
    return r


class NPShim(types.ModuleType):
    """the ``numpy`` seen by the code under test"""

    def __init__(self):
        super().__init__('numpy')
        d = self.__dict__
        for n, f in IMPL.items():
            nat = getattr(np, n, None)
            d[n] = _guard(n, f, nat) if nat is not None else f
        d.update(CREATE)
        for n in list(UF1) + list(UF2) + [
                'add', 'subtract', 'negative', 'greater', 'less', 'equal',
                'greater_equal', 'less_equal', 'not_equal', 'bitwise_and',
                'bitwise_or', 'bitwise_xor', 'invert', 'true_divide', 'abs',
                'mod', 'divmod', 'modf', 'heaviside', 'ldexp']:
            if hasattr(np, n):
                d[n] = ufunc_wrapper(n)
        d['float64'] = _Float64
        d['double'] = _Float64

    def __getattr__(self, n):
        return getattr(np, n)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __call__(cls, x=0.0):
        if type(x) is R:
            return x
        if isinstance(x, np.ndarray):
            return to_sa(x)
        return _el(np.float64(x))


class _Float64(float, metaclass=_FloatMeta):
    dtype = np.dtype('float64')


NP = NPShim()


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        d = self.__dict__

        def one(name, f):
            nat = getattr(math, name)

            def g(x, *a):
                if type(x) is R:
                    return f(x, *a)
                return nat(x, *a)
            d[name] = g
        def _log(x, b=None):
            r = core.ln(x)
            if type(r) is not R:
                raise ValueError('math domain error')
            return r if b is None else r / core.ln(lift(b))

        def _dom(f):
            def h(x):
                r = f(x)
                if type(r) is not R:
                    raise ValueError('math domain error')
                return r
            return h
        one('log', _log)
        one('log10', _dom(lambda x: x.log10()))
        one('log2', _dom(lambda x: x.log2()))
        one('log1p', _dom(lambda x: x.log1p()))
        one('exp', core.exp)
        one('sqrt', _dom(core.sqrt))
        one('floor', core.floor)
        one('ceil', lambda x: -core.floor(-x))
        one('trunc', core.trunc)
        one('fabs', abs)
        one('isnan', lambda x: False)
        one('isinf', lambda x: False)
        one('isfinite', lambda x: True)
        for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan'):
            one(n, (lambda m: lambda x: core.uf(m, x))(
                n.replace('a', 'arc', 1) if n.startswith('a') else n))
        one('radians', lambda x: x.radians())
        one('degrees', lambda x: x.degrees())

        def _pow2(a, b):
            return _pow(a, b) if type(a) is R or type(b) is R \
                else math.pow(a, b)
        d['pow'] = _pow2

        def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
            if type(a) is R or type(b) is R:
                m = _max2(abs(lift(a)), abs(lift(b)))
                return bool(abs(lift(a) - b) <= _max2(
                    m * lift(rel_tol), lift(abs_tol)))
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d['isclose'] = _isclose

        def _fsum(xs):
            return sum(xs)
        d['fsum'] = _fsum

        def _dist(p, q):
            return core.sqrt(_sum([(lift(a) - b) * (lift(a) - b)
                                   for a, b in zip(p, q)]))
        d['dist'] = _dist

        def _modf(x):
            if type(x) is R:
                t = core.trunc(x)
                return x - t, t
            return math.modf(x)
        d['modf'] = _modf

        def _fmod(a, b):
            if type(a) is R or type(b) is R:
                return lift(a) - b * core.trunc(lift(a) / b)
            return math.fmod(a, b)
        d['fmod'] = _fmod

        def _csign(a, b):
            if type(a) is R or type(b) is R:
                return abs(lift(a)) if b >= 0 else -abs(lift(a))
            return math.copysign(a, b)
        d['copysign'] = _csign

        def _atan2(a, b):
            if type(a) is R or type(b) is R:
                return core.uf('arctan2', lift(a), lift(b))
            return math.atan2(a, b)
        d['atan2'] = _atan2

        def _hyp(*a):
            return core.sqrt(_sum([x * x for x in map(lift, a)]))
        d['hypot'] = _hyp

    def __getattr__(self, n):
        return getattr(math, n)


MATH = MathShim()
