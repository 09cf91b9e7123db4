"""Symbolic numbers and the path-forking engine.

``R`` is a symbolic number in canonical form: a polynomial with exact rational
coefficients over *atoms* (solver variables, or applications such as
``1/q``, ``ln q``, ``exp m``, ``sqrt q``, ``floor q``, uninterpreted functions).
The real code of /repo runs on such numbers; every comparison it makes is a
branch that the engine decides with the SMT solver (forking the execution when
both outcomes are feasible) and every property obligation is an SMT query over
the path condition.
"""
from __future__ import annotations

import functools
import math
import sys
import time
from fractions import Fraction as F

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402
import numpy as np  # noqa: E402

NAN = np.float64('nan')
INF = np.float64('inf')
NINF = np.float64('-inf')

# ----------------------------------------------------------------------
# control flow
# ----------------------------------------------------------------------


class PathAbandon(BaseException):
    """The current path is infeasible or excluded by an assumption."""


class Unsupported(Exception):
    """The engine cannot encode an operation on symbolic data."""


class Inconclusive(BaseException):
    """The solver answered unknown: the path must not count as checked."""


_ENGINE = None


def engine() -> 'Engine':
    if _ENGINE is None:
        raise RuntimeError('no symbolic engine active')
    return _ENGINE


# ----------------------------------------------------------------------
# atoms
# ----------------------------------------------------------------------
class Atom:
    __slots__ = ('id', 'kind', 'name', 'is_int', 'z', 'args', 'lo', 'hi',
                 'pos')

    def __init__(self, id_, kind, name, is_int, args=()):
        self.id = id_
        self.kind = kind      # var inv ln exp sqrt floor uf
        self.name = name
        self.is_int = is_int
        self.args = args      # tuple of R / monomials (exp)
        self.z = None
        self.lo = self.hi = None
        self.pos = kind in ('exp',)


class Registry:
    def __init__(self):
        self.by_key = {}
        self.atoms = []
        self.squares = {}
        self.texts, self.text_of = {}, {}

    def get(self, key, kind, name, is_int=False, args=()):
        a = self.by_key.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, name, is_int, args)
            self.atoms.append(a)
            self.by_key[key] = a
            if kind != 'exp':
                zn = f'{name}!{a.id}'
                a.z = z3.Int(zn) if is_int else z3.Real(zn)
        return a

    def atoms_free(self):
        return {a.id for a in self.atoms if a.kind in ('var', 'uf')}


REG = Registry()


def reset_registry():
    global REG
    REG = Registry()
    _MONO_Z.clear()
    _ZC.clear()


# ----------------------------------------------------------------------
# polynomials: dict {monomial: Fraction}; monomial = tuple of (atom id, exp)
# ----------------------------------------------------------------------
ONE = ()


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        s = d.get(i, 0) + e
        if s == 0:
            d.pop(i, None)
        else:
            d[i] = s
    return tuple(sorted(d.items()))


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + (c if k == 1 else k * c)
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r


def p_mul(a, b):
    if len(a) == 1 and ONE in a:
        k = a[ONE]
        return {m: c * k for m, c in b.items()}
    if len(b) == 1 and ONE in b:
        k = b[ONE]
        return {m: c * k for m, c in a.items()}
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            s = r.get(m, 0) + c1 * c2
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = s
    return r


def p_key(p):
    return tuple(sorted(p.items()))


def p_scale(p, k):
    return {m: c * k for m, c in p.items()}


_MONO_Z = {}
_ZC = {}


def z_rat(fr):
    return z3.RealVal(f'{fr.numerator}/{fr.denominator}') \
        if fr.denominator != 1 else z3.RealVal(fr.numerator)


def mono_z(m):
    """z3 term of a monomial (None for the unit monomial)."""
    z = _MONO_Z.get(m)
    if z is not None:
        return z
    fac = []
    odd = []
    for i, e in m:
        a = REG.atoms[i]
        if a.kind == 'exp' or not (isinstance(e, int) and e > 0):
            odd.append((i, e))
        else:
            t = z3.ToReal(a.z) if a.is_int else a.z
            fac.extend([t] * e)
    for ie in odd:
        # exp atoms and non-natural powers: one positive real per power
        key = ('pw', ie)
        t = _MONO_Z.get(key)
        if t is None:
            t = z3.Real(f'pw!{ie[0]}!{ie[1]}')
            _MONO_Z[key] = t
        engine().need_axiom(('pwpos', ie), lambda t=t: [t > 0])
        fac.append(t)
    z = fac[0] if len(fac) == 1 else z3.Product(*fac)
    if not odd:
        _MONO_Z[m] = z
    return z


def p_is_intpoly(p):
    for m, c in p.items():
        if c.denominator != 1:
            return False
        for i, e in m:
            if not REG.atoms[i].is_int or not (isinstance(e, int) and e > 0):
                return False
    return True


def poly_z(p):
    """z3 Real/Int term of a polynomial."""
    if p_is_intpoly(p):
        ts = []
        for m, c in p.items():
            if m == ONE:
                ts.append(z3.IntVal(int(c)))
                continue
            fac = []
            for i, e in m:
                fac.extend([REG.atoms[i].z] * e)
            t = fac[0] if len(fac) == 1 else z3.Product(*fac)
            ts.append(t if c == 1 else z3.IntVal(int(c)) * t)
        return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.IntVal(0))
    ts = []
    for m, c in p.items():
        if m == ONE:
            ts.append(z_rat(c))
        else:
            t = mono_z(m)
            ts.append(t if c == 1 else z_rat(c) * t)
    return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))


def p_atoms(p):
    s = set()
    for m in p:
        for i, e in m:
            s.add(i)
    return s


def all_atoms(p, acc=None):
    """atoms of p and, transitively, of the atoms' arguments"""
    acc = set() if acc is None else acc
    for i in p_atoms(p):
        if i not in acc:
            acc.add(i)
            for a in REG.atoms[i].args:
                if isinstance(a, R):
                    all_atoms(a.p, acc)
    return acc


def clear_denoms(p, positive=False):
    """Multiply p by the denominators of its inv atoms (squared if odd and
    ``positive`` so that the sign is unchanged).  Only valid where they are
    nonzero, which every path that built the atom has assumed."""
    for _ in range(40):
        mx = {}
        for m in p:
            for i, e in m:
                if REG.atoms[i].kind == 'inv':
                    mx[i] = max(mx.get(i, 0), e)
        if not mx:
            return p
        # outermost denominators first (largest id: built last)
        i = max(mx)
        k = mx[i]
        if positive and k % 2:
            k += 1
        q = REG.atoms[i].args[0].p
        pw = [{ONE: 1}]
        for _j in range(k):
            pw.append(p_mul(pw[-1], q))
        r = {}
        for m, c in p.items():
            e = 0
            rest = []
            for ii, ee in m:
                if ii == i:
                    e = ee
                else:
                    rest.append((ii, ee))
            r = p_add(r, p_mul({tuple(rest): c}, pw[k - e]))
        p = r
        if len(p) > 4000:
            raise Unsupported('denominator blow-up')
    raise Unsupported('denominator nesting')


def reduce_sqrt(p):
    """replace s^2 by its radicand for sqrt atoms"""
    changed = True
    while changed:
        changed = False
        for m, c in list(p.items()):
            for i, e in m:
                a = REG.atoms[i]
                if a.kind == 'sqrt' and isinstance(e, int) and e >= 2:
                    rest = tuple((ii, ee) for ii, ee in m if ii != i)
                    if e - 2:
                        rest = m_mul(rest, ((i, e - 2),))
                    p = dict(p)
                    del p[m]
                    p = p_add(p, p_mul({rest: c}, a.args[0].p))
                    changed = True
                    break
            if changed:
                break
    return p


# ----------------------------------------------------------------------
# numbers
# ----------------------------------------------------------------------

LN10 = F(repr(math.log(10)))


def N(f):
    """integral coefficients are kept as Python ints (much faster)"""
    return f.numerator if f.denominator == 1 else f


def qd(a, b):
    if b == 1:
        return a
    if type(a) is int and type(b) is int:
        if a % b == 0:
            return a // b
        return F(a, b)
    f = a / b if type(a) is F else F(a) / b
    return f.numerator if f.denominator == 1 else f


# text: the printed form of a symbolic number is an opaque word which reads
# back as the number (printing and reading floats is exact)
TEXT_MODE = False
_WORD = 'SymbolicNumber'


def text(r):
    r = lift(r)
    if type(r) is not R:
        return str(r)
    if r.is_const():
        return repr(float(r.cval()))
    k = r.key()
    i = REG.texts.setdefault(k, len(REG.texts))
    REG.text_of[i] = r
    return f'{_WORD}{i}z'


def untext(s):
    if isinstance(s, str) and _WORD in s:
        t = s.strip()
        if t.startswith(_WORD) and t.endswith('z') \
                and t[len(_WORD):-1].isdigit():
            return REG.text_of[int(t[len(_WORD):-1])]
    return None


def lift(x):
    """Python / numpy number -> R, or a concrete special (nan, inf)."""
    if type(x) is R:
        return x
    if isinstance(x, (bool, np.bool_)):
        return R({ONE: 1}) if x else R({})
    if isinstance(x, (int, np.integer)):
        x = int(x)
        return R({ONE: x}) if x else R({})
    if isinstance(x, F):
        return R({ONE: x}) if x else R({})
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            return np.float64(x)
        f = F(x) if FP else snap(x)
        return R({ONE: N(f)}) if f else R({})
    return None


# ----------------------------------------------------------------------
# float mode: every inexact operation adds its own bounded rounding error
# ----------------------------------------------------------------------

FP = False
U53 = F(1, 2**53)


class floats:
    """with floats(): arithmetic on symbolic numbers rounds like doubles"""

    def __init__(self, on=True):
        self.on = on

    def __enter__(self):
        global FP
        self.old, FP = FP, self.on
        engine().fp = engine().fp or self.on

    def __exit__(self, *a):
        global FP
        FP = self.old


def atom_interval(a):
    if a.kind in ('var', 'err'):
        return getattr(a, 'lo', None), getattr(a, 'hi', None)
    if a.kind == 'floor':
        lo, hi = interval(a.args[0].p)
        return (None if lo is None else math.floor(lo),
                None if hi is None else math.floor(hi))
    if a.kind == 'uf' and a.name.startswith('spacing('):
        lo, hi = interval(a.args[0].p)
        if lo is None or hi is None:
            return None, None
        return 0, max(abs(lo), abs(hi)) * 2 * U53 + F(1, 2**1074)
    return None, None


def interval(p):
    lo = hi = F(0)
    for m, c in p.items():
        a, b = F(c), F(c)
        for i, e in m:
            x, y = atom_interval(REG.atoms[i])
            if x is None or y is None or not isinstance(e, int):
                return None, None
            for _ in range(e):
                q = (a * x, a * y, b * x, b * y)
                a, b = min(q), max(q)
        lo, hi = lo + a, hi + b
    return lo, hi


def fp_round(r):
    """the double an operation with the exact result r may return"""
    if not FP or type(r) is not R:
        return r
    if r.is_const():
        c = r.cval()
        if isinstance(c, int) and abs(c) < 2**53:
            return r
        c = N(F(float(c)))
        return R({ONE: c}) if c else R({})
    if p_is_intpoly(r.p):
        return r
    lo, hi = interval(r.p)
    if lo is None:
        raise Unsupported('float mode: unbounded value')
    m = max(abs(lo), abs(hi))
    # half an ulp of the largest binade below m (m itself, as a power of two,
    # is exact)
    e = math.frexp(float(m))[1] + 1
    while F(2) ** (e - 1) >= m:
        e -= 1
    return R(p_add(r.p, err_atom(r, F(2) ** (e - 1) * U53).p))


def err_atom(r, bound):
    a = REG.get(('err', r.key()), 'err', 'err', args=(r,))
    a.lo, a.hi = -bound, bound
    engine().touch(a)
    return R({((a.id, 1),): 1})


def nearest(r):
    """the double nearest to the exact value r"""
    with floats():
        return fp_round(r)


def spacing(x):
    if not FP:
        return lift(0)
    return uf('spacing', abs(x))


@functools.lru_cache(100000)
def snap(x):
    """exact value meant by a float: the 14-digit decimal it approximates to
    within a few ulps, or else its shortest repr"""
    f = F(repr(x))
    s = F(f'{x:.14g}')
    if s != f and abs(s - f) <= 4 * F(math.ulp(x)):
        return s
    return f


def is_num(x):
    return isinstance(x, (bool, np.bool_, int, float, np.integer, np.floating,
                          F)) or type(x) is R


def is_special(x):
    return type(x) is not R


def const(x):
    """Exact rational constant ('0.1', 1, Fraction)."""
    f = N(F(x))
    return R({ONE: f}) if f else R({})


class R:
    __slots__ = ('p', '_k')
    __array_priority__ = -1

    def __init__(self, p):
        self.p = p
        self._k = None

    # -- identity -------------------------------------------------------
    @property
    def __class__(self):
        return float

    def is_const(self):
        p = self.p
        return not p or (len(p) == 1 and ONE in p)

    def cval(self):
        return self.p.get(ONE, 0)

    def key(self):
        if self._k is None:
            self._k = p_key(self.p)
        return self._k

    def __hash__(self):
        return hash(self.cval()) if self.is_const() else 0

    def __repr__(self):
        if self.is_const():
            c = self.cval()
            if c.denominator == 1 and abs(c) < 10**15:
                return repr(float(c))
            return repr(float(c))
        parts = []
        for m, c in list(self.p.items())[:6]:
            s = '*'.join(f'{REG.atoms[i].name}' + (f'^{e}' if e != 1 else '')
                         for i, e in m)
            parts.append(f'{float(c):g}' + ('*' + s if s else ''))
        if len(self.p) > 6:
            parts.append('...')
        return '<' + ' + '.join(parts) + '>'

    def __str__(self):
        return text(self) if TEXT_MODE else repr(self)

    def __format__(self, spec):
        if TEXT_MODE and not self.is_const():
            if not spec:
                return text(self)
            if spec[0] == '.' and spec[-1] == 'f' and spec[1:-1].isdigit():
                return text(round_half_even(self, int(spec[1:-1])))
            raise Unsupported(f'format {spec}')
        if self.is_const():
            c = self.cval()
            if spec and spec[-1] in 'dxXbco':
                return format(int(c), spec)
            return format(float(c), spec)
        return repr(self)

    def __reduce__(self):
        raise Unsupported('pickling a symbolic number')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- arithmetic -----------------------------------------------------
    def __add__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        if is_special(o):
            return o
        r = R(p_add(self.p, o.p))
        return r if not FP or not self.p or not o.p else fp_round(r)
    __radd__ = __add__

    def __neg__(self):
        return R({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        if is_special(o):
            return -o
        r = R(p_add(self.p, o.p, -1))
        return r if not FP or not self.p or not o.p else fp_round(r)

    def __rsub__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        if is_special(o):
            return o
        r = R(p_add(o.p, self.p, -1))
        return r if not FP or not self.p or not o.p else fp_round(r)

    def __mul__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        if is_special(o):
            if o != o:
                return o
            s = sign(self)
            return NAN if s == 0 else (o if s > 0 else -o)
        r = R(_mulp(self.p, o.p))
        if self.p is o.p:
            _note_square(self.p, r.p)
        return r if not FP or _pow2(self) or _pow2(o) else fp_round(r)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        if is_special(o):
            return o if o != o else R({})
        r = divide(self, o)
        return r if not FP or _pow2(o) else fp_round(r)

    def __rtruediv__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        if is_special(o):
            if o != o:
                return o
            s = sign(self)
            return o if s >= 0 else -o
        return fp_round(divide(o, self))

    def __floordiv__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        q = self / o
        return q.__floor__() if type(q) is R else q

    def __rfloordiv__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        q = o / self
        return q.__floor__() if type(q) is R else q

    def __mod__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        q = self / o
        if type(q) is not R:
            return NAN
        return self - o * q.__floor__()

    def __rmod__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        return o % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        o = _co(o)
        if o is None:
            return NotImplemented
        if is_special(o):
            raise Unsupported('pow with special exponent')
        return fp_round(power(self, o))

    def __rpow__(self, o):
        o = _co(o)
        if o is None:
            return NotImplemented
        if is_special(o):
            raise Unsupported('pow of special base')
        return fp_round(power(o, self))

    def __abs__(self):
        if self.is_const():
            return R({ONE: abs(self.cval())}) if self.p else self
        return self if self >= 0 else -self

    # -- comparisons: decided eagerly (forking) --------------------------
    def __lt__(self, o):
        return _cmp(self, o, '<')

    def __le__(self, o):
        return _cmp(self, o, '<=')

    def __gt__(self, o):
        return _cmp(self, o, '>')

    def __ge__(self, o):
        return _cmp(self, o, '>=')

    def __eq__(self, o):
        return _cmp(self, o, '==')

    def __ne__(self, o):
        r = _cmp(self, o, '==')
        return r if r is NotImplemented else np.bool_(not r)

    def __bool__(self):
        return not bool(_cmp(self, 0, '=='))

    # -- conversions ------------------------------------------------------
    def __float__(self):
        if self.is_const():
            return float(self.cval())
        return float(engine().concretise(self))

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        t = trunc(self)
        return int(engine().concretise(t))

    def __index__(self):
        if self.is_const():
            if self.cval().denominator != 1:
                raise TypeError("'float' object cannot be interpreted as an "
                                "integer")
            return int(self.cval())
        if not p_is_intpoly(self.p):
            raise TypeError("'float' object cannot be interpreted as an "
                            "integer")
        return int(engine().concretise(self))

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __trunc__(self):
        return trunc(self)

    def __round__(self, n=None):
        return round_half_even(self, n)

    def rint(self):
        return round_half_even(self, 0)

    def floor(self):
        return floor(self)

    def ceil(self):
        return -floor(-self)

    def trunc(self):
        return trunc(self)

    def is_integer(self):
        return bool(self == floor(self))

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R({})

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        return self

    def tolist(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def round(self, n=0):
        return round_half_even(self, n)

    def mean(self):
        return self

    # -- transcendental ----------------------------------------------------
    def exp(self):
        return exp(self)

    def log(self):
        return ln(self)

    def log10(self):
        r = ln(self)
        return r / R({ONE: LN10}) if type(r) is R else r

    def log2(self):
        r = ln(self)
        return r / lift(math.log(2)) if type(r) is R else r

    def log1p(self):
        return ln(self + 1)

    def expm1(self):
        return exp(self) - 1

    def sqrt(self):
        return sqrt(self)

    def square(self):
        return self * self

    def sin(self):
        return uf('sin', self)

    def cos(self):
        return uf('cos', self)

    def tan(self):
        return uf('tan', self)

    def arcsin(self):
        return uf('arcsin', self)

    def arccos(self):
        return uf('arccos', self)

    def arctan(self):
        return uf('arctan', self)

    def arctan2(self, o):
        return uf('arctan2', self, o)

    def radians(self):
        return self * lift(math.pi / 180)
    deg2rad = radians

    def degrees(self):
        return self * lift(180 / math.pi)
    rad2deg = degrees

    def sign(self):
        return lift(sign(self))

    def isnan(self):
        return False


def _pow2(x):
    """multiplying by x is exact"""
    if not x.is_const():
        return False
    c = abs(F(x.cval()))
    return c.numerator & (c.numerator - 1) == 0 and \
        c.denominator & (c.denominator - 1) == 0


def _co(o):
    """coerce an operand; None when it is not a number"""
    if type(o) is R:
        return o
    if isinstance(o, np.ndarray):
        return None
    return lift(o)


def _mulp(a, b):
    r = p_mul(a, b)
    # keep sqrt powers reduced
    for m in r:
        for i, e in m:
            if e != 1 and REG.atoms[i].kind == 'sqrt':
                return reduce_sqrt(r)
    return r


def _cmp(a, o, op):
    o = _co(o)
    if o is None:
        return NotImplemented
    if is_special(o):
        if o != o:
            return np.bool_(False)
        if op == '==':
            return np.bool_(False)
        if o > 0:
            return np.bool_(op in ('<', '<='))
        return np.bool_(op in ('>', '>='))
    d = p_add(a.p, o.p, -1)
    if op == '>':
        d, op = {m: -c for m, c in d.items()}, '<'
    elif op == '>=':
        d, op = {m: -c for m, c in d.items()}, '<='
    return np.bool_(engine().branch(d, op))


def sign(x):
    """-1, 0, 1 (forking)"""
    if x.is_const():
        c = x.cval()
        return (c > 0) - (c < 0)
    if x > 0:
        return 1
    return 0 if x == 0 else -1


def norm_den(q):
    """q = k * q' with q' monic in its canonical leading term"""
    lead = max(q)
    k = q[lead]
    return k, ({m: qd(c, k) for m, c in q.items()})


def divide(a, b):
    if b.is_const():
        c = b.cval()
        if c == 0:
            s = sign(a)
            return NAN if s == 0 else (INF if s > 0 else NINF)
        return R({m: qd(v, c) for m, v in a.p.items()})
    if b == 0:
        s = sign(a)
        return NAN if s == 0 else (INF if s > 0 else NINF)
    if not a.p:
        return a
    # no nested denominators: expand the fraction by those of b
    ap, bp = a.p, b.p
    mx = {}
    for m in bp:
        for i, e in m:
            if REG.atoms[i].kind == 'inv':
                mx[i] = max(mx.get(i, 0), e)
    if mx and len(bp) > 1:
        for i in sorted(mx, reverse=True):
            bp = _mul_clear(bp, i, mx[i])
            ap = _mul_clear(ap, i, mx[i])
        a, b = R(ap), R(bp)
        if b.is_const():
            return divide(a, b)
    k, q = norm_den(b.p)
    # exact quotient by a multiple?
    if len(a.p) == len(q):
        la = max(a.p)
        r = a.p[la]
        if all(m in q and c == r * q[m] for m, c in a.p.items()):
            return R({ONE: qd(r, k)})
    if len(q) == 1:
        # monomial denominator: invert the factors one by one
        (m, c), = q.items()
        inv = {ONE: 1}
        for i, e in m:
            at = REG.atoms[i]
            if at.kind == 'exp':
                inv = p_mul(inv, {((i, -e),): 1})
            elif at.kind == 'inv':
                base = at.args[0].p
                for _ in range(e):
                    inv = p_mul(inv, base)
            else:
                ia = inv_atom(R({((i, 1),): 1}))
                inv = p_mul(inv, {((ia.id, e),): 1})
        r = _mulp(a.p, p_scale(inv, qd(1, k * c)))
        return R(cancel_inv(r))
    ia = inv_atom(R(q))
    return R(_mulp(a.p, {((ia.id, 1),): qd(1, k)}))


def cancel_inv(p):
    """x * inv(x) = 1 inside monomials, for atom denominators"""
    r = {}
    for m, c in p.items():
        d = dict(m)
        for i in list(d):
            at = REG.atoms[i]
            if at.kind == 'inv' and i in d:
                q = at.args[0].p
                if len(q) == 1:
                    (qm, qc), = q.items()
                    if len(qm) == 1 and qm[0][0] in d and qc == 1:
                        j = qm[0][0]
                        if isinstance(d[j], int):
                            k = min(d[i], d[j])
                            d[i] -= k
                            d[j] -= k
                            if not d[i]:
                                del d[i]
                            if not d[j]:
                                del d[j]
        mm = tuple(sorted(d.items()))
        s = r.get(mm, 0) + c
        if s == 0:
            r.pop(mm, None)
        else:
            r[mm] = s
    return r


def inv_atom(q):
    a = REG.get(('inv', q.key()), 'inv', f'inv({q!r})', args=(q,))
    engine().touch(a)
    return a


def _note_square(p, sq):
    """remember that sq == p**2, for its root"""
    if len(p) > 1 and sq:
        k, q = norm_den(sq)
        if k < 0:
            k, q = -k, p_scale(q, -1)
        REG.squares[p_key(q)] = (k, p)


def power(a, b):
    if b.is_const():
        e = b.cval()
        if e.denominator == 1 and abs(e) <= 64:
            n = int(e)
            if n < 0:
                return divide(const(1), power(a, const(-n)))
            r = {ONE: 1}
            for _ in range(n):
                r = _mulp(r, a.p)
            if n == 2:
                _note_square(a.p, r)
            return R(r)
        if a.is_const():
            c = a.cval()
            if c > 0:
                return lift(float(c) ** float(e))
            if c == 0:
                return lift(0) if e > 0 else INF
            return NAN
        if e == F(1, 2):
            return sqrt(a)
        s = sign(a)
        if s < 0:
            return NAN
        if s == 0:
            return R({}) if e > 0 else INF
        return exp(ln(a) * b)
    if a.is_const():
        c = a.cval()
        if c == 1:
            return a
        if c == 10:
            return exp(b * R({ONE: LN10}))
        if c > 0:
            return exp(b * ln(a))
    s = sign(a)
    if s > 0:
        return exp(b * ln(a))
    raise Unsupported('power of a non-positive base')


def exp(x):
    if is_special(x):
        return np.exp(x)
    if x.is_const():
        c = x.cval()
        if abs(c) > 600:
            raise Unsupported('exp overflow')
        if c == 0:
            return const(1)
        f = math.exp(float(c))
        # keep exact powers of ten exact
        k = c / LN10
        if abs(k - round(k)) < F(1, 10**12):
            return const(F(10) ** int(round(k)))
        return lift(f)
    r = const(1)
    k = F(0)
    for m, c in cancel_inv(x.p).items():
        if m == ONE:
            k = c
            continue
        if len(m) == 1 and m[0][1] == 1 and REG.atoms[m[0][0]].kind == 'ln':
            # exp(c * ln t) = t ^ c
            t = REG.atoms[m[0][0]].args[0]
            rc = round(float(c))
            if abs(c - rc) < F(1, 10**9) and abs(rc) <= 16:
                r = r * power(t, const(int(rc)))
                continue
            if abs(2 * c - round(float(2 * c))) < F(1, 10**9) \
                    and abs(c) <= 8:
                r = r * power(sqrt(t), const(int(round(float(2 * c)))))
                continue
        a = REG.get(('exp', m), 'exp', f'exp({R({m: 1})!r})',
                    args=(R({m: 1}),))
        r = R(_mulp(r.p, {((a.id, c),): 1}))
    if k:
        r = r * exp(R({ONE: k}))
    return r


def ln(x):
    if is_special(x):
        return np.log(x)
    if x.is_const():
        c = x.cval()
        if c > 0:
            if c == 1:
                return R({})
            # exact multiples of LN10 for powers of ten
            n, d = c.numerator, c.denominator
            k = round(math.log10(n) - math.log10(d))
            if F(10) ** k == c:
                return R({ONE: LN10 * k})
            return lift(math.log(n) - math.log(d))
        return NINF if c == 0 else NAN
    s = sign(x)
    if s <= 0:
        return NINF if s == 0 else NAN
    if len(x.p) == 1:
        # x > 0, so ln of a product is the sum over the absolute factors
        (m, c), = x.p.items()
        out = ln(R({ONE: abs(c)}))
        for i, e in m:
            at = REG.atoms[i]
            if at.kind == 'exp':
                out = out + at.args[0] * R({ONE: e})
            elif at.kind == 'inv':
                q = at.args[0]
                out = out - ln(q if _positive(q) else -q) * R({ONE: e})
            elif at.kind == 'sqrt':
                out = out + ln(at.args[0]) * R({ONE: F(e) / 2})
            else:
                q = R({((i, 1),): 1})
                if _positive(q):
                    q = R({((_ln_atom(q), 1),): e})
                else:
                    q = R({((_ln_atom(-q), 1),): e})
                out = out + q
        return out
    # pull the content out: ln(k*q) = ln k + ln q, and split off denominators
    invs = {}
    for m in x.p:
        for i, e in m:
            if REG.atoms[i].kind == 'inv':
                invs[i] = max(invs.get(i, 0), e)
    if invs:
        num = x
        out = R({})
        for i, e in sorted(invs.items(), reverse=True):
            q = REG.atoms[i].args[0]
            qq = q if _positive(q) else -q
            out = out - ln(qq) * R({ONE: e})
            num = R(_mul_clear(num.p, i, e))
            if qq is not q and e % 2:
                num = -num
        return ln(num) + out
    # canonical powers of the (positive) exponentials: the smallest is 0
    low = {}
    for m in x.p:
        for i, e in m:
            if REG.atoms[i].kind == 'exp':
                low.setdefault(i, []).append(e)
    low = {i: (min(es) if len(es) == len(x.p) else min(min(es), 0))
           for i, es in low.items()}
    low = {i: e for i, e in low.items() if e}
    if low:
        f = {tuple(sorted((i, -e) for i, e in low.items())): 1}
        out = R({})
        for i, e in low.items():
            out = out + REG.atoms[i].args[0] * R({ONE: e})
        return ln(R(p_mul(x.p, f))) + out
    k, q = norm_den(x.p)
    if k > 0:
        out = ln(R({ONE: k}))
        return out + R({((_ln_atom(R(q)), 1),): 1})
    k, q = -k, p_scale(q, -1)
    return ln(R({ONE: k})) + R({((_ln_atom(R(q)), 1),): 1})


def _positive(q):
    """is the (nonzero) denominator or factor q positive here?  (forks)"""
    return bool(_cmp(R({}), q, '<'))


def _mul_clear(p, i, k):
    q = REG.atoms[i].args[0].p
    pw = [{ONE: 1}]
    for _j in range(k):
        pw.append(p_mul(pw[-1], q))
    r = {}
    for m, c in p.items():
        e = 0
        rest = []
        for ii, ee in m:
            if ii == i:
                e = ee
            else:
                rest.append((ii, ee))
        if e > k:
            r = p_add(r, {m_mul(tuple(rest), ((i, e - k),)): c})
        else:
            r = p_add(r, p_mul({tuple(rest): c}, pw[k - e]))
    return cancel_inv(r)


def _ln_atom(q):
    a = REG.get(('ln', q.key()), 'ln', f'ln({q!r})', args=(q,))
    engine().touch(a)
    return a.id


def sqrt(x):
    if is_special(x):
        return np.sqrt(x)
    if x.is_const():
        c = x.cval()
        if c < 0:
            return NAN
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return const(F(n, d))
        return lift(math.sqrt(c))
    k, q = norm_den(x.p)
    if k < 0:
        k, q = -k, p_scale(q, -1)
    root = REG.squares.get(p_key(q))
    if root is not None:
        return sqrt(R({ONE: k / F(root[0])})) * abs(R(root[1]))
    if x < 0:
        return NAN
    # sqrt(k*q) with k a rational square is common: pull the content out
    a = REG.get(('sqrt', p_key(q)), 'sqrt', f'sqrt({R(q)!r})', args=(R(q),))
    engine().touch(a)
    return sqrt(R({ONE: k})) * R({((a.id, 1),): 1})


def floor(x):
    if is_special(x):
        return np.floor(x)
    if x.is_const():
        return const(math.floor(x.cval()))
    ip, rest = {}, {}
    for m, c in x.p.items():
        if m != ONE and all(REG.atoms[i].is_int and isinstance(e, int)
                            and e > 0 for i, e in m):
            w = math.floor(c)
            if w:
                ip[m] = w
            if c - w:
                rest[m] = c - w
        else:
            rest[m] = c
    c0 = rest.get(ONE, 0)
    w = math.floor(c0)
    if w:
        ip[ONE] = w
    if c0 - w:
        rest[ONE] = c0 - w
    else:
        rest.pop(ONE, None)
    if not rest or list(rest) == [ONE]:
        return R(ip)
    if FP:
        lo, hi = interval(rest)
        if lo is not None and math.floor(lo) == math.floor(hi):
            return R(p_add(ip, {ONE: math.floor(lo)} if math.floor(lo)
                           else {}))
    a = REG.get(('floor', p_key(rest)), 'floor', f'floor({R(rest)!r})',
                is_int=True, args=(R(rest),))
    engine().touch(a)
    return R(p_add(ip, {((a.id, 1),): 1}))


def trunc(x):
    if is_special(x):
        raise ValueError('cannot convert float NaN or infinity to integer')
    if p_is_intpoly(x.p):
        return x
    return floor(x) if x >= 0 else -floor(-x)


def round_half_even(x, n=None):
    if is_special(x):
        return x
    k = int(n) if n else 0
    y = x * const(F(10) ** k)
    if p_is_intpoly(y.p):
        return x
    f = floor(y + F(1, 2))
    if y + F(1, 2) == f:
        # exactly half: even neighbour
        h = floor(f / 2)
        if not (f == h * 2):
            f = f - 1
    return f / const(F(10) ** k)


# odd (1) and even (0) functions: the argument gets a canonical sign
_PARITY = dict(sin=1, tan=1, arcsin=1, arctan=1, sinh=1, tanh=1, arcsinh=1,
               cos=0, cosh=0)


def _sqrt_of(x):
    if len(x.p) == 1:
        (m, c), = x.p.items()
        if len(m) == 1 and m[0][1] == 1 and c > 0:
            a = REG.atoms[m[0][0]]
            if a.kind == 'sqrt':
                return a.args[0] * R({ONE: c * c})


def _arctan2_sqrt(y, x):
    """arctan2(sqrt(a), sqrt(1 - a)) = arcsin(sqrt(a))"""
    a, b = _sqrt_of(y), _sqrt_of(x)
    if a is not None and b is not None and (a + b - 1).p == {}:
        return uf('arcsin', y)


def uf(name, *args):
    if all(not type(a) is R for a in args):
        return getattr(np, name)(*args)
    args = tuple(_co(a) for a in args)
    if any(type(a) is not R for a in args):
        return NAN
    if name in _PARITY and not args[0].is_const():
        c = args[0].p[min(args[0].p)]
        if c < 0:
            r = uf(name, -args[0])
            return -r if _PARITY[name] else r
    if name == 'arctan2':
        a = _arctan2_sqrt(*args)
        if a is not None:
            return a
    if all(a.is_const() for a in args) and hasattr(np, name):
        return lift(float(getattr(np, name)(*[float(a.cval())
                                              for a in args])))
    a = REG.get(('uf', name) + tuple(x.key() for x in args), 'uf',
                f'{name}({", ".join(map(repr, args))})', args=args)
    engine().touch(a)
    return R({((a.id, 1),): 1})


# evaluation of terms under a model --------------------------------------


class NoExact(Exception):
    pass


def eval_atom(i, model):
    v = model.get(i)
    if v is not None:
        return v
    a = REG.atoms[i]
    if a.kind == 'err':
        v = F(0)
    elif a.kind == 'inv':
        q = eval_poly(a.args[0].p, model)
        if q == 0:
            raise NoExact
        v = 1 / q
    elif a.kind == 'floor':
        v = F(math.floor(eval_poly(a.args[0].p, model)))
    elif a.kind == 'sqrt':
        q = eval_poly(a.args[0].p, model)
        if q < 0:
            raise NoExact
        n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if n * n == q.numerator and d * d == q.denominator:
            v = F(n, d)
        else:
            raise NoExact
    else:
        raise NoExact
    model[i] = v
    return v


def eval_poly(p, model):
    s = F(0)
    for m, c in p.items():
        t = c
        for i, e in m:
            if not isinstance(e, int) or REG.atoms[i].kind == 'exp':
                raise NoExact
            t = t * eval_atom(i, model) ** e
        s += t
    return s


def float_atom(i, model, cache):
    v = cache.get(i)
    if v is not None:
        return v
    a = REG.atoms[i]
    if a.kind in ('var', 'err'):
        v = float(model.get(i, 0))
    elif a.kind == 'uf':
        args = [float_poly(x.p, model, cache) for x in a.args]
        f = UF_EVAL.get(a.name.split('(')[0]) or getattr(
            np, a.name.split('(')[0], None)
        if f is None:
            v = float(model.get(i, 0))
        else:
            v = float(f(*args))
    else:
        q = float_poly(a.args[0].p, model, cache)
        if a.kind == 'inv':
            v = 1 / q if q else math.nan
        elif a.kind == 'ln':
            v = math.log(q) if q > 0 else math.nan
        elif a.kind == 'exp':
            v = math.exp(q)
        elif a.kind == 'sqrt':
            v = math.sqrt(q) if q >= 0 else math.nan
        elif a.kind == 'floor':
            v = float(math.floor(q))
        else:
            v = math.nan
    cache[i] = v
    return v


UF_EVAL = {}


def float_poly(p, model, cache=None):
    try:
        return float(eval_poly(p, dict(model)))
    except NoExact:
        pass
    cache = {} if cache is None else cache
    s = 0.0
    for m, c in p.items():
        t = float(c)
        for i, e in m:
            t *= float_atom(i, model, cache) ** float(e)
        s += t
    return s


# ----------------------------------------------------------------------
# engine
# ----------------------------------------------------------------------


class Decision:
    __slots__ = ('kind', 'val', 'alts', 'cond', 'model')

    def __init__(self, kind, val, alts, cond=None):
        self.kind = kind
        self.val = val
        self.alts = alts
        self.cond = cond


class Stats:
    def __init__(self):
        self.paths = 0
        self.abandoned = 0
        self.branches = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.unknown = 0
        self.unsupported = 0
        self.solver_obl = 0
        self.fallback_q = 0
        self.truncated = 0

    def as_dict(self):
        return dict(self.__dict__)


def canon(p, op):
    """canonical (key poly, op, positive?) of the condition  p op 0"""
    p = clear_denoms(p, positive=True)
    p = reduce_sqrt(p)
    if not p:
        return None, (op != '<'), True
    lead = max(p)
    k = p[lead]
    if k < 0:
        p = {m: qd(c, -k) for m, c in p.items()}
    else:
        p = p if k == 1 else {m: qd(c, k) for m, c in p.items()}
    if op == '==':
        if k < 0:
            p = p_scale(p, -1)
        return p, '==', True
    if k < 0:
        # -q op 0, lead(q)=+1 : q > 0  (op '<')  or q >= 0
        q = p_scale(p, -1)
        return (q, '<=', False) if op == '<' else (q, '<', False)
    return p, op, True


class Engine:
    def __init__(self, timeout_ms=4000, hard_timeout_ms=20000, deadline=None):
        self.solver = z3.SolverFor('QF_NIRA') if False else z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.timeout_ms = timeout_ms
        self.hard_timeout_ms = hard_timeout_ms
        self.trace = []
        self.pos = 0
        self.stats = Stats()
        self.model = {}
        self.deadline = deadline
        self.ax_levels = [set()]
        self.assumed = []
        self.fp = False
        self.path_begin()

    # -- per path ------------------------------------------------------
    def path_begin(self):
        self.pos = 0
        self.cache = {}
        self.vars = {}
        self.uf_seen = []
        self.exp_seen = {}
        self.touched = set()
        self.pool = set().union(*self.ax_levels) if self.ax_levels else set()

    # -- axioms ------------------------------------------------------------
    def has_axiom(self, key):
        for s in self.ax_levels:
            if key in s:
                return True
        return False

    def need_axiom(self, key, mk):
        if not self.has_axiom(key):
            self.ax_levels[-1].add(key)
            for f in mk():
                self.solver.add(f)

    def touch(self, a):
        """assert the defining axioms of an atom at the current level"""
        if a.id in self.touched:
            return
        self.touched.add(a.id)
        key = ('atom', a.id)
        if a.kind in ('uf', 'ln'):
            prev = [b for b in self.uf_seen
                    if b.kind == a.kind and b is not a
                    and (a.kind == 'ln' or
                         b.name.split('(')[0] == a.name.split('(')[0])]
            self.uf_seen.append(a)
            if not self.has_axiom(key):
                if self.model is not None and a.id not in self.model:
                    self.model = None if a.kind == 'uf' else self.model

                def mk():
                    out = []
                    if a.kind == 'ln':
                        q = poly_z(clear_denoms(a.args[0].p, True)) \
                            if False else poly_z(a.args[0].p)
                        out.append(a.z <= q - 1)
                        out.append(z3.Implies(q > 1, a.z > 0))
                        out.append(z3.Implies(q < 1, a.z < 0))
                        out.append(z3.Implies(q == 1, a.z == 0))
                        for b in prev:
                            qb = poly_z(b.args[0].p)
                            out.append(z3.Implies(q < qb, a.z < b.z))
                            out.append(z3.Implies(q > qb, a.z > b.z))
                            out.append(z3.Implies(q == qb, a.z == b.z))
                    else:
                        for b in prev:
                            out.append(z3.Implies(
                                z3.And(*[poly_z(x.p) == poly_z(y.p)
                                         for x, y in zip(a.args, b.args)]),
                                a.z == b.z))
                        name = a.name.split('(')[0]
                        if name in UF_AXIOMS:
                            out.extend(UF_AXIOMS[name](a, prev))
                    return out
                self.need_axiom(key, mk)
            return
        if self.has_axiom(key):
            return

        def mk():
            if a.kind == 'err':
                return [a.z >= z_rat(F(a.lo)), a.z <= z_rat(F(a.hi))]
            q = poly_z(a.args[0].p)
            if a.kind == 'inv':
                return [a.z * q == 1]
            if a.kind == 'sqrt':
                return [a.z * a.z == q, a.z >= 0]
            if a.kind == 'floor':
                z = z3.ToReal(a.z)
                return [z <= q, q < z + 1]
            return []
        self.need_axiom(key, mk)

    # -- variables ---------------------------------------------------------
    def new_var(self, name, is_int, lo, hi):
        a = REG.get(('var', name), 'var', name, is_int)
        lo = None if lo is None else F(lo)
        hi = None if hi is None else F(hi)
        if name not in self.vars:
            self.vars[name] = a
            a.lo, a.hi = lo, hi

            def mk():
                out = []
                if lo is not None:
                    out.append(a.z >= (int(lo) if is_int else z_rat(F(lo))))
                if hi is not None:
                    out.append(a.z <= (int(hi) if is_int else z_rat(F(hi))))
                return out
            self.need_axiom(('var', a.id), mk)
            if self.model is not None and a.id not in self.model:
                # a generic value inside the range
                n = len(self.vars)
                if is_int:
                    if lo is not None and hi is not None:
                        span = int(hi) - int(lo) + 1
                        v = int(lo) + (n * 7 + 3) % span
                    else:
                        v = int(lo) if lo is not None else (
                            int(hi) if hi is not None else n)
                    self.model[a.id] = F(v)
                else:
                    fr = F((n * 37 + 11) % 101 + 1, 103)
                    if lo is not None and hi is not None:
                        v = F(lo) + (F(hi) - F(lo)) * fr
                    elif lo is not None:
                        v = F(lo) + 3 * fr
                    elif hi is not None:
                        v = F(hi) - 3 * fr
                    else:
                        v = 5 * fr
                    self.model[a.id] = v
        return R({((a.id, 1),): 1})

    # -- solver plumbing ---------------------------------------------------
    def _check(self, *extra, hard=True):
        t = time.perf_counter()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        if r == z3.unknown and hard:
            r, m = self._check_hard(extra)
            self._hard_model = m
        else:
            self._hard_model = None
        self.stats.solver_s += time.perf_counter() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _check_hard(self, extra):
        """one-shot portfolio for queries the incremental core gives up on"""
        self.stats.fallback_q += 1
        asserts = list(self.solver.assertions()) + list(extra)
        for mk in (lambda: z3.Then('simplify', 'purify-arith', 'propagate-values',
                                   'solve-eqs', 'qfnra-nlsat').solver(),
                   lambda: z3.SolverFor('QF_NRA'),
                   lambda: z3.SolverFor('QF_NIRA')):
            try:
                s = mk()
                s.set('timeout', self.hard_timeout_ms)
                s.add(*asserts)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                return r, (s.model() if r == z3.sat else None)
        return z3.unknown, None

    def _get_model(self):
        m = self._hard_model or self.solver.model()
        out = {}
        ids = set(self.touched)
        ids.update(a.id for a in self.vars.values())
        for i in sorted(ids):
            a = REG.atoms[i]
            if a.z is None:
                continue
            v = m.eval(a.z, model_completion=False)
            if z3.is_int_value(v):
                out[a.id] = F(v.as_long())
            elif z3.is_rational_value(v):
                out[a.id] = F(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                ap = v.approx(40)
                out[a.id] = F(ap.numerator_as_long(),
                              ap.denominator_as_long())
                out['approx'] = True
        for a in self.vars.values():
            if a.id not in out:
                lo, hi = a.lo, a.hi
                out[a.id] = F(lo) if lo is not None else (
                    F(hi) if hi is not None else F(0))
        return out

    def zcond(self, p, op, key=None):
        key = (p_key(p) if key is None else key, op)
        z = _ZC.get(key)
        if z is None:
            t = poly_z(p)
            z = t < 0 if op == '<' else (t <= 0 if op == '<=' else t == 0)
            z = (z, z3.Not(z))
            for m in p:
                if m not in _MONO_Z and m != ONE:
                    break       # odd powers carry axioms: never cached
            else:
                _ZC[key] = z
        return z[0]

    def zcond_not(self, p, op, key=None):
        key = (p_key(p) if key is None else key, op)
        z = _ZC.get(key)
        return z[1] if z is not None else z3.Not(self.zcond(p, op, key))

    def eval_cond(self, p, op):
        """truth value under the current model, or None"""
        if self.model is None or self.model.get('approx'):
            return None
        try:
            v = eval_poly(p, self.model)
        except NoExact:
            return None
        return v < 0 if op == '<' else (v <= 0 if op == '<=' else v == 0)

    # -- branching -----------------------------------------------------------
    def _lookup(self, p, op):
        """decided value of a canonical condition on this path, or None"""
        k = (p_key(p), op)
        v = self.cache.get(k)
        return k, v

    def _remember(self, p, op, val):
        pk = p_key(p)
        c = self.cache
        if op == '<':
            c[(pk, '<')] = val
            if val:
                c[(pk, '<=')] = True
                c[(pk, '==')] = False
            elif c.get((pk, '<=')) is True:
                c[(pk, '==')] = True
            elif c.get((pk, '==')) is False:
                c[(pk, '<=')] = False
        elif op == '<=':
            c[(pk, '<=')] = val
            if not val:
                c[(pk, '<')] = False
                c[(pk, '==')] = False
            elif c.get((pk, '<')) is False:
                c[(pk, '==')] = True
            elif c.get((pk, '==')) is False:
                c[(pk, '<')] = True
        else:
            c[(pk, '==')] = val
            if val:
                c[(pk, '<')] = False
                c[(pk, '<=')] = True
            elif c.get((pk, '<')) is False:
                c[(pk, '<=')] = False
            elif c.get((pk, '<=')) is True:
                c[(pk, '<')] = True

    def simplify_exp(self, p, op):
        """two-term comparisons of positive exp monomials: take logarithms"""
        if len(p) != 2 or not any(REG.atoms[i].kind == 'exp'
                                  for m in p for i, e in m):
            return p, op
        (m1, c1), (m2, c2) = p.items()
        if (c1 > 0) == (c2 > 0):
            return p, op
        if c1 < 0:
            (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
        # c1*m1 - |c2|*m2 op 0   <=> ln(c1 m1) - ln(|c2| m2) op 0
        for m in (m1, m2):
            for i, e in m:
                a = REG.atoms[i]
                if a.kind != 'exp' and not self.entails(
                        {((i, 1),): -1}, '<'):
                    return p, op
        a = ln(R({m1: c1})) - ln(R({m2: -c2}))
        return a.p, op

    def branch(self, p, op):
        if not p or (len(p) == 1 and ONE in p):
            c = p.get(ONE, 0)
            return c < 0 if op == '<' else (c <= 0 if op == '<=' else c == 0)
        p, op = self.simplify_exp(p, op)
        q, op2, pol = canon(p, op)
        if q is None:
            return op2
        if len(q) == 1 and ONE in q:
            c = q[ONE]
            v = c < 0 if op2 == '<' else (c <= 0 if op2 == '<=' else c == 0)
            return v == pol
        pk = p_key(q)
        v = self.cache.get((pk, op2))
        if v is None:
            v = self._decide(q, op2)
            self._remember(q, op2, v)
        return v == pol

    def _decide(self, q, op):
        if self.deadline and time.time() > self.deadline:
            raise Inconclusive('time budget exhausted')
        tr = self.trace
        if self.pos < len(tr):
            d = tr[self.pos]
            if d.kind != 'b' or (d.cond is not None and
                                 d.cond != (p_key(q), op)):
                raise RuntimeError('non-deterministic re-execution')
            self.pos += 1
            return d.val
        self.stats.branches += 1
        z = self.zcond(q, op)
        mv = self.eval_cond(q, op)
        if mv is None:
            r = self._check(z)
            if r == z3.unknown:
                raise Inconclusive('solver unknown at a branch')
            if r == z3.sat:
                mv = True
                self.model = self._get_model()
            else:
                mv = False
                self.model = None
                d = Decision('b', False, [], (p_key(q), op))
                self._push(d, self.zcond_not(q, op))
                return False
        d = Decision('b', mv, [not mv], (p_key(q), op))
        self._push(d, z if mv else self.zcond_not(q, op))
        return mv

    def _push(self, d, f):
        self.trace.append(d)
        self.pos += 1
        self.solver.push()
        self.ax_levels.append(set())
        if f is not None:
            self.solver.add(f)

    def pick(self, n, label=''):
        """explicit n-way fork (harness structure choices)"""
        if n <= 0:
            raise PathAbandon
        tr = self.trace
        if self.pos < len(tr):
            d = tr[self.pos]
            if d.kind != 'p':
                raise RuntimeError('non-deterministic re-execution')
            self.pos += 1
            return d.val
        d = Decision('p', 0, list(range(1, n)))
        self._push(d, None)
        return 0

    def constrain(self, p, op, negate=False):
        """assume  p op 0  (no fork); abandons the path if infeasible"""
        q = p
        if not q or (len(q) == 1 and ONE in q):
            if self.branch(q, op) == negate:
                raise PathAbandon
            return
        q, op2, pol = canon(q, op)
        if q is None:
            if op2 == negate:
                raise PathAbandon
            return
        if len(q) == 1 and ONE in q:
            c = q[ONE]
            v = c < 0 if op2 == '<' else (c <= 0 if op2 == '<=' else c == 0)
            if (v == pol) == negate:
                raise PathAbandon
            return
        want = pol != negate
        v = self.cache.get((p_key(q), op2))
        if v is not None:
            if v != want:
                raise PathAbandon
            return
        self._remember(q, op2, want)
        key = ('assume', p_key(q), op2, want)
        if self.has_axiom(key):
            return
        z = self.zcond(q, op2)
        self.need_axiom(key, lambda: [z if want else z3.Not(z)])
        mv = self.eval_cond(q, op2)
        if mv is None or mv != want:
            r = self._check()
            if r == z3.unsat:
                raise PathAbandon
            if r == z3.unknown:
                raise Inconclusive('solver unknown at an assumption')
            self.model = self._get_model()

    def constrain_z(self, key, f):
        """assume an arbitrary solver formula over touched atoms"""
        key = ('assumez', key)
        if self.has_axiom(key):
            return
        self.need_axiom(key, lambda: [f])
        r = self._check()
        if r == z3.unsat:
            raise PathAbandon
        if r == z3.unknown:
            raise Inconclusive('solver unknown at an assumption')
        self.model = self._get_model()

    def entails(self, p, op):
        """does the path condition imply  p op 0 ?  (no fork)"""
        if not p or (len(p) == 1 and ONE in p):
            return self.branch(p, op)
        q, op2, pol = canon(p, op)
        if q is None:
            return op2
        if len(q) == 1 and ONE in q:
            return self.branch(p, op)
        v = self.cache.get((p_key(q), op2))
        if v is not None:
            return v == pol
        # the outcome depends on the path only, but it is recorded on the trace
        # so that re-executions agree with the first one
        tr = self.trace
        if self.pos < len(tr):
            d = tr[self.pos]
            if d.kind != 'e':
                raise RuntimeError('non-deterministic re-execution (entails)')
            self.pos += 1
            return d.val
        mv = self.eval_cond(q, op2)
        if mv is not None and mv != pol:
            val = False
        else:
            z = self.zcond(q, op2)
            val = self._check(z3.Not(z) if pol else z,
                              hard=False) == z3.unsat
        self._push(Decision('e', val, []), None)
        return val

    def concretise(self, x):
        """enumerate the values of an Int-valued term by forking"""
        if x.is_const():
            return x.cval()
        if not p_is_intpoly(x.p):
            raise Unsupported(f'concretising a real-valued term {x!r}')
        for _ in range(4096):
            v = None
            tr = self.trace
            if self.pos < len(tr):
                # replay: the guarded value is stored with the decision
                d = tr[self.pos]
                if d.kind != 'c':
                    raise RuntimeError('non-deterministic re-execution (conc)')
                self.pos += 1
                v = d.val
            else:
                if self.model is not None:
                    try:
                        v = int(eval_poly(x.p, self.model))
                    except NoExact:
                        v = None
                if v is None:
                    if self._check() != z3.sat:
                        raise Inconclusive('concretise')
                    self.model = self._get_model()
                    v = int(eval_poly(x.p, self.model))
                self._push(Decision('c', v, []), None)
            if self.branch(p_add(x.p, {ONE: -v} if v else {}), '=='):
                return v
        raise Unsupported('unbounded concretisation')

    # -- obligations -----------------------------------------------------------
    def prove(self, p, op):
        """valid(path => p op 0)?  True, or a counter-model (dict)"""
        if not p or (len(p) == 1 and ONE in p):
            self.stats.trivial += 1
            return self.branch(p, op) or self.any_model()
        p, op = self.simplify_exp(p, op)
        q, op2, pol = canon(p, op)
        if q is None or (len(q) == 1 and ONE in q):
            self.stats.trivial += 1
            return self.branch(p, op) or self.any_model()
        v = self.cache.get((p_key(q), op2))
        if v is not None:
            self.stats.trivial += 1
            return True if v == pol else self.any_model()
        self.stats.solver_obl += 1
        mv = self.eval_cond(q, op2)
        if mv is not None and mv != pol:
            return dict(self.model)
        z = self.zcond(q, op2)
        r = self._check(z3.Not(z) if pol else z)
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            raise Inconclusive('solver unknown at an obligation')
        return self._get_model()

    def prove_z(self, f):
        self.stats.solver_obl += 1
        r = self._check(z3.Not(f))
        if r == z3.unsat:
            return True
        if r == z3.unknown:
            raise Inconclusive('solver unknown at an obligation')
        return self._get_model()

    def any_model(self):
        if self.model is not None:
            ok = True
            for a in self.vars.values():
                if a.id not in self.model:
                    ok = False
            if ok:
                return dict(self.model)
        r = self._check()
        if r == z3.unsat:
            raise PathAbandon
        if r == z3.unknown:
            raise Inconclusive('no model for the path')
        self.model = self._get_model()
        return dict(self.model)

    # -- exploration -----------------------------------------------------------
    def _pop(self):
        self.solver.pop()
        self.ax_levels.pop()

    def backtrack(self):
        """move to the next unexplored path; False when exhausted"""
        tr = self.trace
        while tr:
            d = tr[-1]
            if not d.alts:
                self._pop()
                tr.pop()
                continue
            self._pop()
            val = d.alts.pop(0)
            d.val = val
            self.solver.push()
            self.ax_levels.append(set())
            if d.kind == 'b':
                q = dict(d.cond[0])
                self.solver.add((self.zcond if val else self.zcond_not)(
                    q, d.cond[1], d.cond[0]))
                r = self._check()
                if r == z3.unsat:
                    self._pop()
                    tr.pop()
                    continue
                if r == z3.unknown:
                    # cannot show infeasible: explore it without a model
                    self.model = None
                    return True
                self.model = self._get_model()
                return True
            # pick: variables decided so far keep any model
            r = self._check()
            if r == z3.sat:
                self.model = self._get_model()
            else:
                self.model = None
            return True
        return False


UF_AXIOMS = {}


def _spacing_axioms(a, prev):
    x = poly_z(a.args[0].p)
    tiny = z_rat(F(1, 2**1074))
    out = [a.z > 0, a.z >= x * z_rat(U53), a.z <= x * z_rat(2 * U53) + tiny]
    for e in range(-12, 13):
        t, v = z_rat(F(2) ** e), z_rat(F(2) ** e * 2 * U53)
        out.append(z3.Implies(x >= t, a.z >= v))
        out.append(z3.Implies(x < t, a.z <= v / 2))
    return out


UF_AXIOMS['spacing'] = _spacing_axioms
UF_AXIOMS['sin'] = UF_AXIOMS['cos'] = lambda a, prev: [a.z >= -1, a.z <= 1]


def activate(e):
    global _ENGINE
    _ENGINE = e
