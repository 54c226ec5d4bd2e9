"""Symbolic scalars, path exploration and solver queries.

A symbolic scalar (`Sym`) is a multivariate polynomial with numeric (possibly
complex) coefficients over *atoms*.  Atoms are solver variables (reals or
integers within a stated box) or defined terms (e^{i m}, e^{m}, 1/P, sqrt(P),
|P|, floor(P), uninterpreted functions).  `bool()` of a symbolic comparison
asks the solver which outcomes are possible on the current path and forks.
"""

import cmath
import math
import os
import random
import time

from fractions import Fraction

import numpy as _np
import z3

PRUNE = 1e-13

class Unsupported(Exception):
    """Real code left the encodable fragment (inconclusive, never an alarm)."""

class Infeasible(BaseException):
    """Current path contradicts an assumption."""

class Budget(BaseException):
    """Time, path or solver budget exhausted."""

# ---------------------------------------------------------------------------
# atoms

class Atom:
    __slots__ = ('idx', 'kind', 'name', 'lo', 'hi', 'arg', 'isint', 'extra')

    def __init__(self, kind, name, lo=None, hi=None, arg=None, isint=False,
            extra=None):
        self.kind = kind
        self.name = name
        self.lo = lo
        self.hi = hi
        self.arg = arg
        self.isint = isint
        self.extra = extra

class Space:
    """All atoms of one harness run (names are stable across paths)."""

    def __init__(self):
        self.atoms = []
        self.by_key = {}
        self.z3cache = {}

    def atom(self, key, make):
        i = self.by_key.get(key)
        if i is None:
            a = make()
            a.idx = len(self.atoms)
            self.atoms.append(a)
            self.by_key[key] = a.idx
            i = a.idx
        return i

SPACE = Space()

def reset_space():
    global SPACE
    SPACE = Space()

# ---------------------------------------------------------------------------
# polynomials

def _num(x):
    return isinstance(x, (int, float, complex, Fraction, _np.number)) \
        and not isinstance(x, bool)

def _pynum(x):
    if isinstance(x, _np.generic):
        return x.item()
    if isinstance(x, bool):
        return int(x)
    return x

def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1 = len(m1)
    n2 = len(m2)
    while i < n1 and j < n2:
        a, p = m1[i]
        b, q = m2[j]
        if a < b:
            out.append(m1[i])
            i += 1
        elif b < a:
            out.append(m2[j])
            j += 1
        else:
            s = p + q
            if type(s) is float:
                r = round(s, 9)
                s = int(r) if r == int(r) else r
            if s:
                out.append((a, s))
            i += 1
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out)

def _add_into(d, m, c):
    o = d.get(m)
    if o is None:
        d[m] = c
    else:
        s = o + c
        if s == 0 or (type(s) is not int
                and abs(s) <= PRUNE * (abs(o) + abs(c))):
            del d[m]
        else:
            d[m] = s

def _finish(d):
    """Lower constants to Python numbers."""
    if not d:
        return 0
    if len(d) == 1 and () in d:
        c = d[()]
        if type(c) is complex and abs(c.imag) <= 1e-15 * abs(c.real):
            return c.real       # real expression of complex phases
        return c
    return Sym(d)

REAL_HASH = hash('symbolic real')

class Sym:
    __slots__ = ('t', '_h')
    __array_ufunc__ = None
    __array_priority__ = 1e6

    shape = ()
    ndim = 0
    size = 1
    nbytes = 16

    def __init__(self, t):
        self.t = t

    # -- representation

    def __repr__(self):
        return 'Sym(%s)' % to_str(self)

    def key(self):
        return frozenset((m, _round_coef(c)) for m, c in self.t.items())

    # -- arithmetic

    def __add__(self, o):
        if isinstance(o, Sym):
            a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
            d = dict(a)
            for m, c in b.items():
                _add_into(d, m, c)
            return _finish(d)
        if _num(o):
            if o == 0:
                return self
            o = _pynum(o)
            if o != o or o in (math.inf, -math.inf):
                return o
            d = dict(self.t)
            _add_into(d, (), o)
            return _finish(d)
        if isinstance(o, (bool, _np.bool_)):
            return self + int(o)
        if isinstance(o, SymBool):
            return self + int(bool(o))
        return _arr('add', self, o)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, Sym):
            d = dict(self.t)
            for m, c in o.t.items():
                _add_into(d, m, -c)
            return _finish(d)
        if _num(o) or isinstance(o, (bool, _np.bool_)):
            return self + (-_pynum(o))
        return _arr('subtract', self, o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, Sym):
            d = {}
            for m1, c1 in self.t.items():
                for m2, c2 in o.t.items():
                    _add_into(d, _mono_mul(m1, m2), c1 * c2)
            r = _finish(_simplify_inv(d))
            if WATCH is not None:
                _watch(r)
            return r
        if _num(o) or isinstance(o, (bool, _np.bool_)):
            o = _pynum(o)
            if o == 0:
                return 0.0
            if o == 1:
                return self
            if o != o or o in (math.inf, -math.inf):
                raise Unsupported('symbolic times inf/nan')
            return Sym({m: c * o for m, c in self.t.items()})
        return _arr('multiply', self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Sym):
            return self * inv(o)
        if _num(o):
            o = _pynum(o)
            if o == 0:
                raise Unsupported('symbolic divided by zero')
            if isinstance(o, float) and math.isinf(o):
                return 0.0
            return Sym({m: _div(c, o) for m, c in self.t.items()})
        return _arr('divide', self, o)

    def __rtruediv__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr('divide', o, self)
        return inv(self) * o

    def __pow__(self, n):
        if isinstance(n, Sym):
            raise Unsupported('symbolic exponent')
        n = _pynum(n)
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int):
            if n < 0:
                return inv(self) ** -n
            r = 1
            b = self
            while n:
                if n & 1:
                    r = b * r
                n >>= 1
                if n:
                    b = b * b
            return r
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if all(SPACE.atoms[a].kind in ('exp', 'phase') for a, p in m) \
                    and not isinstance(c, complex) and c > 0:
                mm = tuple((a, _canon_exp(p * n)) for a, p in m)
                return Sym({mm: c ** n})
        if isinstance(n, float) and n * 2 == int(n * 2):
            k = int(n * 2)
            s = sqrt(self)
            return s ** k
        if isinstance(n, float) and interval(self)[0] > 0:
            return exp(log(self) * n)
        raise Unsupported('power %r' % n)

    def __rpow__(self, o):
        if _num(o) and o > 0:
            return exp(self * math.log(o))
        raise Unsupported('symbolic exponent')

    def __abs__(self):
        return absolute(self)

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __floordiv__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr('floor_divide', self, o)
        return floor(self / o) if not _is_int(self, o) else _floordiv(self, o)

    def __rfloordiv__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr('floor_divide', o, self)
        return floor(o / self)

    def __mod__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr('remainder', self, o)
        return self - (self // o) * o

    def __rmod__(self, o):
        if isinstance(o, _np.ndarray):
            return _arr('remainder', o, self)
        return o - (o // self) * self

    # -- complex structure

    def conjugate(self):
        return conj(self)

    conj = conjugate

    @property
    def real(self):
        return real(self)

    @property
    def imag(self):
        return imag(self)

    # -- conveniences of NumPy scalars

    def item(self):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def dot(self, o):
        return self * o

    def round(self, n=0):
        return rnd(self, n)

    def rint(self):
        return rnd(self)

    def astype(self, dtype):
        if dtype in (int, _np.int64):
            return trunc(self)
        return self

    def ravel(self):
        from symx.arr import symarray
        return symarray([self])

    @property
    def T(self):
        return self

    # -- comparisons

    def __lt__(self, o):
        return compare('<', self, o)

    def __le__(self, o):
        return compare('<=', self, o)

    def __gt__(self, o):
        return compare('>', self, o)

    def __ge__(self, o):
        return compare('>=', self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return compare('==', self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return True
        return compare('!=', self, o)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if is_int(self):
            return hash(int(self))
        return REAL_HASH    # equality decides

    def __index__(self):
        if not is_int(self):
            raise TypeError('symbolic real is no index')
        return ENGINE.concretize(self)

    def __int__(self):
        if is_int(self):
            return ENGINE.concretize(self)
        return ENGINE.concretize(trunc(self))

    def __float__(self):
        hook = FLOAT_HOOK
        if hook is not None:
            return hook(self)
        if is_int(self):
            return float(ENGINE.concretize(self))
        raise Unsupported('float() of symbolic value')

    def __complex__(self):
        raise Unsupported('complex() of symbolic value')

    def __round__(self, n=None):
        return rnd(self, n or 0)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __trunc__(self):
        return trunc(self)

    def __format__(self, spec):
        hook = FORMAT_HOOK
        if hook is not None:
            return hook(self, spec)
        return '<sym>'

    def __str__(self):
        hook = FORMAT_HOOK
        if hook is not None:
            return hook(self, '')
        return repr(self)

    # called by NumPy's object loops
    def exp(self):
        return exp(self)

    def sqrt(self):
        return sqrt(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def log(self):
        return log(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (len_register(self),))

_PICKLE = []

def len_register(s):
    _PICKLE.append(s)
    return len(_PICKLE) - 1

def _unpickle(i):
    return _PICKLE[i]

FLOAT_HOOK = None
FORMAT_HOOK = None

def _arr(name, a, b):
    o = b if isinstance(a, Sym) else a
    if isinstance(o, list):         # like NumPy scalars
        o = _np.array(o, dtype=object)
        if isinstance(a, Sym):
            b = o
        else:
            a = o
    if isinstance(o, _np.ndarray):
        from symx import arr
        return arr.finish(arr.elementwise(arr.BINARY[name], a, b),
            name in arr.PRED)
    return NotImplemented

def _div(c, o):
    if isinstance(c, int) and isinstance(o, int):
        if c % o == 0:
            return c // o
        return c / o
    return c / o

def _canon_exp(p):
    if isinstance(p, float):
        r = round(p, 13)
        return int(r) if r == int(r) else r
    return p

def _round_coef(c):
    if isinstance(c, complex):
        return (float('%.11g' % c.real), float('%.11g' % c.imag))
    return float('%.11g' % c)

def to_str(s, n=6):
    if not isinstance(s, Sym):
        return repr(s)
    out = []
    for m, c in list(s.t.items())[:n]:
        f = '*'.join(SPACE.atoms[a].name + ('' if p == 1 else '^%s' % p)
            for a, p in m)
        out.append(('%.6g' % c if not isinstance(c, complex)
            else '(%.6g%+.6gj)' % (c.real, c.imag)) + ('*' + f if f else ''))
    if len(s.t) > n:
        out.append('... (%d terms)' % len(s.t))
    return ' + '.join(out)

def is_sym(x):
    return isinstance(x, Sym)

def is_int(x):
    if isinstance(x, (int, _np.integer)):
        return True
    if not isinstance(x, Sym):
        return False
    for m, c in x.t.items():
        if isinstance(c, complex) or c != int(c):
            return False
        for a, p in m:
            if not SPACE.atoms[a].isint or p < 0:
                return False
    return True

def _is_int(*xs):
    return all(is_int(x) for x in xs)

# -- constructors

def var(name, lo=-1.0, hi=1.0):
    i = SPACE.atom(('var', name), lambda: Atom('real', name, lo, hi))
    return Sym({((i, 1),): 1})

def intvar(name, lo, hi):
    i = SPACE.atom(('var', name),
        lambda: Atom('int', name, lo, hi, isint=True))
    return Sym({((i, 1),): 1})

def defined(kind, key, arg, lo=None, hi=None, isint=False, extra=None):
    def make():
        name = '%s#%d' % (kind, len(SPACE.atoms))
        return Atom(kind, name, lo, hi, arg, isint, extra)
    i = SPACE.atom((kind, key), make)
    return Sym({((i, 1),): 1})

# -- overflow

WATCH = None        # list of intermediate results that may overflow

def _watch(x):
    if isinstance(x, Sym):
        lo, hi = interval(x)
        if not (lo >= -HUGE and hi <= HUGE):
            WATCH.append(x)

HUGE = 1.797e308

# -- functions

def conj(x):
    if not isinstance(x, Sym):
        return x.conjugate()
    out = {}
    extra = None
    for m, c in x.t.items():
        if isinstance(c, complex):
            c = c.conjugate()
        if any(SPACE.atoms[a].kind in ('phase', 'cfun', 'cinv')
                for a, p in m):
            n = []
            f = 1
            for a, p in m:
                at = SPACE.atoms[a]
                if at.kind == 'phase':
                    n.append((a, -p))
                elif at.kind == 'cfun':
                    n.append((_conj_cfun(a), p))
                elif at.kind == 'cinv':
                    f = inv(conj(at.arg)) ** p * f
                else:
                    n.append((a, p))
            m = tuple(sorted(n))
            if isinstance(f, Sym):
                y = f * Sym({m: c}) if m else f * c
                extra = y if extra is None else extra + y
                continue
        _add_into(out, m, c)
    r = _finish(out)
    return r if extra is None else extra + r

def _conj_cfun(a):
    at = SPACE.atoms[a]
    if at.extra is None:
        def make():
            b = Atom('cfun', at.name + '*', arg=at.arg)
            b.extra = a
            return b
        at.extra = SPACE.atom(('cconj', a), make)
    return at.extra

def is_real(x):
    if not isinstance(x, Sym):
        return not isinstance(x, complex) or x.imag == 0
    for m, c in x.t.items():
        if isinstance(c, complex):
            return _is_real_slow(x)
        for a, p in m:
            if SPACE.atoms[a].kind in ('phase', 'cfun', 'cinv'):
                return _is_real_slow(x)
    return True

def _is_real_slow(x):
    d = x - conj(x)
    if not isinstance(d, Sym):
        return abs(d) < 1e-12
    return all(abs(c) < 1e-12 for c in d.t.values())

def _clean(d):
    out = {}
    for m, c in d.items():
        if isinstance(c, complex) and c.imag == 0:
            c = c.real
        if c != 0:
            out[m] = c
    return out

def real(x):
    if not isinstance(x, Sym):
        return x.real
    if is_plain_real(x):
        return x
    s = x + conj(x)
    if not isinstance(s, Sym):
        return (s * 0.5).real
    return _finish(_clean({m: c * 0.5 for m, c in s.t.items()}))

def imag(x):
    if not isinstance(x, Sym):
        return x.imag
    if is_plain_real(x):
        return 0.0
    s = x - conj(x)
    if not isinstance(s, Sym):
        return (s * -0.5j).real
    return _finish(_clean({m: c * -0.5j for m, c in s.t.items()}))

def is_plain_real(x):
    for m, c in x.t.items():
        if isinstance(c, complex):
            return False
        for a, p in m:
            if SPACE.atoms[a].kind in ('phase', 'cfun', 'cinv'):
                return False
    return True

def exp(x):
    if not isinstance(x, Sym):
        return cmath.exp(x) if isinstance(x, complex) else math.exp(x)
    out = 1
    for m, c in x.t.items():
        if isinstance(c, complex):
            cr, ci = c.real, c.imag
        else:
            cr, ci = float(c), 0.0
        if not m:
            if ci:
                out = out * cmath.exp(complex(cr, ci))
            else:
                out = out * math.exp(cr)
            continue
        if any(SPACE.atoms[a].kind in ('phase', 'cfun', 'cinv') for a, p in m):
            # complex-valued monomial: only allowed if exponent is real overall
            y = x
            if is_real(y):
                s = defined('exp', ('p', y.key()), y)
                return s
            yi = y * -1j
            if is_real(yi):
                return defined('phase', ('p', yi.key()), real(yi))
            raise Unsupported('exp of complex polynomial')
        if not cr and len(m) == 1 and m[0][1] == 1 and ci == round(ci) \
                and SPACE.atoms[m[0][0]].extra == 'arctan2':
            out = out * _direction(*SPACE.atoms[m[0][0]].arg, int(ci))
            continue
        if cr:
            a = SPACE.atom(('exp', m), lambda: Atom('exp',
                'exp(%s)' % _mono_str(m), arg=Sym({m: 1})))
            out = Sym({((a, _canon_exp(cr)),): 1}) * out
            if WATCH is not None:
                _watch(out)
        if ci:
            a = SPACE.atom(('phase', m), lambda: Atom('phase',
                'cis(%s)' % _mono_str(m), arg=Sym({m: 1})))
            out = Sym({((a, _canon_exp(ci)),): 1}) * out
    return out

def _direction(y, x, n):
    """exp(1j * n * arctan2(y, x))."""
    r2 = x * x + y * y
    if not isinstance(x, Sym) and not isinstance(y, Sym):
        return cmath.exp(1j * n * math.atan2(y, x))
    if bool(r2 == 0):
        return 1.0
    z = (x + y * (1j if n > 0 else -1j)) / (sqrt(r2) if isinstance(r2, Sym)
        else math.sqrt(r2))
    return z ** abs(n)

def _mono_str(m):
    return '*'.join(SPACE.atoms[a].name + ('' if p == 1 else '^%s' % p)
        for a, p in m)

def cos(x):
    if not isinstance(x, Sym):
        return cmath.cos(x) if isinstance(x, complex) else math.cos(x)
    e = exp(x * 1j)
    return _finish(_clean(((e + conj(e)) * 0.5).t)) if is_real(x) else (
        e + exp(x * -1j)) * 0.5

def sin(x):
    if not isinstance(x, Sym):
        return cmath.sin(x) if isinstance(x, complex) else math.sin(x)
    e = exp(x * 1j)
    return (e - exp(x * -1j)) * -0.5j

def cosh(x):
    if not isinstance(x, Sym):
        return _np.cosh(x)
    return (exp(x) + exp(-x)) * 0.5

def sinh(x):
    if not isinstance(x, Sym):
        return _np.sinh(x)
    return (exp(x) - exp(-x)) * 0.5

def tanh(x):
    if not isinstance(x, Sym):
        return _np.tanh(x)
    e = exp(x * 2)
    return (e - 1) / (e + 1)

def log(x):
    if not isinstance(x, Sym):
        return _np.log(x)
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if not isinstance(c, complex) and c > 0 and m and all(
                SPACE.atoms[a].kind in ('exp', 'inv') for a, p in m):
            out = math.log(c)
            for a, p in m:
                at = SPACE.atoms[a]
                if at.kind == 'exp':
                    out = out + at.arg * p
                else:
                    out = out - log(at.arg) * p
            return out
    # the dominant power of exponentials and a constant are pulled out
    out = 0.0
    for a in {a for m in x.t for a, p in m if SPACE.atoms[a].kind == 'exp'}:
        powers = [dict(m).get(a, 0) for m in x.t]
        lo, hi = interval(SPACE.atoms[a].arg)
        p = max(powers) if lo >= 0 else min(powers)
        if p:
            x = x * Sym({((a, _canon_exp(-p)),): 1})
            out = out + SPACE.atoms[a].arg * p
            if not isinstance(x, Sym):
                return out + math.log(x)
    c = x.t[max(x.t)]
    if not isinstance(c, complex) and c > 0:
        out = out + math.log(c)
        x = x * (1 / c)
    return fun('log', x) + out

def fun(name, *args):
    """Uninterpreted real function of real arguments (with numeric meaning)."""
    key = (name,) + tuple(a.key() if isinstance(a, Sym) else a for a in args)
    return defined('fun', key, args, extra=name)

def erf(x):
    if not isinstance(x, Sym):
        return math.erf(x)
    # odd symmetry is canonicalized (sign of the first coefficient)
    m = min(x.t)
    c = x.t[m]
    if not isinstance(c, complex) and c < 0:
        return -fun('erf', -x)
    return fun('erf', x)

def atan(x):
    if not isinstance(x, Sym):
        return math.atan(x)
    m = min(x.t)
    c = x.t[m]
    if not isinstance(c, complex) and c < 0:
        return -fun('atan', -x)
    return fun('atan', x)

def acos(x):
    if not isinstance(x, Sym):
        return math.acos(x)
    return fun('acos', x)

def diff(x, var, cache=None):
    """Derivative of a number with respect to an input."""
    if not isinstance(x, Sym):
        return 0.0
    if cache is None:
        cache = {}
    out = 0.0
    for m, c in x.t.items():
        for i, (a, p) in enumerate(m):
            d = _diff_atom(a, var, cache)
            if not isinstance(d, Sym) and d == 0:
                continue
            kind = SPACE.atoms[a].kind
            if kind in ('exp', 'phase'):
                out = out + Sym({m: c * p}) * d         # logarithmic
            else:
                rest = m[:i] + (((a, p - 1),) if p != 1 else ()) + m[i + 1:]
                out = out + (Sym({rest: c * p}) * d if rest else d * (c * p))
    return out

def _diff_atom(a, var, cache):
    if a in cache:
        return cache[a]
    at = SPACE.atoms[a]
    k = at.kind
    if k in ('real', 'int'):
        r = 1.0 if at.name == var else 0.0
    elif k in ('floor', 'round', 'fdiv'):
        r = 0.0             # almost everywhere
    else:
        arg = at.arg[0] if k == 'fun' else at.arg
        if k == 'fun' and len(at.arg) != 1:
            raise Unsupported('derivative of %s' % at.extra)
        d = diff(arg, var, cache)
        me = Sym({((a, 1),): 1})
        if not isinstance(d, Sym) and d == 0:
            r = 0.0
        elif k == 'exp':
            r = d
        elif k == 'phase':
            r = d * 1j
        elif k in ('inv', 'cinv'):
            r = -(me * me) * d
        elif k == 'sqrt':
            r = inv(me) * d * 0.5
        elif k == 'abs':
            r = d if bool(arg >= 0) else -d
        elif k == 'fun' and at.extra == 'erf':
            r = exp(-(arg * arg)) * d * (2 / math.sqrt(math.pi))
        elif k == 'fun' and at.extra == 'log':
            r = inv(arg) * d
        elif k == 'fun' and at.extra == 'atan':
            r = inv(arg * arg + 1) * d
        else:
            raise Unsupported('derivative of %s' % at.name)
    cache[a] = r
    return r

def inv(x):
    if not isinstance(x, Sym):
        return 1 / x
    if len(x.t) == 1:
        (m, c), = x.t.items()
        ok = all(SPACE.atoms[a].kind in ('exp', 'phase', 'inv', 'cinv', 'sqrt')
            for a, p in m)
        if ok:
            out = 1 / c
            for a, p in m:
                at = SPACE.atoms[a]
                if at.kind in ('inv', 'cinv') and p == int(p):
                    out = at.arg ** p * out
                elif at.kind == 'sqrt' and p == int(p):
                    out = (_inv_poly(Sym({((a, 1),): 1}))) ** p * out
                else:
                    out = Sym({((a, -p),): 1}) * out
            return out
        if len(m) > 1 or (m and m[0][1] != 1):
            out = 1 / c
            for a, p in m:
                if SPACE.atoms[a].kind in ('exp', 'phase'):
                    out = Sym({((a, -p),): 1}) * out
                elif p == int(p) and p > 0:
                    out = inv(Sym({((a, 1),): 1})) ** int(p) * out
                else:
                    break
            else:
                return out
    return _inv_poly(x)

def _inv_poly(x):
    m = min(x.t, key=repr)
    c = x.t[m]
    n = Sym({k: v / c for k, v in x.t.items()})
    kind = 'inv' if is_real(n) else 'cinv'
    return defined(kind, n.key(), n) / c

def _simplify_inv(d):
    """Cancel atom * inv(atom) for inverses of single atoms."""
    need = False
    for m in d:
        if len(m) > 1:
            for a, p in m:
                at = SPACE.atoms[a]
                if at.kind in ('inv', 'sqrt'):
                    need = True
                    break
            if need:
                break
        elif m and SPACE.atoms[m[0][0]].kind == 'sqrt' and m[0][1] >= 2:
            need = True
            break
    if not need:
        return d
    out = {}
    changed = False
    for m, c in d.items():
        e = dict(m)
        extra = None
        for a, p in m:
            at = SPACE.atoms[a]
            if at.kind == 'inv' and len(at.arg.t) == 1:
                (n, k), = at.arg.t.items()
                if len(n) == 1 and n[0][1] == 1 and k == 1:
                    b = n[0][0]
                    q = e.get(b, 0)
                    r = min(p, q)
                    if r > 0:
                        e[a] -= r
                        e[b] -= r
                        changed = True
            elif at.kind == 'sqrt' and e.get(a, 0) >= 2:
                k = int(e[a]) // 2
                e[a] -= 2 * k
                f = at.arg ** k
                extra = f if extra is None else extra * f
                changed = True
        n = tuple(sorted((a, p) for a, p in e.items() if p))
        if extra is None:
            _add_into(out, n, c)
        else:
            prod = extra * Sym({n: c}) if n else extra * c
            if isinstance(prod, Sym):
                for mm, cc in prod.t.items():
                    _add_into(out, mm, cc)
            else:
                _add_into(out, (), prod)
    return out if changed else d

def sqrt(x):
    if not isinstance(x, Sym):
        if isinstance(x, complex):
            return cmath.sqrt(x)
        if x < 0:
            return math.nan
        return math.sqrt(x)
    if not is_real(x):
        raise Unsupported('sqrt of complex value')
    x = real(x)
    if not isinstance(x, Sym):
        return sqrt(x)
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c > 0 and all(SPACE.atoms[a].kind == 'exp' for a, p in m):
            return Sym({tuple((a, _canon_exp(p / 2)) for a, p in m):
                math.sqrt(c)})
        if c > 0 and all(p % 2 == 0 for a, p in m):
            r = Sym({tuple((a, p // 2) for a, p in m): math.sqrt(c)})
            return absolute(r)
    r = _square_root(x)
    if r is not None:
        return absolute(r)
    m = min(x.t, key=repr)
    c = abs(x.t[m])
    n = Sym({k: v / c for k, v in x.t.items()})
    return defined('sqrt', n.key(), n, lo=0.0) * math.sqrt(c)

def _square_root(x):
    """Affine function whose square is the given polynomial, if any."""
    if len(x.t) > 15:
        return None
    mono = {(): ()}
    for m in x.t:
        if any(SPACE.atoms[a].kind not in ('real', 'int') for a, p in m):
            return None
        if len(m) == 1 and m[0][1] == 2:
            mono[m] = ((m[0][0], 1),)
        elif m and not (len(m) == 1 and m[0][1] == 1) \
                and not (len(m) == 2 and m[0][1] == m[1][1] == 1):
            return None
    root = {}
    for m, r in mono.items():
        c = x.t.get(m, 0)
        if c < 0:
            return None
        if c:
            root[r] = math.sqrt(c)
    if len(root) < 2:
        return None
    first = next(iter(r for r in root if r), None)
    for r in root:
        if r != first and x.t.get(_mono_mul(first, r), 0) < 0:
            root[r] = -root[r]
    r = Sym(root)
    d = _mul(r, r) - x
    scale = max(map(abs, x.t.values()))
    if isinstance(d, Sym):
        if max(map(abs, d.t.values())) > 1e-14 * scale:
            return None
    elif abs(d) > 1e-14 * scale:
        return None
    return r

def absolute(x):
    if not isinstance(x, Sym):
        return abs(x)
    if not is_real(x):
        return sqrt(real(x * conj(x)))
    x = real(x)
    if not isinstance(x, Sym):
        return abs(x)
    lo, hi = interval(x)
    if lo >= 0:
        return x
    if hi <= 0:
        return -x
    if vanishes(x):
        return 0.0
    m = min(x.t, key=repr)
    c = x.t[m]
    n = Sym({k: v / c for k, v in x.t.items()})
    return defined('abs', n.key(), n, lo=0.0, isint=is_int(n)) * abs(c)

def floor(x):
    if not isinstance(x, Sym):
        return math.floor(x)
    if is_int(x):
        return x
    x = real(x)
    if not isinstance(x, Sym):
        return math.floor(x)
    lo, hi = interval(x)
    if math.isfinite(lo) and math.isfinite(hi):
        if math.floor(lo) == math.floor(hi):
            return math.floor(lo)
    return defined('floor', x.key(), x, isint=True)

def _floordiv(x, o):
    if not isinstance(x, Sym) and not isinstance(o, Sym):
        return x // o
    if not isinstance(o, Sym):
        if o == 1:
            return x
    key = (x.key() if isinstance(x, Sym) else x,
        o.key() if isinstance(o, Sym) else o)
    return defined('fdiv', key, (x, o), isint=True)

def ceil(x):
    if not isinstance(x, Sym):
        return math.ceil(x)
    return -floor(-x)

def trunc(x):
    if not isinstance(x, Sym):
        return int(x)
    if is_int(x):
        return x
    if x >= 0:
        return floor(x)
    return -floor(-x)

def rnd(x, n=0):
    if not isinstance(x, Sym):
        return _np.round(x, n) if n else float(_np.rint(x))
    if n:
        s = 10 ** n
        return rnd(x * s) / s
    if is_int(x):
        return x
    x = real(x)
    return defined('round', x.key(), x, isint=True)

# ---------------------------------------------------------------------------
# intervals

def _imul(a, b):
    p = []
    for u in a:
        for v in b:
            p.append(0.0 if u == 0 or v == 0 else u * v)
    return min(p), max(p)

def _ipow(a, n):
    if isinstance(n, float) or n < 0:
        lo, hi = a
        if lo < 0:
            return -math.inf, math.inf
        vals = []
        for v in (lo, hi):
            if v == 0:
                vals.append(math.inf if n < 0 else 0.0)
            elif math.isinf(v):
                vals.append(0.0 if n < 0 else math.inf)
            else:
                try:
                    vals.append(v ** n)
                except OverflowError:
                    vals.append(math.inf)
        return min(vals), max(vals)
    if n % 2 == 0:
        lo, hi = a
        m = _fpow(max(abs(lo), abs(hi)), n)
        if lo <= 0 <= hi:
            return 0.0, m
        return _fpow(min(abs(lo), abs(hi)), n), m
    return _fpow(a[0], n), _fpow(a[1], n)

def _fpow(v, n):
    try:
        return v ** n
    except OverflowError:
        return -math.inf if v < 0 and n % 2 else math.inf

def atom_interval(i):
    at = SPACE.atoms[i]
    if at.kind in ('real', 'int'):
        return (-math.inf if at.lo is None else at.lo,
            math.inf if at.hi is None else at.hi)
    if at.kind == 'exp':
        lo, hi = interval(at.arg)
        return (math.exp(lo) if lo < 709 else 1e307,
            math.exp(hi) if hi < 709 else math.inf)
    if at.kind == 'inv':
        lo, hi = interval(at.arg)
        if lo > 0 or hi < 0:
            return 1 / hi, 1 / lo
        return -math.inf, math.inf
    if at.kind == 'sqrt':
        lo, hi = interval(at.arg)
        return math.sqrt(max(lo, 0.0)), math.sqrt(max(hi, 0.0))
    if at.kind == 'abs':
        lo, hi = interval(at.arg)
        m = max(abs(lo), abs(hi))
        return (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))), m
    if at.kind == 'floor':
        lo, hi = interval(at.arg)
        return (lo if math.isinf(lo) else math.floor(lo),
            hi if math.isinf(hi) else math.floor(hi))
    if at.kind == 'round':
        lo, hi = interval(at.arg)
        return (lo if math.isinf(lo) else math.floor(lo),
            hi if math.isinf(hi) else math.ceil(hi))
    if at.kind == 'fun' and at.extra in ('erf', 'atan'):
        lo, hi = interval(at.arg[0])
        f = math.erf if at.extra == 'erf' else math.atan
        lo, hi = f(lo) - 1e-15, f(hi) + 1e-15
        return (max(lo, -1.0), min(hi, 1.0)) if at.extra == 'erf' else (lo, hi)
    if at.kind == 'fun' and at.extra == 'log':
        lo, hi = interval(at.arg[0])
        return (math.log(lo) - 1e-15 if lo > 0 else -math.inf,
            math.log(hi) + 1e-15 if hi > 0 else math.inf)
    return -math.inf, math.inf

def interval(x):
    """Enclosure of the real part."""
    if not isinstance(x, Sym):
        x = x.real
        return x, x
    lo = hi = 0.0
    for m, c in x.t.items():
        if isinstance(c, complex) or any(SPACE.atoms[a].kind
                in ('phase', 'cfun', 'cinv') for a, p in m):
            b = abs(c)
            r = (b, b)
            for a, p in m:
                if SPACE.atoms[a].kind == 'phase':
                    continue
                if SPACE.atoms[a].kind in ('cfun', 'cinv'):
                    return -math.inf, math.inf
                l, h = _ipow(atom_interval(a), p)
                r = _imul(r, (0.0, max(abs(l), abs(h))))
            lo -= r[1]
            hi += r[1]
            continue
        r = (c, c)
        for a, p in m:
            r = _imul(r, _ipow(atom_interval(a), p))
        lo += r[0]
        hi += r[1]
        if lo != lo or hi != hi:
            return -math.inf, math.inf
    return lo, hi

# ---------------------------------------------------------------------------
# booleans

class SymBool:
    __slots__ = ('op', 'args')
    __array_ufunc__ = None

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __bool__(self):
        return ENGINE.decide(self)

    def __and__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else False
        return SymBool('and', self, o)

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return True if o else self
        return SymBool('or', self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    def __invert__(self):
        if self.op == 'not':
            return self.args[0]
        return SymBool('not', self)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def _n(self):
        return int(bool(self))

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __rsub__(self, o):
        return o - self._n()

    def __sub__(self, o):
        return self._n() - o

    def __neg__(self):
        return -self._n()

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return 'SymBool(%s)' % bstr(self)

def bstr(b):
    if not isinstance(b, SymBool):
        return repr(b)
    if b.op in ('and', 'or'):
        return '(%s)' % (' %s ' % b.op).join(map(bstr, b.args))
    if b.op == 'not':
        return 'not ' + bstr(b.args[0])
    return '%s %s 0' % (to_str(b.args[0]), b.op)

def compare(op, a, b):
    if isinstance(b, SymBool):
        b = int(bool(b))
    if isinstance(b, (bool, _np.bool_)):
        b = int(b)
    if isinstance(b, _np.ndarray):
        return _arr({'<': 'less', '<=': 'less_equal', '>': 'greater',
            '>=': 'greater_equal', '==': 'equal', '!=': 'not_equal'}[op], a, b)
    if not isinstance(b, Sym):
        try:
            b = _pynum(b)
            if isinstance(b, float) and math.isinf(b):
                return {'<': b > 0, '<=': b > 0, '>': b < 0, '>=': b < 0,
                    '==': False, '!=': True}[op]
            if b != b:
                return op == '!='
        except Exception:
            pass
        if not _num(b):
            return NotImplemented
    d = a - b
    if op in ('==', '!='):
        if isinstance(d, Sym) and not is_real(d):
            re, im = real(d), imag(d)
            e = s_and(_cmp('==', re), _cmp('==', im))
            return e if op == '==' else s_not(e)
        return _cmp(op, real(d))
    if isinstance(d, Sym) and not is_real(d):
        raise Unsupported('order of complex values')
    return _cmp(op, real(d))

def _unfold_abs(op, d):
    """|x| < c as a pair of inequalities."""
    if () not in d.t or op in ('==', '!='):
        return None
    m = next(m for m in d.t if m)
    if len(m) != 1 or m[0][1] != 1 or SPACE.atoms[m[0][0]].kind != 'abs':
        return None
    x = SPACE.atoms[m[0][0]].arg
    c = -d.t[()] / d.t[m]
    if d.t[m] < 0:
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
    if op in ('<', '<='):
        return s_and(_cmp(op, x - c), _cmp('>' + op[1:], x + c))
    return s_or(_cmp(op, x - c), _cmp('<' + op[1:], x + c))

def _squared(d):
    """Expression of the same sign without roots and absolute values."""
    sq = []
    for m, c in d.t.items():
        if isinstance(c, complex):
            return None
        if not m:
            sq.append((c > 0, c * c))
        elif len(m) == 1 and m[0][1] == 1:
            at = SPACE.atoms[m[0][0]]
            if at.kind == 'sqrt':
                sq.append((c > 0, at.arg * (c * c)))
            elif at.kind == 'abs':
                sq.append((c > 0, at.arg * at.arg * (c * c)))
            else:
                return None
        else:
            return None
    (s1, a), (s2, b) = sq
    if s1 == s2:
        return None
    r = a - b if s1 else b - a
    if isinstance(r, Sym):
        # cancellation of equal terms up to rounding
        big = max((max(map(abs, x.t.values())) if isinstance(x, Sym)
            else abs(x)) for x in (a, b))
        r = _finish({m: c for m, c in r.t.items() if abs(c) > 1e-14 * big})
    return r

def vanishes(d):
    """Is a sum of fractions identically zero (common denominator)?"""
    n = 0
    for m in d.t:
        n += any(SPACE.atoms[a].kind == 'inv' and p > 0 for a, p in m)
    if n < 2 and not (n and len(d.t) > 1) or len(d.t) > 40:
        return False
    from symx.decide import clear
    k = d.key()
    zero = SPACE.__dict__.setdefault('zero', {})
    if k not in zero:
        n, low = clear(d)
        if isinstance(n, Sym):
            big = max(abs(c) for c in d.t.values())
            n = _finish({m: c for m, c in n.t.items()
                if abs(c) > 1e-14 * big})
        zero[k] = n is not None and not isinstance(n, Sym) and abs(n) < 1e-12
    return zero[k]

def _cmp(op, d):
    if isinstance(d, Sym) and vanishes(d):
        d = 0
    if not isinstance(d, Sym):
        return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0,
            '==': d == 0, '!=': d != 0}[op]
    if len(d.t) == 2:
        e = _unfold_abs(op, d)
        if e is not None:
            return e
        e = _squared(d)
        if e is not None:
            return _cmp(op, e)
    lo, hi = interval(d)
    if op == '<':
        if hi < 0: return True
        if lo >= 0: return False
    elif op == '<=':
        if hi <= 0: return True
        if lo > 0: return False
    elif op == '>':
        if lo > 0: return True
        if hi <= 0: return False
    elif op == '>=':
        if lo >= 0: return True
        if hi < 0: return False
    elif op == '==':
        if lo > 0 or hi < 0: return False
    elif op == '!=':
        if lo > 0 or hi < 0: return True
    return SymBool(op, d)

def s_and(*xs):
    xs = [x for x in xs if not (isinstance(x, (bool, _np.bool_)) and x)]
    if any(isinstance(x, (bool, _np.bool_)) for x in xs):
        return False
    if not xs:
        return True
    return xs[0] if len(xs) == 1 else SymBool('and', *xs)

def s_or(*xs):
    xs = [x for x in xs if not (isinstance(x, (bool, _np.bool_)) and not x)]
    if any(isinstance(x, (bool, _np.bool_)) for x in xs):
        return True
    if not xs:
        return False
    return xs[0] if len(xs) == 1 else SymBool('or', *xs)

def s_not(x):
    if isinstance(x, SymBool):
        return ~x
    return not x

# ---------------------------------------------------------------------------
# numeric evaluation

def evaluate(x, values, cache=None):
    """Value of `x` when base atoms take `values` (name -> number)."""
    if cache is None:
        cache = {}
    if isinstance(x, SymBool):
        if x.op == 'and':
            return all(evaluate(a, values, cache) for a in x.args)
        if x.op == 'or':
            return any(evaluate(a, values, cache) for a in x.args)
        if x.op == 'not':
            return not evaluate(x.args[0], values, cache)
        v = evaluate(x.args[0], values, cache)
        v = v.real
        return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0,
            '==': abs(v) < 1e-12, '!=': abs(v) >= 1e-12}[x.op]
    if not isinstance(x, Sym):
        return x
    s = 0.0
    for m, c in x.t.items():
        p = c
        for a, e in m:
            if not isinstance(e, int) and SPACE.atoms[a].kind == 'phase':
                # no principal value of the root
                p = p * cmath.exp(1j * e * evaluate(SPACE.atoms[a].arg,
                    values, cache).real)
                continue
            if SPACE.atoms[a].kind == 'exp':
                # the base alone may overflow
                p = p * math.exp(min(700.0, e * evaluate(SPACE.atoms[a].arg,
                    values, cache).real))
                continue
            p = p * _atom_value(a, values, cache) ** e
        s = s + p
    return s

_FUNS = {'erf': math.erf, 'log': lambda x: math.log(x) if x > 0 else math.nan,
    'atan': math.atan, 'acos': math.acos}

def _atom_value(a, values, cache):
    if a in cache:
        return cache[a]
    at = SPACE.atoms[a]
    k = at.kind
    if k in ('real', 'int'):
        v = values[at.name] if at.name in values else _default(at)
        if k == 'int':
            v = int(v)
    elif k == 'phase':
        v = cmath.exp(1j * evaluate(at.arg, values, cache).real)
    elif k == 'exp':
        v = math.exp(min(700.0, evaluate(at.arg, values, cache).real))
    elif k in ('inv', 'cinv'):
        d = evaluate(at.arg, values, cache)
        v = 1 / d if d else math.nan
    elif k == 'sqrt':
        v = math.sqrt(max(0.0, evaluate(at.arg, values, cache).real))
    elif k == 'abs':
        v = abs(evaluate(at.arg, values, cache))
    elif k == 'floor':
        v = math.floor(evaluate(at.arg, values, cache).real)
    elif k == 'round':
        v = round(evaluate(at.arg, values, cache).real)
    elif k == 'fdiv':
        v = (evaluate(at.arg[0], values, cache)
            // evaluate(at.arg[1], values, cache))
    elif k == 'fun':
        f = _FUNS.get(at.extra)
        args = [evaluate(y, values, cache).real for y in at.arg]
        v = f(*args) if f else EVAL_HOOK(at, args)
    else:
        raise Unsupported('no value for atom %s' % at.name)
    cache[a] = v
    return v

def EVAL_HOOK(at, args):
    raise Unsupported('no numeric meaning of %s' % at.extra)

def _default(at):
    lo = at.lo if at.lo is not None else -1.0
    hi = at.hi if at.hi is not None else 1.0
    return lo if at.isint else 0.5 * (lo + hi)

# ---------------------------------------------------------------------------
# translation to z3

def q(c):
    """Exact rational of a coefficient (short fraction if within 1e-15)."""
    if isinstance(c, int):
        return z3.RealVal(c)
    f = Fraction(c)
    g = f.limit_denominator(10 ** 7)
    if g != 0 and abs(float(g) - float(c)) <= 4e-16 * abs(float(c)):
        f = g
    return z3.RealVal(str(f.numerator) + '/' + str(f.denominator)) \
        if f.denominator != 1 else z3.RealVal(f.numerator)

class Translator:
    """Polynomials to z3 terms; collects defining constraints of atoms."""

    def __init__(self, margin=0):
        self.vars = {}
        self.defs = []
        self.cpow = {}
        self.margin = q(margin)     # stay away from rounding boundaries

    def base(self, a):
        if a in self.vars:
            return self.vars[a]
        at = SPACE.atoms[a]
        k = at.kind
        if k == 'int':
            v = z3.Int(at.name)
            self.vars[a] = v
            if at.lo is not None: self.defs.append(v >= int(at.lo))
            if at.hi is not None: self.defs.append(v <= int(at.hi))
            return v
        if k in ('floor', 'fdiv', 'round'):
            v = z3.Int(at.name)
            self.vars[a] = v
            if k == 'floor':
                x = self.real(at.arg)
                self.defs += [z3.ToReal(v) + self.margin <= x,
                    x < z3.ToReal(v) + 1 - self.margin]
            elif k == 'round':
                x = self.real(at.arg)
                h = z3.RealVal('1/2') - self.margin
                self.defs += [z3.ToReal(v) - h <= x, x <= z3.ToReal(v) + h]
            else:
                n, d = (self.int(y) for y in at.arg)
                if isinstance(at.arg[1], Sym):
                    r = n - v * d
                    self.defs += [z3.Or(z3.And(d > 0, r >= 0, r < d),
                        z3.And(d < 0, r <= 0, r > d))]
                elif at.arg[1] > 0:
                    r = n - v * d
                    self.defs += [r >= 0, r < d]
                else:
                    r = n - v * d
                    self.defs += [r <= 0, r > d]
            return v
        v = z3.Real(at.name)
        self.vars[a] = v
        if k == 'real':
            if at.lo is not None: self.defs.append(v >= q(at.lo))
            if at.hi is not None: self.defs.append(v <= q(at.hi))
        elif k == 'inv':
            self.defs.append(v * self.real(at.arg) == 1)
        elif k == 'sqrt':
            self.defs += [v >= 0, v * v == self.real(at.arg)]
        elif k == 'abs':
            x = self.real(at.arg)
            self.defs.append(v == z3.If(x >= 0, x, -x))
        elif k == 'fun':
            lo, hi = atom_interval(a)
            if not math.isinf(lo): self.defs.append(v >= q(lo))
            if not math.isinf(hi): self.defs.append(v <= q(hi))
        return v

    def unit(self, a):
        """Granularity of the exponents of an exp/phase atom."""
        return UNITS.setdefault((id(SPACE), a), Fraction(1))

    def expvar(self, a):
        if a in self.vars:
            return self.vars[a]
        at = SPACE.atoms[a]
        if at.kind == 'exp':
            v = z3.Real(at.name)
            w = z3.Real(at.name + '^-1')
            self.vars[a] = (v, w)
            self.defs += [v > 0, w > 0, v * w == 1]
            u = self.unit(a)
            lo, hi = interval(at.arg * float(u) if isinstance(at.arg, Sym)
                else at.arg)
            if abs(hi) < 700:
                self.defs.append(v <= q(math.exp(hi)))
            if abs(lo) < 700:
                self.defs.append(v >= q(math.exp(lo)))
        else:
            c = z3.Real('c:' + at.name)
            s = z3.Real('s:' + at.name)
            self.vars[a] = (c, s)
            self.defs += [c * c + s * s == 1]
        return self.vars[a]

    def steps(self, a, p):
        u = self.unit(a)
        n = Fraction(p).limit_denominator(1000) / u
        if n.denominator != 1:
            raise Unsupported('exponent granularity')
        return int(n)

    def _cexp(self, a, n):
        key = (a, n)
        if key in self.cpow:
            return self.cpow[key]
        c, s = self.expvar(a)
        if n == 1:
            r = (c, s)
        elif n < 0:
            x, y = self._cexp(a, -n)
            r = (x, -y)
        else:
            x, y = self._cexp(a, n - 1)
            r = (x * c - y * s, x * s + y * c)
        self.cpow[key] = r
        return r

    def complex(self, x):
        """(real, imaginary) z3 terms."""
        if not isinstance(x, Sym):
            x = complex(x)
            return q(x.real), q(x.imag)
        res = []
        ims = []
        for m, c in x.t.items():
            r = None
            ph = None
            for a, p in m:
                at = SPACE.atoms[a]
                if at.kind == 'phase':
                    e = self._cexp(a, self.steps(a, p))
                    ph = e if ph is None else (ph[0] * e[0] - ph[1] * e[1],
                        ph[0] * e[1] + ph[1] * e[0])
                    continue
                if at.kind == 'exp':
                    n = self.steps(a, p)
                    v = self.expvar(a)[0 if n > 0 else 1]
                    f = v
                    for _ in range(abs(n) - 1):
                        f = f * v
                elif at.kind in ('cfun', 'cinv'):
                    raise Unsupported('complex atom in solver query')
                else:
                    v = self.base(a)
                    if z3.is_int(v):
                        v = z3.ToReal(v)
                    f = v
                    for _ in range(int(p) - 1):
                        f = f * v
                r = f if r is None else r * f
            if isinstance(c, complex):
                cr, ci = c.real, c.imag
            else:
                cr, ci = c, 0
            if ph is None:
                if cr:
                    res.append(q(cr) if r is None else q(cr) * r)
                if ci:
                    ims.append(q(ci) if r is None else q(ci) * r)
            else:
                u, v = ph
                if cr and ci:
                    R, I = q(cr) * u - q(ci) * v, q(cr) * v + q(ci) * u
                elif cr:
                    R, I = q(cr) * u, q(cr) * v
                else:
                    R, I = -q(ci) * v, q(ci) * u
                res.append(R if r is None else R * r)
                ims.append(I if r is None else I * r)
        zero = z3.RealVal(0)
        return (z3.Sum(res) if res else zero, z3.Sum(ims) if ims else zero)

    def real(self, x):
        return self.complex(x)[0]

    def int(self, x):
        if not isinstance(x, Sym):
            return z3.IntVal(int(x))
        terms = []
        for m, c in x.t.items():
            f = z3.IntVal(int(c))
            for a, p in m:
                v = self.base(a)
                for _ in range(int(p)):
                    f = f * v
            terms.append(f)
        return z3.Sum(terms)

    def bool(self, b):
        if isinstance(b, (bool, _np.bool_)):
            return z3.BoolVal(bool(b))
        if b.op == 'and':
            return z3.And(*[self.bool(x) for x in b.args])
        if b.op == 'or':
            return z3.Or(*[self.bool(x) for x in b.args])
        if b.op == 'not':
            return z3.Not(self.bool(b.args[0]))
        x, = b.args
        if is_int(x):
            e = self.int(x)
        else:
            e = self.real(x)
        return {'<': e < 0, '<=': e <= 0, '>': e > 0, '>=': e >= 0,
            '==': e == 0, '!=': e != 0}[b.op]

UNITS = {}

def collect_units(xs):
    """Choose exponent granularities for all exp/phase atoms in use."""
    seen = set()

    def visit(x):
        if isinstance(x, SymBool):
            for y in x.args:
                visit(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                visit(y)
        elif isinstance(x, Sym):
            for m in x.t:
                for a, p in m:
                    at = SPACE.atoms[a]
                    if at.kind in ('exp', 'phase'):
                        f = abs(Fraction(p).limit_denominator(1000))
                        u = UNITS.get((id(SPACE), a))
                        if u is None:
                            UNITS[id(SPACE), a] = f
                        else:
                            UNITS[id(SPACE), a] = Fraction(math.gcd(
                                u.numerator * f.denominator,
                                f.numerator * u.denominator),
                                u.denominator * f.denominator)
                    if a not in seen:
                        seen.add(a)
                        if at.kind not in ('real', 'int'):
                            visit(at.arg)
    for x in xs:
        visit(x)

def atoms_of(x, out=None):
    """Base atoms a term depends on."""
    if out is None:
        out = set()
    seen = set()

    def visit(x):
        if isinstance(x, SymBool):
            for y in x.args:
                visit(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                visit(y)
        elif isinstance(x, Sym):
            for m in x.t:
                for a, p in m:
                    if a in seen:
                        continue
                    seen.add(a)
                    at = SPACE.atoms[a]
                    if at.kind in ('real', 'int'):
                        out.add(a)
                    else:
                        visit(at.arg)
    visit(x)
    return out

def substitute(x, values):
    """Replace base atoms by numbers (simplifies defined atoms)."""
    if isinstance(x, SymBool):
        if x.op == 'and':
            return s_and(*[substitute(a, values) for a in x.args])
        if x.op == 'or':
            return s_or(*[substitute(a, values) for a in x.args])
        if x.op == 'not':
            return s_not(substitute(x.args[0], values))
        return _cmp(x.op, real(substitute(x.args[0], values)))
    if not isinstance(x, Sym):
        return x
    out = 0
    for m, c in x.t.items():
        p = c
        rest = []
        for a, e in m:
            at = SPACE.atoms[a]
            if at.kind in ('real', 'int'):
                if a in values:
                    p = p * values[a] ** e
                else:
                    rest.append((a, e))
            else:
                p = _mul(_subst_atom(a, e, values), p)
        if rest:
            p = _mul(Sym({tuple(rest): 1}), p)
        out = out + p
    return out

def _mul(a, b):
    if isinstance(a, Sym):
        return a * b
    if isinstance(b, Sym):
        return b * a
    return a * b

def _subst_atom(a, e, values):
    at = SPACE.atoms[a]
    k = at.kind
    if k == 'fun':
        args = [substitute(y, values) for y in at.arg]
        if not any(isinstance(y, Sym) for y in args):
            f = _FUNS.get(at.extra)
            if f:
                return f(*[float(y.real) for y in args]) ** e
        return Sym({((a, 1),): 1}) ** e
    if k == 'fdiv':
        n, d = (substitute(y, values) for y in at.arg)
        return _floordiv(n, d) ** e
    y = substitute(at.arg, values)
    if k == 'phase':
        return exp(y * e * 1j)
    if k == 'exp':
        return exp(y * e)
    if k in ('inv', 'cinv'):
        return inv(y) ** e
    f = {'sqrt': sqrt, 'abs': absolute, 'floor': floor, 'round': rnd}[k]
    return f(y) ** e

# ---------------------------------------------------------------------------
# path engine

class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.forks = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.residuals = 0
        self.nontrivial = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + getattr(o, k))

STATS = Stats()

def solve(constraints, timeout=10.0, tr=None, model=False):
    """'sat'/'unsat'/'unknown' for a list of SymBool/z3 constraints."""
    syms = [c for c in constraints if not isinstance(c, z3.ExprRef)]
    collect_units(syms)
    tr = tr or Translator()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    exprs = [c if isinstance(c, z3.ExprRef) else tr.bool(c)
        for c in constraints]
    s.add(*exprs)
    s.add(*tr.defs)
    t0 = time.time()
    r = s.check()
    STATS.queries += 1
    STATS.solver_s += time.time() - t0
    r = str(r)
    setattr(STATS, r, getattr(STATS, r) + 1)
    if model is not False:
        if r != 'sat':
            return r, None
        vals = read_model(s.model(), tr)
        if isinstance(model, Sym):      # value of integer term
            v = s.model().eval(tr.int(model), model_completion=True)
            vals['#'] = v.as_long() if z3.is_int_value(v) else None
        return r, vals
    return r

def read_model(m, tr):
    vals = {}
    for a, v in tr.vars.items():
        at = SPACE.atoms[a]
        if at.kind in ('real', 'int'):
            x = m.eval(v, model_completion=True)
            vals[at.name] = z3num(x)
            if at.kind == 'int':
                vals[at.name] = int(vals[at.name])
    # angles from their unit-circle coordinates
    for a, v in tr.vars.items():
        at = SPACE.atoms[a]
        if at.kind in ('phase', 'exp') and len(at.arg.t) == 1:
            (mm, c), = at.arg.t.items()
            if len(mm) == 1 and mm[0][1] == 1:
                b = SPACE.atoms[mm[0][0]]
                if b.kind == 'real' and mm[0][0] not in tr.vars:
                    u = float(UNITS.get((id(SPACE), a), 1))
                    if at.kind == 'phase':
                        cc = z3num(m.eval(v[0], model_completion=True))
                        ss = z3num(m.eval(v[1], model_completion=True))
                        ang = math.atan2(ss, cc) / u
                        per = 2 * math.pi / u
                        if b.lo is not None:
                            while ang < b.lo - 1e-12:
                                ang += per
                        vals[b.name] = ang
                    else:
                        vv = z3num(m.eval(v[0], model_completion=True))
                        vals[b.name] = math.log(max(vv, 1e-300)) / u
    return vals

def z3num(x):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return float(x.as_fraction())
    if z3.is_algebraic_value(x):
        return float(x.approx(20).as_fraction())
    return 0.0

class Path(list):
    """Path condition; `essential` omits what the rest entails."""

    def __init__(self, *args):
        super().__init__(*args)
        self.essential = list(self)

    def append(self, b, implied=False):
        super().append(b)
        if not implied:
            self.essential.append(b)

    def snapshot(self):
        p = Path(self)
        p.essential = list(self.essential)
        return p

class Engine:
    def __init__(self):
        self.active = False
        self.reset([])
        self.deadline = None
        self.max_forks = 400
        self.qtimeout = 5.0

    def reset(self, prefix):
        self.prefix = list(prefix)
        self.trace = []      # decisions: (choice, alternatives left)
        self.path = Path()   # SymBool constraints
        self.pending = []

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time')

    def assume(self, b):
        if isinstance(b, (bool, _np.bool_)):
            if not b:
                raise Infeasible()
            return
        self.path.append(b)

    def feasible(self, extra):
        self.check_deadline()
        rel = relevant(self.path.essential, extra)
        return solve(rel + [extra], self.qtimeout)

    def decide(self, b):
        if not self.active:
            raise Unsupported('decision outside exploration')
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            if v == 'T' or v == 'F':
                v = v == 'T'
                self.path.append(b if v else s_not(b), implied=True)
            else:
                self.path.append(b if v else s_not(b))
            return v
        if i > self.max_forks:
            raise Budget('forks')
        t = self.feasible(b)
        if t == 'unsat':
            self.trace.append('F')
            self.path.append(s_not(b), implied=True)
            return False
        f = self.feasible(s_not(b))
        if f == 'unsat':
            self.trace.append('T')
            self.path.append(b, implied=True)
            return True
        STATS.forks += 1
        self.pending.append(self.trace + [False])
        self.trace.append(True)
        self.path.append(b)
        return True

    def concretize(self, x):
        """Enumerate the feasible values of an integer term by forking."""
        if not isinstance(x, Sym):
            return int(x)
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                # replay: value stored in the prefix entry
                v = self.prefix[i]
                if isinstance(v, tuple):
                    val, take = v
                    b = compare('==', x, val)
                    self.trace.append(v)
                    if take:
                        self.path.append(b)
                        return val
                    self.path.append(s_not(b))
                    continue
            if i > self.max_forks:
                raise Budget('forks')
            self.check_deadline()
            rel = relevant(self.path.essential, x)
            r, mod = solve(rel + [compare('>=', x, -10 ** 6)]
                if isinstance(compare('>=', x, -10 ** 6), SymBool)
                else rel + [SymBool('>=', x + 10 ** 6)], self.qtimeout,
                model=x)
            if r == 'unsat':
                raise Infeasible()
            if r == 'unknown':
                raise Unsupported('integer value undecided')
            val = mod['#']
            if val is None:
                val = int(round(evaluate(x, mod).real))
            b = compare('==', x, val)
            if isinstance(b, bool):
                if b:
                    return val
                raise Unsupported('integer model mismatch')
            o = self.feasible(s_not(b))
            if o != 'unsat':
                STATS.forks += 1
                self.pending.append(self.trace + [(val, False)])
            self.trace.append((val, True))
            self.path.append(b)
            return val

def relevant(path, extra):
    """Path constraints sharing (transitively) atoms with `extra`."""
    want = atoms_of(extra)
    items = [(c, atoms_of(c)) for c in path]
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for c, s in items:
            if s & want:
                want |= s
                out.append(c)
                changed = True
            else:
                rest.append((c, s))
        items = rest
    return out

ENGINE = Engine()

def explore(fn, max_paths=2000, deadline=None):
    """Run `fn` once per feasible path. Yields (status, result, path)."""
    stack = [[]]
    n = 0
    while stack:
        if n >= max_paths:
            raise Budget('paths')
        if deadline is not None and time.time() > deadline:
            raise Budget('time')
        prefix = stack.pop()
        ENGINE.reset(prefix)
        ENGINE.active = True
        ENGINE.deadline = deadline
        try:
            r = fn()
            status = 'ok'
        except Infeasible:
            r = None
            status = 'infeasible'
        except Exception as e:
            r = e
            status = 'error'
        finally:
            ENGINE.active = False
        stack.extend(ENGINE.pending)
        n += 1
        STATS.paths += 1
        yield status, r, ENGINE.path.snapshot()
