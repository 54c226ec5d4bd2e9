"""Symbolic arrays and the stand-in for NumPy seen by the code under test.

All floating-point and complex arrays become object arrays (`SymArray`) of
Python numbers and symbolic scalars; integer and boolean arrays stay native.
Operations on arrays without symbolic entries are delegated to NumPy itself.
"""

import builtins
import itertools
import math
import types

import numpy as np

from symx import core
from symx.core import Sym, SymBool, Unsupported

NUMBER = (int, float, complex)

def has_sym(a):
    """Does a (nested) Python object contain symbolic values?"""
    if isinstance(a, (Sym, SymBool)):
        return True
    if isinstance(a, np.ndarray):
        if a.dtype != object:
            return False
        for x in a.flat:
            if isinstance(x, (Sym, SymBool)):
                return True
        return False
    if isinstance(a, (list, tuple)):
        return any(has_sym(x) for x in a)
    return False

def is_sym(a):
    """Is this really an array of this module (see _Meta)?"""
    return type.__instancecheck__(SymArray, a)

def has_obj(a):
    if isinstance(a, (Sym, SymBool)):
        return True
    if isinstance(a, np.ndarray):
        return is_sym(a) or a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(has_obj(x) for x in a)
    return False

class _Meta(type):
    def __instancecheck__(cls, x):
        if cls is SymArray:
            return isinstance(x, np.ndarray)
        return type.__instancecheck__(cls, x)

_uninit = itertools.count()

# keep integer arrays symbolic as well (set by harnesses)
INT_OBJECT = [False]

def native(a):
    """Convert object array without symbolic entries to numeric array."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        b = np.asarray(a).view(np.ndarray)
        if b.size == 0:
            return np.zeros(b.shape, dtype=float)
        flat = b.ravel().tolist()
        kind = 0
        for x in flat:
            if isinstance(x, (Sym, SymBool)):
                raise Unsupported('symbolic entry in native operation')
            if isinstance(x, complex):
                kind = 2
            elif isinstance(x, (bool, np.bool_)):
                pass
            elif isinstance(x, (float, int, np.number)):
                if isinstance(x, np.complexfloating):
                    kind = 2
                elif not kind:
                    kind = 1
            else:
                raise Unsupported('entry of type %s' % type(x).__name__)
        dt = (bool, float, complex)[kind]
        return np.array(flat, dtype=dt).reshape(b.shape)
    return a

def native_deep(a):
    if isinstance(a, np.ndarray):
        return native(a)
    if isinstance(a, list):
        return [native_deep(x) for x in a]
    if type(a) is tuple:
        return tuple(native_deep(x) for x in a)
    return a

def wrap(a):
    """Convert results of NumPy to what the code under test may see."""
    if is_sym(a):
        return a
    if isinstance(a, np.ndarray):
        if a.dtype.kind in 'fc':
            out = np.empty(a.shape, dtype=object)
            flat = out.reshape(-1)
            flat[:] = a.ravel().tolist()
            if out.ndim == 0:
                out[()] = a.item()
            return out.view(SymArray)
        if a.dtype == object:
            if all_bool(a):
                return np.array(a.tolist(), dtype=bool).reshape(a.shape)
            return a.view(SymArray)
        return a
    if isinstance(a, np.generic):
        return a
    if isinstance(a, list):
        return [wrap(x) for x in a]
    if type(a) is tuple:
        return tuple(wrap(x) for x in a)
    if isinstance(a, tuple) and hasattr(a, '_fields'):
        return type(a)(*[wrap(x) for x in a])
    return a

def all_bool(a):
    if a.size == 0:
        return False
    for x in a.flat:
        if not isinstance(x, (bool, np.bool_)):
            return False
    return True

def symarray(data, copy=True):
    """Nested sequence to SymArray."""
    if is_sym(data):
        return data.copy() if copy else data
    if isinstance(data, np.ndarray):
        if data.dtype == object:
            a = np.array(data, dtype=object, copy=copy or None)
            return a.view(SymArray)
        return wrap(data.astype(float) if data.dtype.kind in 'iub' else data)
    shape = _shape(data)
    out = np.empty(shape, dtype=object)
    if shape == ():
        out[()] = scalar(data)
    else:
        _fill(out, data)
    return out.view(SymArray)

def scalar(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        x = x[()]
    if isinstance(x, np.generic):
        return x.item()
    return x

def _shape(d):
    if isinstance(d, np.ndarray):
        return d.shape
    if isinstance(d, (list, tuple, range)):
        if len(d) == 0:
            return (0,)
        s = [_shape(x) for x in d]
        if any(x != s[0] for x in s):
            raise ValueError('inhomogeneous shape')
        return (len(d),) + s[0]
    if hasattr(d, '__next__') or isinstance(d, (map, zip)):
        raise Unsupported('array from iterator')
    return ()

def _fill(out, d):
    for i, x in enumerate(d):
        if out.ndim == 1:
            out[i] = scalar(x)
        else:
            if isinstance(x, np.ndarray):
                out[i] = x.astype(object) if x.dtype != object else x
            else:
                _fill(out[i], x)

# ---------------------------------------------------------------------------
# elementwise functions on scalars

def _nat(f):
    def g(x):
        with np.errstate(all='ignore'):
            r = f(x)
        return r.item() if isinstance(r, np.generic) else r
    return g

def _unary(symf, npf):
    n = _nat(npf)

    def g(x):
        if isinstance(x, Sym):
            return symf(x)
        if isinstance(x, SymBool):
            x = int(bool(x))
        return n(x)
    return g

def _sign(x):
    if x > 0:
        return 1.0
    if x < 0:
        return -1.0
    return 0.0

def _notimpl(name):
    def f(x):
        raise Unsupported('np.%s of symbolic value' % name)
    return f

UNARY = {
    'exp': _unary(core.exp, np.exp),
    'expm1': _unary(lambda x: core.exp(x) - 1, np.expm1),
    'sqrt': _unary(core.sqrt, np.sqrt),
    'cos': _unary(core.cos, np.cos),
    'sin': _unary(core.sin, np.sin),
    'tan': _unary(lambda x: core.sin(x) / core.cos(x), np.tan),
    'cosh': _unary(core.cosh, np.cosh),
    'sinh': _unary(core.sinh, np.sinh),
    'tanh': _unary(core.tanh, np.tanh),
    'log': _unary(core.log, np.log),
    'log1p': _unary(lambda x: core.log(x + 1), np.log1p),
    'arctan': _unary(core.atan, np.arctan),
    'arccos': _unary(core.acos, np.arccos),
    'absolute': _unary(core.absolute, np.absolute),
    'fabs': _unary(core.absolute, np.fabs),
    'conjugate': _unary(core.conj, np.conjugate),
    'cbrt': _unary(lambda x: x ** (1 / 3), np.cbrt),
    'square': _unary(lambda x: x * x, np.square),
    'reciprocal': _unary(core.inv, np.reciprocal),
    'floor': _unary(core.floor, np.floor),
    'ceil': _unary(core.ceil, np.ceil),
    'trunc': _unary(core.trunc, np.trunc),
    'rint': _unary(core.rnd, np.rint),
    'sign': _unary(_sign, np.sign),
    'isfinite': _unary(lambda x: True, np.isfinite),
    'isnan': _unary(lambda x: False, np.isnan),
    'isinf': _unary(lambda x: False, np.isinf),
    'deg2rad': _unary(lambda x: x * (math.pi / 180), np.deg2rad),
    'radians': _unary(lambda x: x * (math.pi / 180), np.radians),
    'rad2deg': _unary(lambda x: x * (180 / math.pi), np.rad2deg),
    'degrees': _unary(lambda x: x * (180 / math.pi), np.degrees),
    'signbit': _unary(lambda x: x < 0, np.signbit),
}

for _n in ('arcsin', 'arccosh', 'arcsinh', 'arctanh', 'log2', 'log10', 'exp2'):
    UNARY[_n] = _unary(_notimpl(_n), getattr(np, _n))

def _div(a, b):
    if isinstance(b, Sym):
        return b.__rtruediv__(a) if not isinstance(a, Sym) else a / b
    if isinstance(a, Sym):
        return a / b
    with np.errstate(all='ignore'):
        r = np.true_divide(a, b)
    return r.item() if isinstance(r, np.generic) else r

def _pow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a ** b
    with np.errstate(all='ignore'):
        if isinstance(a, int) and isinstance(b, int) and b < 0:
            a = float(a)
        r = np.power(a, b)
    return r.item() if isinstance(r, np.generic) else r

def _natbin(f):
    def g(a, b):
        with np.errstate(all='ignore'):
            r = f(a, b)
        return r.item() if isinstance(r, np.generic) else r
    return g

def _binary(symf, npf):
    n = _natbin(npf)

    def g(a, b):
        if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
            return symf(a, b)
        return n(a, b)
    return g

def _maximum(a, b):
    return a if a >= b else b

def _minimum(a, b):
    return a if a <= b else b

def _and(a, b):
    a = _tobool(a)
    b = _tobool(b)
    return core.s_and(a, b)

def _or(a, b):
    return core.s_or(_tobool(a), _tobool(b))

def _tobool(a):
    if isinstance(a, SymBool):
        return a
    if isinstance(a, Sym):
        return a != 0
    return bool(a)

def _not(a):
    a = _tobool(a)
    return core.s_not(a)

def _arctan2(y, x):
    return core.fun('arctan2', y, x)

def h_angle(z, deg=False):
    one = _binary(_arctan2, np.arctan2)
    a = elementwise(lambda x: one(core.imag(x), core.real(x))
        * (180 / math.pi if deg else 1.0), plain(z))
    return finish(a) if isinstance(a, np.ndarray) and a.shape else scalar(a)

BINARY = {
    'add': _binary(lambda a, b: a + b, np.add),
    'subtract': _binary(lambda a, b: a - b, np.subtract),
    'multiply': _binary(lambda a, b: a * b, np.multiply),
    'divide': _div,
    'true_divide': _div,
    'floor_divide': _binary(lambda a, b: a // b, np.floor_divide),
    'remainder': _binary(lambda a, b: a % b, np.remainder),
    'mod': _binary(lambda a, b: a % b, np.remainder),
    'fmod': _binary(lambda a, b: a - core.trunc(a / b) * b, np.fmod),
    'power': _pow,
    'float_power': _pow,
    'maximum': _binary(_maximum, np.maximum),
    'minimum': _binary(_minimum, np.minimum),
    'fmax': _binary(_maximum, np.fmax),
    'fmin': _binary(_minimum, np.fmin),
    'arctan2': _binary(_arctan2, np.arctan2),
    'hypot': _binary(lambda a, b: core.sqrt(a * a + b * b), np.hypot),
    'less': _binary(lambda a, b: a < b, np.less),
    'less_equal': _binary(lambda a, b: a <= b, np.less_equal),
    'greater': _binary(lambda a, b: a > b, np.greater),
    'greater_equal': _binary(lambda a, b: a >= b, np.greater_equal),
    'equal': _binary(lambda a, b: a == b, np.equal),
    'not_equal': _binary(lambda a, b: a != b, np.not_equal),
    'logical_and': _and,
    'logical_or': _or,
    'bitwise_and': _and,
    'bitwise_or': _or,
    'logical_xor': lambda a, b: bool(_tobool(a)) ^ bool(_tobool(b)),
    'bitwise_xor': lambda a, b: bool(_tobool(a)) ^ bool(_tobool(b)),
    'copysign': _binary(lambda a, b: core.absolute(a) * (
        1.0 if b >= 0 else -1.0), np.copysign),
}

UNARY['positive'] = lambda x: x
UNARY['negative'] = lambda x: -x
UNARY['logical_not'] = _not
UNARY['invert'] = _not

PRED = {'less', 'less_equal', 'greater', 'greater_equal', 'equal',
    'not_equal', 'logical_and', 'logical_or', 'logical_not', 'invert',
    'isfinite', 'isnan', 'isinf', 'logical_xor', 'bitwise_and', 'bitwise_or',
    'bitwise_xor', 'signbit'}

def plain(a):
    """Operand as plain ndarray (object if floating)."""
    if is_sym(a):
        return a.view(np.ndarray)
    if isinstance(a, np.ndarray):
        if a.dtype.kind in 'fc':
            return a.astype(object)
        return np.asarray(a)
    if isinstance(a, (Sym, SymBool)):
        out = np.empty((), dtype=object)
        out[()] = a
        return out
    if isinstance(a, (list, tuple)):
        return symarray(a).view(np.ndarray)
    if isinstance(a, np.generic):
        a = a.item()
    out = np.empty((), dtype=object)
    out[()] = a
    return out

def elementwise(f, *args):
    args = [plain(a) for a in args]
    if len(args) == 1:
        a = args[0]
        out = np.empty(a.shape, dtype=object)
        o = out.reshape(-1)
        if a.ndim == 0:
            out[()] = f(scalar(a[()]))
        else:
            for i, x in enumerate(a.ravel().tolist()):
                o[i] = f(x)
        return out
    b = np.broadcast(*args)
    out = np.empty(b.shape, dtype=object)
    if b.shape == ():
        out[()] = f(*[scalar(x[()]) for x in args])
        return out
    args = np.broadcast_arrays(*args)
    o = out.reshape(-1)
    ls = [a.ravel().tolist() for a in args]
    for i, xs in enumerate(zip(*ls)):
        o[i] = f(*xs)
    return out

def finish(out, ispred=False):
    """Result of a ufunc: scalar if 0-d; native if boolean."""
    if isinstance(out, np.ndarray):
        if out.ndim == 0:
            x = out[()]
            if isinstance(x, float):
                return np.float64(x)
            if isinstance(x, complex):
                return np.complex128(x)
            if isinstance(x, bool):
                return np.bool_(x)
            return x
        if out.dtype == object:
            if ispred and out.size == 0:
                return np.zeros(out.shape, dtype=bool)
            if all_bool(out):
                return np.array(out.tolist(), dtype=bool).reshape(out.shape)
            return out.view(SymArray)
        return wrap(out)
    return out

def sum_terms(xs):
    """Sum with a mutable accumulator."""
    acc = {}
    const = 0
    inexact = None
    for x in xs:
        if isinstance(x, Sym):
            for m, c in x.t.items():
                core._add_into(acc, m, c)
        elif isinstance(x, SymBool):
            const += int(bool(x))
        elif isinstance(x, np.ndarray):
            raise Unsupported('nested array')
        else:
            const = const + x
    if not acc:
        return const
    if const != 0:
        if const != const or abs(const) == math.inf:
            return const
        core._add_into(acc, (), const)
    return core._finish(acc)

def exact(name, r):
    """Remove the rounding error of cos(pi/2), sin(pi) (reals, not floats)."""
    if name not in ('cos', 'sin'):
        return r
    if isinstance(r, (float, np.floating)):
        return r if abs(r) > 1e-15 else r * 0.0
    if isinstance(r, np.ndarray) and r.dtype.kind == 'f':
        return np.where(abs(r) > 1e-15, r, 0.0)
    return r

class SymArray(np.ndarray, metaclass=_Meta):
    def __new__(cls, shape=(), dtype=float, buffer=None, offset=0,
            strides=None, order=None):
        if hasattr(buffer, 'symbolic_memory'):
            a = buffer.symbolic_memory(shape)
            return a.view(cls)
        dt = np.dtype(dtype)
        if dt.kind in 'fcO':
            a = np.empty(shape, dtype=object)
            fill_uninit(a)
            return a.view(cls)
        if cls is SymArray:
            return poison_int(np.ndarray.__new__(np.ndarray, shape, dt))
        return np.ndarray.__new__(cls, shape, dt)

    def __array_finalize__(self, obj):
        pass

    # -- in-place operations with a bare symbolic scalar

    def _inplace(self, ufunc, other):
        if isinstance(other, (Sym, core.SymBool)):
            o = np.empty((), dtype=object)
            o[()] = other
            other = o.view(SymArray)
        return ufunc(self, other, out=self)

    def __iadd__(self, other):
        return self._inplace(np.add, other)

    def __isub__(self, other):
        return self._inplace(np.subtract, other)

    def __imul__(self, other):
        return self._inplace(np.multiply, other)

    def __itruediv__(self, other):
        return self._inplace(np.true_divide, other)

    def __ipow__(self, other):
        return self._inplace(np.power, other)

    # -- protocol

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        out = kwargs.pop('out', None)
        where = kwargs.pop('where', True)
        kwargs.pop('dtype', None)
        kwargs.pop('casting', None)
        kwargs.pop('subok', None)
        name = ufunc.__name__
        cls = type(self)

        if method == '__call__':
            if ufunc.nin == 1 and ufunc.nout == 1:
                res = self._call1(ufunc, name, inputs)
            elif name == 'matmul':
                res = matmul(*inputs)
            elif ufunc.nin == 2 and ufunc.nout == 1:
                res = self._call2(ufunc, name, inputs)
            elif name == 'divmod':
                q = self._call2(np.floor_divide, 'floor_divide', inputs)
                return q, inputs[0] - q * inputs[1]
            elif name == 'modf':
                i = UNARY['trunc']
                q = finish(elementwise(i, inputs[0]))
                return inputs[0] - q, q
            else:
                res = self._native(getattr(ufunc, method), inputs, kwargs)
        elif method == 'reduce':
            res = reduce(name, ufunc, inputs[0], **kwargs)
        elif method == 'outer':
            a, b = (plain(x) for x in inputs)
            f = BINARY[name]
            aa = a.reshape(a.shape + (1,) * b.ndim)
            res = finish(elementwise(f, aa, b), name in PRED)
        elif method == 'accumulate':
            a = plain(inputs[0])
            axis = kwargs.get('axis', 0)
            f = BINARY[name]
            res = np.moveaxis(a, axis, 0).copy()
            for i in range(1, len(res)):
                res[i] = elementwise(f, res[i - 1], res[i])
            res = finish(np.moveaxis(res, 0, axis))
        elif method == 'at':
            a, idx = inputs[:2]
            f = BINARY[name]
            v = plain(inputs[2]) if len(inputs) > 2 else None
            n = np.arange(a.size).reshape(a.shape)[idx]
            flat = a.view(np.ndarray).reshape(-1)
            if v is not None:
                v = np.broadcast_to(v, np.shape(n)).reshape(-1)
            for k, j in enumerate(np.reshape(n, -1)):
                flat[j] = f(flat[j], v[k])
            return None
        else:
            res = self._native(getattr(ufunc, method), inputs, kwargs)

        if out is not None:
            o = out[0]
            if where is not True:
                w = plain(where)
                for idx in np.ndindex(*o.shape):
                    if bool(np.broadcast_to(w, o.shape)[idx]):
                        o[idx] = np.broadcast_to(plain(res), o.shape)[idx]
                return o
            if is_sym(o):
                r = res
                if np.shape(r) != o.shape:
                    r = np.broadcast_to(plain(r), o.shape)
                o.view(np.ndarray)[...] = plain(r)
            else:
                if has_sym(res):
                    if o.dtype.kind in 'iu':
                        res = elementwise(int, res)
                    else:
                        raise Unsupported('symbolic result in native array')
                r = plain(res)
                if o.dtype.kind in 'iub' and r.dtype == object and any(
                        isinstance(x, (float, complex))
                        for x in r.ravel().tolist()):
                    raise TypeError("Cannot cast ufunc '%s' output" % name)
                o[...] = r
            return o
        return res

    def _native(self, f, inputs, kwargs):
        return wrap(f(*[native_deep(x) for x in inputs], **kwargs))

    def _call1(self, ufunc, name, inputs):
        a, = inputs
        if not has_sym(a):
            try:
                n = native(a)
            except Unsupported:
                n = None
            if n is not None:
                with np.errstate(all='ignore'):
                    return wrap(exact(name, ufunc(n)))
        f = UNARY.get(name)
        if f is None:
            raise Unsupported('np.%s of symbolic array' % name)
        return finish(elementwise(f, a), name in PRED)

    def _call2(self, ufunc, name, inputs):
        a, b = inputs
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return np.zeros(self.shape, dtype=bool) if name == 'equal' \
                else np.ones(self.shape, dtype=bool)
        f = BINARY.get(name)
        if f is None:
            return self._native(ufunc, inputs, {})
        return finish(elementwise(f, a, b), name in PRED)

    def __array_function__(self, func, types_, args, kwargs):
        return dispatch(func, args, kwargs)

    # -- element access

    def __getitem__(self, key):
        key = fix_key(key, self.shape)
        r = np.ndarray.__getitem__(self, key)
        if isinstance(r, np.ndarray):
            return r
        if type(r) is float:
            return np.float64(r)
        if type(r) is complex:
            return np.complex128(r)
        return r

    def __setitem__(self, key, value):
        key = fix_key(key, self.shape)
        if isinstance(value, np.ndarray):
            value = plain(value)
            if value.ndim == 0:
                value = value[()]
                if isinstance(value, str):
                    from symx import loader
                    value = loader.b_float(str(value))
            elif value.dtype.kind in 'US' and value.size:
                from symx import loader
                new = np.empty(value.shape, dtype=object)
                new.ravel()[:] = [loader.b_float(str(x))
                    for x in value.ravel()]
                value = new
            elif isinstance(key, tuple) and len(key) == self.ndim and all(
                    isinstance(k, (int, np.integer)) for k in key):
                if value.size == 1:
                    value = value.reshape(-1)[0]
                else:
                    raise ValueError('setting an array element with a sequence')
            elif isinstance(key, (int, np.integer)) and self.ndim == 1:
                if value.size == 1:
                    value = value.reshape(-1)[0]
                else:
                    raise ValueError('setting an array element with a sequence')
        elif isinstance(value, (list, tuple)):
            value = symarray(value).view(np.ndarray)
        elif isinstance(value, np.generic):
            value = value.item()
        if isinstance(value, SymBool):
            value = int(bool(value))
        np.ndarray.__setitem__(self.view(np.ndarray), key, value)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self)):
            yield self[i]

    # -- attributes

    @property
    def real(self):
        return RealView(self, 'real') if self.ndim else finish(
            elementwise(core.real, self))

    @real.setter
    def real(self, value):
        set_part(self, 'real', value)

    @property
    def imag(self):
        return RealView(self, 'imag') if self.ndim else finish(
            elementwise(core.imag, self))

    @imag.setter
    def imag(self, value):
        set_part(self, 'imag', value)

    def conj(self):
        return finish(elementwise(UNARY['conjugate'], self))

    conjugate = conj

    def astype(self, dtype, *args, **kwargs):
        dt = np.dtype(dtype)
        if dt.kind == 'i':
            if has_sym(self):
                out = elementwise(core.trunc, self)
                return out.view(SymArray)
            return native(self).astype(dtype)
        if dt.kind == 'b':
            out = elementwise(_tobool, self)
            return finish(out, True)
        if dt.kind == 'f':
            return finish(elementwise(core.real, self)) if self.ndim \
                else self.copy()
        if dt.kind in 'SU':
            return native(self).astype(dtype)
        out = self.copy()
        if dt.kind == 'c':
            out._dt = 'c'
        return out

    def view(self, *args, **kwargs):
        if args and args[0] in (np.ndarray, SymArray) or (args
                and isinstance(args[0], type)
                and issubclass(args[0], np.ndarray)):
            return np.ndarray.view(self, args[0])
        # reinterpretation complex <-> float only matters for message passing
        return self

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce('add', np.add, self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        s = self.sum(axis=axis, keepdims=keepdims)
        n = self.size if axis is None else np.prod([self.shape[i] for i in (
            axis if isinstance(axis, tuple) else (axis,))])
        return s / int(n)

    def prod(self, axis=None, **kw):
        return reduce('multiply', np.multiply, self, axis=axis)

    def max(self, axis=None, **kw):
        return reduce('maximum', np.maximum, self, axis=axis)

    def min(self, axis=None, **kw):
        return reduce('minimum', np.minimum, self, axis=axis)

    def any(self, axis=None, **kw):
        return reduce('logical_or', np.logical_or, self, axis=axis)

    def all(self, axis=None, **kw):
        return reduce('logical_and', np.logical_and, self, axis=axis)

    def cumsum(self, axis=None, **kw):
        a = self.ravel() if axis is None else self
        return np.add.accumulate(a, axis=axis or 0)

    def dot(self, b):
        return dot(self, b)

    def __matmul__(self, b):
        return matmul(self, b)

    def __rmatmul__(self, b):
        return matmul(b, self)

    def round(self, decimals=0, out=None):
        return finish(elementwise(lambda x: rnd(x, decimals), self))

    def trace(self, offset=0, axis1=0, axis2=1, **kw):
        return np.diagonal(self, offset, axis1, axis2).sum(axis=-1)

    def argsort(self, axis=-1, **kw):
        return argsort(self, axis=axis)

    def sort(self, axis=-1, **kw):
        self[...] = sort(self, axis=axis)

    def argmin(self, axis=None, **kw):
        return argmin(self, axis)

    def argmax(self, axis=None, **kw):
        return argmin(-self, axis)

    def nonzero(self):
        return mask(self).nonzero()

    def std(self, axis=None, **kw):
        d = self - self.mean(axis=axis, keepdims=True)
        return np.sqrt((d * d).mean(axis=axis))

    def item(self, *args):
        return np.ndarray.item(self.view(np.ndarray), *args)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def fill(self, v):
        self[...] = v

    def tofile(self, f, *args, **kwargs):
        from symx import fileio
        fileio.tofile(self, f)

    def tobytes(self, *args):
        if has_sym(self):
            raise Unsupported('tobytes')
        return native(self).tobytes()

    def __float__(self):
        return float(self.view(np.ndarray).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays')
        return int(self.view(np.ndarray).reshape(-1)[0])

    __index__ = None

    def __index__(self):
        if self.size != 1:
            raise TypeError('only integer scalar arrays')
        return self.view(np.ndarray).reshape(-1)[0].__index__()

    def __bool__(self):
        if self.size != 1:
            raise ValueError('truth value of an array is ambiguous')
        return bool(self.view(np.ndarray).reshape(-1)[0])

    def __complex__(self):
        return complex(self.view(np.ndarray).reshape(-1)[0])

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self[()], spec)
        return np.ndarray.__format__(self, spec)

    def __repr__(self):
        return 'SymArray%s' % (self.shape,)

    __str__ = __repr__

    def __reduce__(self):
        return (_rebuild, (len(_KEEP), _keep(self)))

    def __deepcopy__(self, memo):
        return self.copy()

_KEEP = []

def _keep(a):
    _KEEP.append(a.copy())
    return a.shape

def _rebuild(i, shape):
    return _KEEP[i].copy()

def set_part(a, part, value):
    v = np.broadcast_to(plain(value), a.shape)
    b = a.view(np.ndarray)
    for i in np.ndindex(*a.shape):
        x = b[i]
        if part == 'real':
            b[i] = v[i] + core.imag(x) * 1j
        else:
            b[i] = core.real(x) + v[i] * 1j

def RealView(a, part):
    """Copy of real/imaginary part; in-place assignment writes back."""
    f = core.real if part == 'real' else core.imag
    out = elementwise(f, a)
    r = out.view(PartArray)
    r._base = a
    r._part = part
    return r

class PartArray(SymArray):
    def __array_finalize__(self, obj):
        self._base = None
        self._part = None

    def _sync(self):
        if getattr(self, '_base', None) is not None:
            set_part(self._base, self._part, self)

    def __setitem__(self, key, value):
        SymArray.__setitem__(self, key, value)
        self._sync()

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        out = kwargs.get('out')
        r = SymArray.__array_ufunc__(self, ufunc, method, *inputs, **kwargs)
        if out is not None and out[0] is self:
            self._sync()
        return r

def fill_uninit(a):
    if a.size == 0:
        return
    n = next(_uninit)
    x = core.var('uninitialized#%d' % n, -1e3, 1e3)
    if a.ndim == 0:
        a[()] = x
    else:
        a.fill(x)

def poison_int(a):
    if a.dtype.kind in 'iu' and a.size:
        a.fill(-99999 if a.dtype.kind == 'i' else 77)
    return a

def fix_key(key, shape):
    """Decide symbolic masks and indices (forks)."""
    if isinstance(key, slice):
        if any(isinstance(x, (Sym, SymArray)) for x in (key.start, key.stop,
                key.step)):
            return slice(*[int(x) if isinstance(x, (Sym, SymArray)) else x
                for x in (key.start, key.stop, key.step)])
        return key
    if isinstance(key, int) or key is None or key is Ellipsis:
        return key
    if isinstance(key, tuple):
        return tuple(fix_key(k, None) for k in key)
    if isinstance(key, Sym):
        return int(key)
    if isinstance(key, SymBool):
        return bool(key)
    if isinstance(key, SymArray):
        if key.dtype == object:
            flat = key.view(np.ndarray).reshape(-1)
            if any(isinstance(x, (SymBool, bool, np.bool_)) for x in flat):
                return mask(key)
            if any(isinstance(x, Sym) for x in flat):
                return np.array([int(x) for x in flat]).reshape(key.shape)
            if key.size == 0:
                return np.zeros(key.shape, dtype=int)
            if all(isinstance(x, int) for x in flat):
                return np.array(flat.tolist(), dtype=int).reshape(key.shape)
            raise IndexError('arrays used as indices must be of integer type')
        return key.view(np.ndarray)
    if isinstance(key, list) and has_sym(key):
        return [fix_key(k, None) for k in key]
    return key

def mask(a):
    """Native boolean array (forks on symbolic entries)."""
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.array([bool(x) for x in a.view(np.ndarray).ravel()],
            dtype=bool).reshape(a.shape)
    return np.asarray(a).astype(bool)

def rnd(x, n=0):
    if isinstance(x, Sym):
        return core.rnd(x, n)
    r = np.round(x, n)
    return r.item() if isinstance(r, np.generic) else r

# ---------------------------------------------------------------------------
# reductions and linear algebra

def reduce(name, ufunc, a, axis=0, keepdims=False, initial=None, **kw):
    a = plain(a)
    if name == 'add' and initial is None:
        initial = 0
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axes = (int(axis) % a.ndim,) if a.ndim else ()
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes))
    shape = b.shape[:len(rest)]
    b = b.reshape(shape + (-1,)) if a.size else b.reshape(
        shape + (int(np.prod([a.shape[i] for i in axes])),))
    out = np.empty(shape, dtype=object)

    for idx in np.ndindex(*shape):
        xs = b[idx]
        xs = xs.tolist() if isinstance(xs, np.ndarray) else [xs]
        if name == 'add':
            r = sum_terms(xs)
        elif name in ('logical_or', 'bitwise_or'):
            r = core.s_or(*[_tobool(x) for x in xs]) if xs else False
        elif name in ('logical_and', 'bitwise_and'):
            r = core.s_and(*[_tobool(x) for x in xs]) if xs else True
        elif name == 'multiply':
            r = 1.0
            for x in xs:
                r = x * r
        else:
            if not xs:
                raise ValueError('zero-size array to reduction operation '
                    '%s which has no identity' % name)
            f = BINARY[name]
            r = xs[0]
            for x in xs[1:]:
                r = f(r, x)
        out[idx] = r

    if keepdims:
        out = out.reshape([1 if i in axes else a.shape[i]
            for i in range(a.ndim)])
    return finish(out, name.startswith('logical'))

def _mm(a, b):
    """(n, k) x (k, m) object matrices."""
    n, k = a.shape
    m = b.shape[1]
    out = np.empty((n, m), dtype=object)
    al = a.tolist()
    bl = b.T.tolist()
    for i in range(n):
        r = al[i]
        for j in range(m):
            c = bl[j]
            out[i, j] = sum_products(r, c)
    return out

def sum_products(r, c):
    acc = {}
    const = 0
    for x, y in zip(r, c):
        if isinstance(x, Sym):
            if isinstance(y, Sym):
                p = x * y
                if isinstance(p, Sym):
                    for m, v in p.t.items():
                        core._add_into(acc, m, v)
                else:
                    const = const + p
            elif y != 0:
                for m, v in x.t.items():
                    core._add_into(acc, m, v * y)
        elif isinstance(y, Sym):
            if x != 0:
                for m, v in y.t.items():
                    core._add_into(acc, m, v * x)
        else:
            const = const + x * y
    if not acc:
        return const
    if const != 0:
        core._add_into(acc, (), const)
    return core._finish(acc)

def matmul(a, b):
    a = plain(a)
    b = plain(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: scalar operand')
    va = a.ndim == 1
    vb = b.ndim == 1
    if va:
        a = a[np.newaxis]
    if vb:
        b = b[:, np.newaxis]
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('matmul: shapes %s and %s not aligned'
            % (a.shape, b.shape))
    lead = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a, lead + a.shape[-2:])
    B = np.broadcast_to(b, lead + b.shape[-2:])
    out = np.empty(lead + (a.shape[-2], b.shape[-1]), dtype=object)
    for idx in np.ndindex(*lead):
        out[idx] = _mm(A[idx], B[idx])
    if va:
        out = out[..., 0, :]
    if vb:
        out = out[..., 0]
    return finish(np.asarray(out, dtype=object))

def dot(a, b):
    from symx.sparse import SymSparse
    c = b
    if isinstance(b, np.ndarray) and b.dtype == object and b.ndim == 1:
        c = plain(b).tolist()
    if isinstance(c, (list, tuple)):
        if c and all(isinstance(x, SymSparse) for x in c):
            b = c
            a = plain(a)
            if a.shape != (len(b),):
                raise ValueError('shapes not aligned')
            out = None
            for x, y in zip(a.tolist(), b):
                term = y * x
                out = term if out is None else out + term
            return out
    a = plain(a)
    b = plain(b)
    if a.ndim == 0 or b.ndim == 0:
        return finish(elementwise(BINARY['multiply'], a, b))
    if b.ndim == 1:
        A = a.reshape((-1, a.shape[-1]))
        if a.shape[-1] != b.shape[0]:
            raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
        out = _mm(A, b[:, np.newaxis]).reshape(a.shape[:-1])
        return finish(out if out.ndim else np.asarray(out, dtype=object))
    if a.shape[-1] != b.shape[-2]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    A = a.reshape((-1, a.shape[-1]))
    B = np.moveaxis(b, -2, 0).reshape((b.shape[-2], -1))
    shape = a.shape[:-1] + b.shape[:-2] + b.shape[-1:]
    return finish(_mm(A, B).reshape(shape))

def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        raise Unsupported('einsum without subscripts')
    spec = spec.replace(' ', '')
    ops = [plain(o) for o in ops]
    lhs, arrow, rhs = spec.partition('->')
    ins = lhs.split(',')
    if '...' in spec:
        nell = 0
        for s, o in zip(ins, ops):
            if '...' in s:
                nell = max(nell, o.ndim - len(s) + 3)
        pool = [c for c in 'ZYXWVUTSRQPONM' if c not in spec][:nell]
        new = []
        for s, o in zip(ins, ops):
            k = o.ndim - len(s) + 3
            new.append(s.replace('...', ''.join(pool[nell - k:])))
        ins = new
        rhs = rhs.replace('...', ''.join(pool))
    if not arrow:
        letters = ''.join(ins)
        rhs = ''.join(sorted(c for c in set(letters)
            if letters.count(c) == 1))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einstein sum subscripts do not match operand')
        for c, n in zip(s, o.shape):
            if dims.get(c, 1) == 1:
                dims[c] = n
            elif n not in (1, dims[c]):
                raise ValueError('operands could not be broadcast together')
    # contract pairwise from the left
    cur, res = ins[0], ops[0]
    cur, res = _diag(cur, res)
    for k in range(1, len(ops)):
        s, o = _diag(ins[k], ops[k])
        later = set(''.join(ins[k + 1:])) | set(rhs)
        keep = [c for c in dict.fromkeys(cur + s) if c in later]
        res = _contract(cur, res, s, o, keep, dims)
        cur = ''.join(keep)
    extra = [c for c in cur if c not in rhs]
    if extra:
        ax = tuple(cur.index(c) for c in extra)
        r = reduce('add', np.add, res, axis=ax)
        if not isinstance(r, np.ndarray):
            t = np.empty((), dtype=object)
            t[()] = scalar(r)
            r = t
        res = plain(r)
        cur = ''.join(c for c in cur if c in rhs)
    res = np.asarray(res, dtype=object).transpose([cur.index(c) for c in rhs])
    return finish(res)

def _diag(s, o):
    while len(set(s)) != len(s):
        for c in s:
            if s.count(c) > 1:
                i = s.index(c)
                j = s.index(c, i + 1)
                o = np.diagonal(o, axis1=i, axis2=j)
                s = s[:i] + s[i + 1:j] + s[j + 1:] + c
                break
    return s, o

def _contract(s1, a, s2, b, keep, dims):
    both = [c for c in s1 if c in s2 and c in keep]
    summed = [c for c in dict.fromkeys(s1 + s2) if c not in keep]
    only1 = [c for c in s1 if c not in s2 and c in keep]
    only2 = [c for c in s2 if c not in s1 and c in keep]
    s_common = [c for c in summed if c in s1 and c in s2]
    s_1 = [c for c in summed if c in s1 and c not in s2]
    s_2 = [c for c in summed if c in s2 and c not in s1]

    def get(x, s, groups):
        y = x.transpose([s.index(c) for c in itertools.chain(*groups)])
        shp = []
        for c, n in zip(itertools.chain(*groups), y.shape):
            shp.append(dims[c])
        return np.broadcast_to(y, shp)

    if s_1:
        r = reduce('add', np.add, a, axis=tuple(s1.index(c) for c in s_1))
        a = plain(r)
        s1 = ''.join(c for c in s1 if c not in s_1)
    if s_2:
        r = reduce('add', np.add, b, axis=tuple(s2.index(c) for c in s_2))
        b = plain(r)
        s2 = ''.join(c for c in s2 if c not in s_2)

    A = get(a, s1, (both, only1, s_common))
    B = get(b, s2, (both, s_common, only2))
    nb = [dims[c] for c in both]
    n1 = [dims[c] for c in only1]
    n2 = [dims[c] for c in only2]
    ns = [dims[c] for c in s_common]
    p = lambda l: int(np.prod(l)) if l else 1
    A = A.reshape((p(nb), p(n1), p(ns)))
    B = B.reshape((p(nb), p(ns), p(n2)))
    out = np.empty((p(nb), p(n1), p(n2)), dtype=object)
    for i in range(p(nb)):
        out[i] = _mm(A[i], B[i])
    out = out.reshape(nb + n1 + n2)
    order = both + only1 + only2
    return out.transpose([order.index(c) for c in keep])

def det(a):
    a = plain(a)
    if a.ndim > 2:
        out = np.empty(a.shape[:-2], dtype=object)
        for i in np.ndindex(*out.shape):
            out[i] = det(a[i])
        return finish(out)
    n = len(a)
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    s = 0
    for j in range(n):
        m = np.delete(a[1:], j, axis=1)
        t = det(m) * a[0, j]
        s = s + t if j % 2 == 0 else s - t
    return s

def linv(a):
    a = plain(a)
    if a.ndim > 2:
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = plain(linv(a[i]))
        return finish(out)
    n = len(a)
    d = det(a)
    if not isinstance(d, Sym) and d == 0:
        raise np.linalg.LinAlgError('Singular matrix')
    out = np.empty((n, n), dtype=object)
    r = core.inv(d) if isinstance(d, Sym) else 1 / d
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = 1.0
            else:
                c = det(np.delete(np.delete(a, j, axis=0), i, axis=1))
            c = c if (i + j) % 2 == 0 else -c
            out[i, j] = c * r
    return finish(out)

def norm(x, ord=None, axis=None, keepdims=False):
    x = plain(x)
    if ord not in (None, 2, 'fro'):
        raise Unsupported('norm order')
    sq = elementwise(lambda v: core.real(v * core.conj(v))
        if isinstance(v, Sym) else abs(v) ** 2, x)
    s = reduce('add', np.add, sq, axis=axis, keepdims=keepdims)
    if isinstance(s, np.ndarray):
        return finish(elementwise(UNARY['sqrt'], s))
    return UNARY['sqrt'](scalar(s))

EIGH_HOOK = []

def eigh(a, *args, **kwargs):
    for hook in reversed(EIGH_HOOK):
        r = hook(a)
        if r is not None:
            return types.SimpleNamespace(eigenvalues=r[0],
                eigenvectors=r[1]) if False else r
    b = plain(a)
    if b.ndim > 2:
        w = np.empty(b.shape[:-1], dtype=object)
        v = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*b.shape[:-2]):
            x, y = eigh(b[i].view(SymArray))
            w[i] = plain(x)
            v[i] = plain(y)
        return finish(w), finish(v)
    if b.shape == (1, 1):
        w = np.empty(1, dtype=object)
        w[0] = core.real(b[0, 0])
        v = np.empty((1, 1), dtype=object)
        v[0, 0] = 1.0
        return finish(w), finish(v)
    # diagonal matrices
    n = len(b)
    if all(not isinstance(b[i, j], Sym) and b[i, j] == 0
            for i in range(n) for j in range(n) if i != j):
        d = np.array([core.real(b[i, i]) for i in range(n)] + [None],
            dtype=object)[:n]
        order = argsort(d.view(SymArray))
        w = d[order]
        v = np.empty((n, n), dtype=object)
        v[...] = 0.0
        for j, i in enumerate(order):
            v[i, j] = 1.0
        return finish(w), finish(v)
    raise Unsupported('eigh of symbolic matrix')

def eig(a, *args, **kwargs):
    """Same decomposition in another order (general routines do not sort)."""
    w, v = eigh(a)
    n = plain(w).shape[-1]
    order = [1, 0] if n == 2 else list(range(1, n)) + [0]
    w, v = plain(w)[..., order], plain(v)[..., order]
    return finish(elementwise(lambda x: x + 0j, w)), finish(v)

def sort_order(xs):
    """Stable insertion order by symbolic comparison (forks)."""
    order = []
    for i, x in enumerate(xs):
        k = len(order)
        while k > 0 and bool(x < xs[order[k - 1]]):
            k -= 1
        order.insert(k, i)
    return order

def argsort(a, axis=-1, **kw):
    a = plain(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=int)
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = sort_order(b[i].tolist())
    return np.moveaxis(out, -1, axis)

def sort(a, axis=-1, **kw):
    a = plain(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        out[i] = b[i][sort_order(b[i].tolist())]
    return finish(np.moveaxis(out, -1, axis))

def argmin(a, axis=None, **kw):
    a = plain(a)
    if axis is None:
        xs = a.ravel().tolist()
        k = 0
        for i in range(1, len(xs)):
            if xs[i] < xs[k]:
                k = i
        return k
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for i in np.ndindex(*out.shape):
        out[i] = argmin(b[i])
    return out if out.ndim else int(out)

def dft(a, axes=None, sign=-1, normalize=False, shape=None):
    a = plain(a)
    if axes is None:
        axes = range(a.ndim)
    for ax in axes:
        ax = ax % a.ndim
        n = a.shape[ax]
        W = np.exp(sign * 2j * np.pi * np.outer(np.arange(n), np.arange(n))
            / n)
        if normalize:
            W = W / n
        b = np.moveaxis(a, ax, 0)
        s = b.shape
        c = _mm(W.astype(object), b.reshape((n, -1)))
        a = np.moveaxis(c.reshape(s), 0, ax)
    return finish(a)

# ---------------------------------------------------------------------------
# NumPy functions on symbolic arrays

def h_where(cond, *xy):
    if not xy:
        return mask(cond).nonzero() if isinstance(cond, np.ndarray) \
            else np.where(cond)
    x, y = xy
    c = plain(cond) if is_sym(cond) else np.asarray(cond)
    x = plain(x)
    y = plain(y)
    shape = np.broadcast_shapes(c.shape, x.shape, y.shape)
    c = np.broadcast_to(c, shape)
    x = np.broadcast_to(x, shape)
    y = np.broadcast_to(y, shape)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        u, v = x[i], y[i]
        if u is v or (not isinstance(u, Sym) and not isinstance(v, Sym)
                and u == v):
            out[i] = u
        else:
            out[i] = u if bool(c[i]) else v
    return finish(out)

def h_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    def f(x, y):
        return _tobool(core.absolute(x - y) <= atol + rtol * core.absolute(y))
    return finish(elementwise(f, a, b), True)

def h_allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    r = h_isclose(a, b, rtol, atol)
    return np.all(r)

def h_average(a, axis=None, weights=None, returned=False, **kw):
    a = symarray(a, copy=False)
    if weights is None:
        return a.mean(axis=axis)
    w = symarray(weights, copy=False)
    if axis is not None and w.ndim != a.ndim:
        s = [1] * a.ndim
        s[axis] = -1
        w = w.reshape(s)
    w = np.broadcast_to(w, a.shape)
    return (a * w).sum(axis=axis) / w.sum(axis=axis)

def h_prod(a, axis=None, dtype=None, **kw):
    return reduce('multiply', np.multiply, a, axis=axis)

def h_cross(a, b, **kw):
    a, b = plain(a), plain(b)
    out = np.empty(np.broadcast_shapes(a.shape, b.shape), dtype=object)
    m = BINARY['multiply']
    s = BINARY['subtract']
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        out[..., i] = elementwise(s, elementwise(m, a[..., j], b[..., k]),
            elementwise(m, a[..., k], b[..., j]))
    return finish(out)

def h_outer(a, b, out=None):
    a = plain(a).ravel()
    b = plain(b).ravel()
    return finish(elementwise(BINARY['multiply'], a[:, np.newaxis], b))

def h_iscomplexobj(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        for x in a.view(np.ndarray).ravel().tolist():
            if isinstance(x, complex):
                return True
            if isinstance(x, Sym) and not core.is_plain_real(x):
                return True
        return False
    if isinstance(a, Sym):
        return not core.is_plain_real(a)
    return np.iscomplexobj(a)

def h_linalg_solve(a, b):
    return matmul(linv(a), b)

def h_tensordot(a, b, axes=2):
    a, b = plain(a), plain(b)
    if isinstance(axes, int):
        ax = list(range(a.ndim - axes, a.ndim))
        bx = list(range(axes))
    else:
        ax, bx = axes
        ax = [ax] if isinstance(ax, int) else list(ax)
        bx = [bx] if isinstance(bx, int) else list(bx)
    ax = [x % a.ndim for x in ax]
    bx = [x % b.ndim for x in bx]
    ra = [i for i in range(a.ndim) if i not in ax]
    rb = [i for i in range(b.ndim) if i not in bx]
    n = int(np.prod([a.shape[i] for i in ax]))
    A = a.transpose(ra + ax).reshape((-1, n))
    B = b.transpose(bx + rb).reshape((n, -1))
    shape = [a.shape[i] for i in ra] + [b.shape[i] for i in rb]
    out = _mm(A, B).reshape(shape)
    return finish(np.asarray(out, dtype=object))

def h_interp(x, xp, fp, *a, **k):
    raise Unsupported('np.interp')

def h_real(a):
    if isinstance(a, np.ndarray):
        return a.real
    return core.real(a)

def h_imag(a):
    if isinstance(a, np.ndarray):
        return a.imag
    return core.imag(a)

def h_round(a, decimals=0, out=None):
    return finish(elementwise(lambda x: rnd(x, decimals), a))

def h_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
        axis=0):
    n = num - 1 if endpoint else num
    a = plain(start)
    b = plain(stop)
    step = elementwise(lambda x, y: (y - x) * (1.0 / n) if n else 0.0, a, b)
    out = []
    for i in range(num):
        out.append(elementwise(lambda x, s: x + s * i, a, step))
    return symarray(out)

def h_array_equal(a, b, **kw):
    a, b = plain(a), plain(b)
    if a.shape != b.shape:
        return False
    return reduce('logical_and', np.logical_and,
        elementwise(BINARY['equal'], a, b), axis=None)

def h_diff(a, n=1, axis=-1, **kw):
    a = symarray(a, copy=False)
    for _ in range(n):
        b = np.moveaxis(a, axis, 0)
        a = np.moveaxis(b[1:] - b[:-1], 0, axis)
    return a

def h_unique(a, return_index=False, return_inverse=False, return_counts=False,
        **kw):
    xs = plain(a).ravel().tolist()
    order = sort_order(xs)
    out = []
    first = []
    inverse = [0] * len(xs)
    counts = []
    for i in order:
        if not out or bool(xs[i] != out[-1]):
            out.append(xs[i])
            first.append(i)
            counts.append(0)
        inverse[i] = len(out) - 1
        counts[-1] += 1
    r = [symarray(out)]
    if return_index: r.append(np.array(first))
    if return_inverse: r.append(np.array(inverse))
    if return_counts: r.append(np.array(counts))
    return r[0] if len(r) == 1 else tuple(r)

def h_searchsorted(a, v, side='left', **kw):
    xs = plain(a).tolist()

    def f(x):
        k = 0
        while k < len(xs) and bool(xs[k] < x if side == 'left'
                else xs[k] <= x):
            k += 1
        return k
    out = elementwise(f, v)
    if out.ndim == 0:
        return int(out[()])
    return out.astype(int)

def h_ptp(a, axis=None, **kw):
    return symarray(a).max(axis=axis) - symarray(a).min(axis=axis)

def h_nan_to_num(a, **kw):
    return a

def h_clip(a, lo, hi, **kw):
    return np.minimum(np.maximum(a, lo), hi)

def h_trapz(y, x=None, dx=1.0, axis=-1):
    y = symarray(y)
    d = dx if x is None else h_diff(symarray(x))
    return (d * (y[..., 1:] + y[..., :-1]) / 2).sum(axis=axis)

def h_kron(a, b):
    a, b = plain(a), plain(b)
    out = np.empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]),
        dtype=object)
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            out[i * b.shape[0]:(i + 1) * b.shape[0],
                j * b.shape[1]:(j + 1) * b.shape[1]] = elementwise(
                BINARY['multiply'], a[i, j], b)
    return finish(out)

HANDLERS = {
    np.where: h_where,
    np.nonzero: lambda a: mask(a).nonzero(),
    np.argwhere: lambda a: np.argwhere(mask(a)),
    np.count_nonzero: lambda a, axis=None, **k: np.count_nonzero(mask(a),
        axis=axis),
    np.flatnonzero: lambda a: np.flatnonzero(mask(a)),
    np.isclose: h_isclose,
    np.allclose: h_allclose,
    np.array_equal: h_array_equal,
    np.einsum: einsum,
    np.dot: dot,
    np.vdot: lambda a, b: dot(finish(elementwise(UNARY['conjugate'], a)).ravel(),
        plain(b).ravel()),
    np.inner: lambda a, b: einsum('...i,...i->...', a, b),
    np.tensordot: h_tensordot,
    np.outer: h_outer,
    np.kron: h_kron,
    np.sum: lambda a, axis=None, dtype=None, out=None, keepdims=False, **k:
        reduce('add', np.add, a, axis=axis, keepdims=keepdims),
    np.prod: h_prod,
    np.any: lambda a, axis=None, **k: reduce('logical_or', np.logical_or, a,
        axis=axis),
    np.all: lambda a, axis=None, **k: reduce('logical_and', np.logical_and, a,
        axis=axis),
    np.max: lambda a, axis=None, out=None, **k: reduce('maximum', np.maximum,
        a, axis=axis),
    np.min: lambda a, axis=None, out=None, **k: reduce('minimum', np.minimum,
        a, axis=axis),
    np.mean: lambda a, axis=None, **k: symarray(a, copy=False).mean(axis=axis),
    np.average: h_average,
    np.std: lambda a, axis=None, **k: symarray(a).std(axis=axis),
    np.cumsum: lambda a, axis=None, **k: symarray(a).cumsum(axis),
    np.trace: lambda a, *args, **k: symarray(a, copy=False).trace(*args, **k),
    np.real: h_real,
    np.imag: h_imag,
    np.round: h_round,
    np.around: h_round,
    np.iscomplexobj: h_iscomplexobj,
    np.isrealobj: lambda a: not h_iscomplexobj(a),
    np.cross: h_cross,
    np.linalg.cross: h_cross,
    np.linalg.det: det,
    np.linalg.inv: linv,
    np.linalg.norm: norm,
    np.linalg.eigh: eigh,
    np.linalg.eigvalsh: lambda a, *k: eigh(a)[0],
    np.linalg.eig: eig,
    np.angle: h_angle,
    np.linalg.eigvals: lambda a: eig(a)[0],
    np.linalg.solve: h_linalg_solve,
    np.sort: sort,
    np.argsort: argsort,
    np.argmin: argmin,
    np.argmax: lambda a, axis=None, **k: argmin(-symarray(a), axis),
    np.ptp: h_ptp,
    np.diff: h_diff,
    np.unique: h_unique,
    np.searchsorted: h_searchsorted,
    np.interp: h_interp,
    np.linspace: h_linspace,
    np.nan_to_num: h_nan_to_num,
    np.clip: h_clip,
    np.trapezoid: h_trapz,
    np.fft.fft: lambda a, n=None, axis=-1, **k: dft(a, [axis], -1),
    np.fft.ifft: lambda a, n=None, axis=-1, **k: dft(a, [axis], 1, True),
    np.fft.fftn: lambda a, s=None, axes=None, **k: dft(a, axes, -1),
    np.fft.ifftn: lambda a, s=None, axes=None, **k: dft(a, axes, 1, True),
    np.fft.fft2: lambda a, s=None, axes=(-2, -1), **k: dft(a, axes, -1),
    np.fft.ifft2: lambda a, s=None, axes=(-2, -1), **k: dft(a, axes, 1, True),
}

for _n in ('amax', 'amin'):
    HANDLERS[getattr(np, _n)] = HANDLERS[np.max if _n == 'amax' else np.min]

STRUCTURAL = {np.reshape, np.ravel, np.transpose, np.swapaxes, np.moveaxis,
    np.rollaxis, np.roll, np.tile, np.repeat, np.concatenate, np.stack,
    np.vstack, np.hstack, np.dstack, np.column_stack, np.split,
    np.array_split, np.expand_dims, np.squeeze, np.flip, np.fliplr, np.flipud,
    np.diagonal, np.diag, np.diagflat, np.delete, np.insert, np.append,
    np.take, np.take_along_axis, np.choose, np.broadcast_to,
    np.broadcast_arrays, np.copy, np.copyto, np.atleast_1d, np.atleast_2d,
    np.atleast_3d, np.ix_, np.meshgrid, np.rot90, np.triu, np.tril, np.block,
    np.shape, np.size, np.ndim, np.put, np.may_share_memory,
    np.shares_memory, np.compress, np.extract, np.pad, np.resize,
    np.fill_diagonal, np.put_along_axis, np.fft.fftshift, np.fft.ifftshift}

DISPATCH_NATIVE = {np.linalg.norm, np.linalg.det, np.linalg.inv, np.cross,
    np.linalg.eigh, np.linalg.eigvalsh, np.linalg.eig, np.linalg.eigvals,
    np.linalg.solve, np.interp,
    np.searchsorted, np.unique, np.linspace, np.round, np.around}

def to_plain_deep(x):
    if is_sym(x):
        return x.view(np.ndarray)
    if isinstance(x, (Sym, SymBool)):
        return plain(x)
    if isinstance(x, np.ndarray) and x.dtype.kind in 'fc':
        return x
    if isinstance(x, list):
        return [to_plain_deep(y) for y in x]
    if type(x) is tuple:
        return tuple(to_plain_deep(y) for y in x)
    return x

LIKE = {}

def dispatch(func, args, kwargs):
    if func in LIKE:
        return LIKE[func](*args, **kwargs)
    if func in STRUCTURAL:
        if func in (np.shape, np.size, np.ndim):
            return func(*to_plain_deep(args), **kwargs)
        if func is np.copyto:
            args[0][...] = args[1]
            return
        if func is np.fill_diagonal:
            a, v = args[:2]
            for i in range(min(a.shape)):
                a[(i,) * a.ndim] = v
            return
        if func in (np.reshape, np.ravel) and not kwargs:
            pass
        r = func(*to_plain_deep(args), **to_plain_deep_dict(kwargs))
        return view_deep(r)
    sym = has_sym(args) or has_sym(list(kwargs.values()))
    if func in HANDLERS and (sym or func not in DISPATCH_NATIVE):
        try:
            return HANDLERS[func](*args, **kwargs)
        except (TypeError,) as e:
            if sym:
                raise
    if sym:
        # last resort: NumPy's own implementation on object arrays
        try:
            r = func(*to_plain_deep(args), **to_plain_deep_dict(kwargs))
        except (TypeError, AttributeError, ValueError) as e:
            raise Unsupported('np.%s: %s' % (func.__name__, e))
        return view_deep(r)
    return wrap(func(*native_deep(args), **{k: native_deep(v)
        for k, v in kwargs.items()}))

def to_plain_deep_dict(d):
    return {k: to_plain_deep(v) for k, v in d.items()}

def view_deep(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return r.view(SymArray)
        return wrap(r)
    if isinstance(r, list):
        return [view_deep(x) for x in r]
    if type(r) is tuple:
        return tuple(view_deep(x) for x in r)
    return r

# ---------------------------------------------------------------------------
# the stand-in module

def _is_float_dtype(dtype):
    if dtype is None:
        return True
    return np.dtype(dtype).kind in 'fcO'

def _full(shape, value):
    out = np.empty(shape, dtype=object)
    if out.ndim == 0:
        out[()] = value
    else:
        out.fill(value)
    return out.view(SymArray)

def _zero(dtype):
    return 0.0

class NumPyProxy(types.ModuleType):
    """Module object handed to the code under test in place of NumPy."""

    def __init__(self, module=np, name='numpy'):
        super().__init__(name)
        self.__dict__['_m'] = module
        self.__dict__['_cache'] = {}

    def __getattr__(self, name):
        cache = self.__dict__['_cache']
        if name in cache:
            return cache[name]
        m = self.__dict__['_m']
        x = getattr(m, name)
        over = OVERRIDES.get((m.__name__, name))
        if over is not None:
            r = over
        elif isinstance(x, types.ModuleType):
            r = NumPyProxy(x, x.__name__)
        elif isinstance(x, np.ufunc):
            r = UfuncProxy(x)
        elif isinstance(x, type):
            r = x
        elif callable(x):
            r = FuncProxy(x)
        else:
            r = x
        cache[name] = r
        return r

def lift(x):
    """Symbolic scalars and lists with symbolic content to arrays."""
    if isinstance(x, (Sym, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SymArray)
    if isinstance(x, np.ndarray):
        if type(x) is np.ndarray and x.dtype == object:
            return x.view(SymArray)
        return x
    if isinstance(x, (list, tuple)) and has_obj(x):
        return symarray(x)
    return x

class UfuncProxy:
    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *args, **kwargs):
        r = self.u(*[lift(a) for a in args], **kwargs)
        return wrap(exact(self.__name__, r))

    def _meth(self, name, args, kwargs):
        return wrap(getattr(self.u, name)(*[lift(a) for a in args], **kwargs))

    def reduce(self, *a, **k):
        if 'axis' not in k and len(a) == 1:
            k['axis'] = 0
        return self._meth('reduce', a, k)

    def outer(self, *a, **k):
        return self._meth('outer', a, k)

    def at(self, *a, **k):
        return self.u.at(*a, **k)

    def accumulate(self, *a, **k):
        return self._meth('accumulate', a, k)

    def __getattr__(self, name):
        return getattr(self.u, name)

KEEP_LISTS = {np.concatenate, np.stack, np.vstack, np.hstack, np.dstack,
    np.column_stack, np.block, np.ix_, np.meshgrid, np.broadcast_arrays,
    np.einsum}

class FuncProxy:
    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, '__name__', str(f))

    def __call__(self, *args, **kwargs):
        f = self.f
        if f in KEEP_LISTS:
            args = [[lift(y) for y in x] if isinstance(x, (list, tuple))
                and not isinstance(x, str) and has_obj(x) else lift(x)
                for x in args]
        else:
            args = [lift(a) for a in args]
        kwargs = {k: lift(v) if k not in ('axis', 'axes', 'shape', 'dtype')
            else v for k, v in kwargs.items()}
        return wrap(f(*args, **kwargs))

def o_empty(shape, dtype=float, order='C', **kw):
    if _is_float_dtype(dtype):
        a = np.empty(shape, dtype=object)
        fill_uninit(a)
        return a.view(SymArray)
    if INT_OBJECT[0] and np.dtype(dtype).kind == 'i':
        a = np.empty(shape, dtype=object)
        a.fill(core.intvar('uninitialized#%d' % next(_uninit), -10 ** 6,
            10 ** 6))
        return a.view(SymArray)
    return poison_int(np.empty(shape, dtype=dtype))

def o_zeros(shape, dtype=float, order='C', **kw):
    if _is_float_dtype(dtype):
        return _full(shape, 0.0)
    if INT_OBJECT[0] and np.dtype(dtype).kind == 'i':
        return _full(shape, 0)
    return np.zeros(shape, dtype=dtype)

def o_ones(shape, dtype=float, order='C', **kw):
    if _is_float_dtype(dtype):
        return _full(shape, 1.0)
    return np.ones(shape, dtype=dtype)

def o_full(shape, fill_value, dtype=None, **kw):
    if isinstance(fill_value, (Sym, float, complex)) or (dtype is not None
            and _is_float_dtype(dtype)):
        return _full(shape, fill_value)
    return np.full(shape, fill_value, dtype=dtype)

def _like_dtype(a, dtype):
    if dtype is not None:
        return dtype
    if is_sym(a):
        return float
    if isinstance(a, np.ndarray):
        return a.dtype
    if isinstance(a, (Sym, float, complex)) or has_sym(a):
        return float
    return np.asarray(a).dtype

def _like_shape(a, shape):
    if shape is not None:
        return shape
    return a.shape if isinstance(a, np.ndarray) else _shape(a)

def o_empty_like(a, dtype=None, order='K', subok=True, shape=None, **kw):
    return o_empty(_like_shape(a, shape), _like_dtype(a, dtype))

def o_zeros_like(a, dtype=None, order='K', subok=True, shape=None, **kw):
    return o_zeros(_like_shape(a, shape), _like_dtype(a, dtype))

def o_ones_like(a, dtype=None, order='K', subok=True, shape=None, **kw):
    return o_ones(_like_shape(a, shape), _like_dtype(a, dtype))

def o_full_like(a, v, dtype=None, order='K', subok=True, shape=None, **kw):
    return o_full(_like_shape(a, shape), v, _like_dtype(a, dtype))

LIKE[np.empty_like] = o_empty_like
LIKE[np.zeros_like] = o_zeros_like
LIKE[np.ones_like] = o_ones_like
LIKE[np.full_like] = o_full_like

def o_array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, **kw):
    if isinstance(obj, (map, zip, filter)):
        obj = list(obj)   # as in NumPy: 0-d object array, but never intended
    if dtype is not None and np.dtype(dtype).kind in 'iub':
        if has_obj(obj):
            if has_sym(obj):
                a = plain(obj if isinstance(obj, np.ndarray)
                    else symarray(obj))
                if np.dtype(dtype).kind == 'b':
                    return mask(a)
                return np.array([int(x) for x in a.ravel()]).reshape(a.shape)
            return native(plain(obj)).astype(dtype)
        return np.array(obj, dtype=dtype, ndmin=ndmin)
    if has_obj(obj):
        if isinstance(obj, (Sym, SymBool)):
            a = lift(obj)
        else:
            a = symarray(obj, copy=copy is not False)
    else:
        try:
            b = np.array(obj, dtype=dtype, copy=copy if copy is not False
                else None, ndmin=ndmin)
        except TypeError:
            raise
        a = wrap(b)
    while a.ndim < ndmin:
        a = a[np.newaxis]
    return a

def o_asarray(obj, dtype=None, order=None, **kw):
    if isinstance(obj, np.ndarray) and (dtype is None or isinstance(obj,
            SymArray) and _is_float_dtype(dtype)):
        return wrap(obj)
    return o_array(obj, dtype=dtype, copy=False)

def o_iscomplexobj(a):
    return h_iscomplexobj(a)

def o_isrealobj(a):
    return not h_iscomplexobj(a)

def o_eye(*args, **kwargs):
    if _is_float_dtype(kwargs.get('dtype', float)):
        return wrap(np.eye(*args, **kwargs))
    return np.eye(*args, **kwargs)

def o_isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)

def o_ascontiguousarray(a, dtype=None, **kw):
    return o_asarray(a, dtype)

def o_fromfile(f, dtype=float, count=-1, **kw):
    from symx import fileio
    return fileio.fromfile(f, dtype, count)

def o_nditer(a, flags=(), **kw):
    return NdIter(a, flags)

class NdIter:
    def __init__(self, a, flags):
        self.a = a
        self.it = np.ndindex(*np.shape(a))
        self.multi_index = None

    def __iter__(self):
        return self

    def __next__(self):
        i = next(self.it)
        self.multi_index = i
        return self.a[i] if i or isinstance(self.a, np.ndarray) else self.a

def o_float(x=0.0):
    if isinstance(x, Sym):
        return x
    if isinstance(x, np.ndarray) and has_sym(x):
        if x.size != 1:
            raise TypeError('only length-1 arrays can be converted')
        return x.reshape(-1)[0]
    return np.float64(x)

def o_random_guard(name):
    def f(*a, **k):
        raise Unsupported('np.random.%s' % name)
    return f

def o_matrix_transpose(a):
    return a.swapaxes(-2, -1)

def o_vectorize(f, *args, **kwargs):
    def g(*xs):
        signature = kwargs.get('signature')
        if signature is None or signature.rstrip().endswith('()'):
            return finish(elementwise(f, *xs))
        xs = np.broadcast_arrays(*[plain(x) if isinstance(x, np.ndarray)
            else np.asarray(x, dtype=object) for x in xs])
        out = [f(*[x[i] for x in xs]) for i in np.ndindex(*xs[0].shape)]
        r = o_array([plain(o) if isinstance(o, np.ndarray) else o
            for o in out])
        return r.reshape(xs[0].shape + r.shape[1:])
    return g

def o_fromiter(it, dtype=float, count=-1, **kw):
    return o_array(list(it), dtype=dtype)

def _fileio():
    from symx import fileio
    return fileio

OVERRIDES = {
    ('numpy', 'ndarray'): SymArray,
    ('numpy', 'empty'): o_empty,
    ('numpy', 'zeros'): o_zeros,
    ('numpy', 'ones'): o_ones,
    ('numpy', 'full'): o_full,
    ('numpy', 'empty_like'): o_empty_like,
    ('numpy', 'zeros_like'): o_zeros_like,
    ('numpy', 'ones_like'): o_ones_like,
    ('numpy', 'full_like'): o_full_like,
    ('numpy', 'array'): o_array,
    ('numpy', 'asarray'): o_asarray,
    ('numpy', 'asanyarray'): o_asarray,
    ('numpy', 'ascontiguousarray'): o_ascontiguousarray,
    ('numpy', 'copy'): lambda a, **k: o_array(a),
    ('numpy', 'eye'): o_eye,
    ('numpy', 'identity'): o_eye,
    ('numpy', 'iscomplexobj'): o_iscomplexobj,
    ('numpy', 'isrealobj'): o_isrealobj,
    ('numpy', 'isscalar'): o_isscalar,
    ('numpy', 'fromfile'): o_fromfile,
    ('numpy', 'save'): lambda *a, **k: _fileio().save(*a, **k),
    ('numpy', 'load'): lambda *a, **k: _fileio().load(*a, **k),
    ('numpy', 'savetxt'): lambda *a, **k: _fileio().savetxt(*a, **k),
    ('numpy', 'loadtxt'): lambda *a, **k: _fileio().loadtxt(*a, **k),
    ('numpy', 'nditer'): o_nditer,
    ('numpy', 'float64'): o_float,
    ('numpy', 'vectorize'): o_vectorize,
    ('numpy', 'fromiter'): o_fromiter,
    ('numpy', 'mgrid'): np.mgrid,
    ('numpy', 'ogrid'): np.ogrid,
    ('numpy', 'newaxis'): None,
}
del OVERRIDES['numpy', 'newaxis']
