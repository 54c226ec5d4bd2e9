"""Symbolic formatted and binary input/output.

A formatted symbolic number becomes a private-use character in a field of the
proper width; parsing it yields the number plus a fresh bounded rounding error
(exact consequences of the format's precision).  Whether the digits fill the
field completely (so that no blank separates it from the previous field) is
decided by the solver like every other branch.
"""

import builtins
import io
import math
import os
import re
import struct
import sys
import types

import numpy as np

from symx import core
from symx.core import Sym, SymBool, Unsupported

BASE = 0xF0000          # supplementary private use area A
FILL = '\U00100000'     # continuation of a number

TOKENS = []             # (Sym, rounding bound, is integer)

def reset():
    del TOKENS[:]
    SANDBOX[:] = [None]

SANDBOX = [None]

def sandbox_open(path, *args, **kwargs):
    mode = args[0] if args else kwargs.get('mode', 'r')
    if any(c in mode for c in 'wax+'):
        root = SANDBOX[0]
        if root is None or not os.path.realpath(path).startswith(
                os.path.realpath(root) + os.sep):
            raise Unsupported('writing outside of scratch directory')
    return builtins.open(path, *args, **kwargs)

def token(value, bound, width, length, left=False):
    TOKENS.append((value, bound))
    c = chr(BASE + len(TOKENS) - 1)
    s = c + FILL * (max(1, length) - 1)
    pad = ' ' * max(0, width - len(s))
    return s + pad if left else pad + s

def parse(s):
    """Symbolic number in a string (None if there is none)."""
    t = s.strip().rstrip(FILL)
    neg = False
    if not any(ord(c) >= BASE for c in t):
        return None
    if t[0] == '+':
        t = t[1:]
    elif t[0] == '-':
        t = t[1:]
        neg = True
    if len(t) != 1 or not BASE <= ord(t) < ord(FILL):
        raise ValueError('could not convert string to float: %r' % s)
    v, bound = TOKENS[ord(t) - BASE]
    if bound:
        e = core.var('roundoff#%d' % (ord(t) - BASE), -1.0, 1.0)
        v = v + e * bound
    return -v if neg else v

def parse_int(s):
    """Symbolic integer in a string (None if there is none)."""
    r = parse(s)
    if r is None:
        return None
    # numbers are printed with decimal places (integers are concrete):
    raise ValueError('invalid literal for int() with base 10: %r' % s)

FIELD = re.compile(r'%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\d+))?'
    r'[hlL]?([diouxXeEfFgGcrsa%])')

def percent(fmt, args):
    if isinstance(args, dict):
        return fmt % args
    if not isinstance(args, tuple):
        args = (args,)
    args = list(args)
    if not any(_sym(a) for a in args):
        return fmt % tuple(_native(a) for a in args)
    out = []
    pos = 0
    for m in FIELD.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if width == '*':
            width = args.pop(0)
        if not args:
            raise TypeError('not enough arguments for format string')
        x = args.pop(0)
        if _sym(x):
            # is the previous character blank, so that a full field is fine?
            sep = bool(out) and out[-1][-1:].isspace()
            out.append(number(_scalar(x), flags, int(width or 0),
                None if prec is None else int(prec), conv, sep))
        else:
            spec = '%' + flags + (str(width) if width else '') + (
                '' if prec is None else '.' + prec) + conv
            out.append(spec % (_native(x),))
    out.append(fmt[pos:])
    if args:
        raise TypeError('not all arguments converted')
    return ''.join(out)

def _sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return isinstance(x.reshape(-1)[0], Sym)
    return False

def _scalar(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray).reshape(-1)[0]
    return x

def _native(x):
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return x.view(np.ndarray).reshape(-1)[0]
    return x

def number(x, flags, width, prec, conv, sep=False):
    if isinstance(x, SymBool):
        x = int(bool(x))
        return ('%' + flags + (str(width) if width else '') + conv) % x
    if conv in 'di':
        if not core.is_int(x):
            x = core.trunc(x)
        return ('%' + flags + (str(width) if width else '') + 'd') % int(x)
    if conv in 'sra' and core.is_int(x):
        return ('%' + flags + (str(width) if width else '') + 's') % int(x)
    if conv in 'sra':
        prec, conv, width = 16, 'g', width
    x = core.real(x)
    if not isinstance(x, Sym):
        return ('%' + flags + (str(width) if width else '') + (
            '' if prec is None else '.%d' % prec) + conv) % x
    if prec is None:
        prec = 6
    lo, hi = core.interval(x)
    big = max(abs(lo), abs(hi))
    if math.isinf(big):
        raise Unsupported('format of unbounded value')
    left = '-' in flags
    signed = '+' in flags or ' ' in flags
    if conv in 'fF':
        bound = 0.5 * 10.0 ** -prec
        # number of characters: digits before the point decide
        frac = prec + 1 if prec else 0
        room = width - frac
        length = min(max(1, room - 1), 1) + frac + (1 if signed else 0)
        if width and room > 0:
            full = None if sep else x >= 10.0 ** (room - 1) - bound
            if sep:
                length = width - 1
                if bool(x >= 10.0 ** room - bound) or bool(
                        x <= -(10.0 ** (room - 1) - bound)):
                    length = width + 1
            elif bool(full):
                if bool(x >= 10.0 ** room - bound):
                    length = width + 1
                else:
                    length = width
            elif room >= 2 and bool(x <= -(10.0 ** (room - 2) - bound)):
                if bool(x <= -(10.0 ** (room - 1) - bound)):
                    length = width + 1
                else:
                    length = width
            elif room == 1 and bool(x <= -bound):
                length = width + 1
        elif width:
            length = width + 1
        return token(x, bound, width, length, left)
    if conv in 'eE':
        digits = prec + (1 if prec else 0) + 1 + 4
        dec = math.ceil(math.log10(big)) if big > 0 else 0
        bound = 0.5 * 10.0 ** (dec - 1 - prec)
        if sep or signed or not width or width > digits + 1:
            length = digits + (1 if signed else 0)
        elif bool(x < 0):
            length = digits + 1
        else:
            length = digits
        return token(x, bound, width, length, left)
    if conv in 'gG':
        dec = math.ceil(math.log10(big)) if big > 0 else 0
        bound = 0.5 * 10.0 ** (dec - max(prec, 1)) if prec < 15 else 0.0
        length = max(1, min(width - 1, prec + 2)) if width else 2
        return token(x, bound, width, length, left)
    raise Unsupported('format %r' % conv)

SPEC = re.compile(r'(?:.?([<>=^]))?([+\- ]?)(#?)(0?)(\d+)?(?:\.(\d+))?'
    r'([a-zA-Z%]?)$')

def format_hook(x, spec):
    m = SPEC.match(spec)
    if not m:
        raise Unsupported('format %r' % spec)
    align, sign, alt, zero, width, prec, conv = m.groups()
    flags = sign + zero + ('-' if align == '<' else '')
    if not conv:
        conv = 's' if prec is None else 'g'
    return number(x, flags, int(width or 0),
        None if prec is None else int(prec), conv)

def install():
    core.FORMAT_HOOK = format_hook

# ---------------------------------------------------------------------------
# binary files

MAGIC = b'\x7fSYMX\x01\xf8\x7f'       # 8 bytes, followed by 8 bytes index

SINGLE = []

def _encode(x, kind):
    if isinstance(x, Sym):
        if kind == 'c':
            TOKENS.append((x, 0.0))
            return MAGIC + struct.pack('<q', len(TOKENS) - 1)
        TOKENS.append((core.real(x), 0.0))
        return struct.pack('<Q', 0x7ff8dead00000000 + len(TOKENS) - 1)
    if kind == 'c':
        x = complex(x)
        return struct.pack('<dd', x.real, x.imag)
    return struct.pack('<d', float(x))

def tofile(a, f):
    kind = getattr(a, '_dt', None)
    if kind is None:
        kind = 'c' if any(isinstance(x, complex) or isinstance(x, Sym)
            and not core.is_plain_real(x)
            for x in a.view(np.ndarray).ravel()) else 'f'
    data = b''.join(_encode(x, kind)
        for x in a.view(np.ndarray).ravel().tolist())
    if isinstance(f, str):
        with sandbox_open(f, 'wb') as g:
            g.write(data)
    else:
        f.write(data)

DTYPES = {'o_float': float, 'o_complex': complex, 'o_int': int}

def fromfile(f, dtype=float, count=-1):
    from symx import arr
    dt = np.dtype(DTYPES.get(getattr(dtype, '__name__', None), dtype))
    if isinstance(f, str):
        with builtins.open(f, 'rb') as g:
            return fromfile(g, dtype, count)
    n = -1 if count < 0 else int(count) * dt.itemsize
    data = f.read(n) if n != 0 else b''
    data = data[:len(data) // dt.itemsize * dt.itemsize]
    if dt.kind in 'iub':
        return np.frombuffer(data, dtype=dt).copy()
    out = []
    for i in range(0, len(data), dt.itemsize):
        chunk = data[i:i + dt.itemsize]
        if dt.kind == 'c' and chunk[:8] == MAGIC:
            out.append(TOKENS[struct.unpack('<q', chunk[8:])[0]][0])
            continue
        if dt.kind == 'f' and dt.itemsize == 8:
            u, = struct.unpack('<Q', chunk)
            if u >> 32 == 0x7ff8dead:
                out.append(TOKENS[u & 0xffffffff][0])
                continue
        if dt.kind == 'c' and dt.itemsize == 16:
            parts = []
            for k in (0, 8):
                u, = struct.unpack('<Q', chunk[k:k + 8])
                parts.append(TOKENS[u & 0xffffffff][0] if u >> 32
                    == 0x7ff8dead else struct.unpack('<d',
                    chunk[k:k + 8])[0])
            out.append(parts[0] + 1j * parts[1])
            continue
        out.append(np.frombuffer(chunk, dtype=dt)[0].item())
    return arr.symarray(out) if out else arr.o_zeros(0)

_SAVED = {}

def save(path, a):
    from symx import arr
    path = path if isinstance(path, str) else path.name
    if not path.endswith('.npy'):
        path += '.npy'
    with sandbox_open(path, 'wb') as f:
        f.write(b'SYMNPY')
    _SAVED[os.path.realpath(path)] = a.copy() if isinstance(a, np.ndarray) \
        else arr.o_array(a)

def load(path, **kw):
    from symx import arr
    key = os.path.realpath(path)
    if not os.path.exists(key):
        raise FileNotFoundError(path)
    if key in _SAVED:
        with builtins.open(key, 'rb') as f:
            if f.read(6) == b'SYMNPY':
                return _SAVED[key].copy()
    return arr.wrap(np.load(path))

def savetxt(f, X, fmt='%.18e', delimiter=' ', **kw):
    from symx import arr
    X = arr.plain(X)
    if X.ndim == 1:
        X = X[:, None]
    own = isinstance(f, str)
    g = sandbox_open(f, 'w', encoding='utf-8') if own else f
    for row in X:
        g.write(delimiter.join(percent(fmt if isinstance(fmt, str) else
            fmt[j], (x,)) for j, x in enumerate(row)) + '\n')
    if own:
        g.close()

def loadtxt(f, **kw):
    from symx import arr
    with builtins.open(f, encoding='utf-8') as g:
        rows = [l.split('#')[0].split() for l in g]
    rows = [[_fl(w) for w in r] for r in rows if r]
    if len(rows) and all(len(r) == 1 for r in rows):
        return arr.symarray([r[0] for r in rows])
    return arr.symarray(rows[0] if len(rows) == 1 else rows)

def _fl(w):
    r = parse(w)
    return float(w) if r is None else r

# ---------------------------------------------------------------------------
# pickling keeps symbolic entries by reference

class _Pickle(types.ModuleType):
    def dump(self, obj, f, *args, **kwargs):
        import copy
        TABLE.append(copy.deepcopy(obj))
        f.write(b'SYMPKL%d' % (len(TABLE) - 1))

    def dumps(self, obj, *args, **kwargs):
        return b''

    def load(self, f, *args, **kwargs):
        import copy
        s = f.read()
        return copy.deepcopy(TABLE[int(s[6:])])

TABLE = []
PICKLE = _Pickle('pickle')
