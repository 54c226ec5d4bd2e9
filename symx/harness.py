"""Harness registry and the two execution contexts.

The same harness function runs symbolically (inputs are solver variables) and
concretely (inputs are the values of a solver model, the package is imported
unchanged).  `ctx.eq`, `ctx.true` are the obligations.
"""

import contextlib
import hashlib
import math
import os
import random
import shutil
import sys
import tempfile

HARNESSES = {}

# which processes share memory
NODES = {
    2: [[0, 0], [0, 1]],
    3: [[0, 0, 0], [0, 0, 1], [0, 1, 0]],
    4: [[0, 0, 0, 0], [0, 1, 0, 1]],
}

def plain_number(x):
    """Is this a number that arrays may be compared with entry by entry?"""
    return isinstance(x, (int, float, complex))

class Harness:
    def __init__(self, fn, bounds, tiers, budget, max_paths, mpi, doc,
            fixed=None, points=2):
        self.fn = fn
        self.name = fn.__name__
        self.bounds = bounds
        self.tiers = tiers
        self.budget = budget
        self.max_paths = max_paths
        self.mpi = mpi
        self.doc = doc
        self.points = points

def harness(bounds, tiers=('quick', 'thorough'), budget=100, max_paths=3000,
        mpi=False, points=2):
    def deco(fn):
        HARNESSES[fn.__name__] = Harness(fn, bounds, tiers, budget, max_paths,
            mpi, (fn.__doc__ or '').strip(), points=points)
        return fn
    return deco

class AssumeFailed(Exception):
    pass

def generic_value(name, lo, hi, isint, salt=0):
    """Reproducible pseudo-random value in the box."""
    h = hashlib.sha256(('%s/%s' % (name, salt)).encode()).digest()
    u = int.from_bytes(h[:7], 'big') / 2.0 ** 56
    if isint:
        return int(lo + math.floor(u * (hi - lo + 1)))
    return lo + (0.03 + 0.94 * u) * (hi - lo)

def is_number(x):
    """Not text or the like, which might be returned in place of a number."""
    return not (x is None or isinstance(x, (str, bytes, list, tuple, dict)))

class Base:
    """API shared by both modes."""

    def __init__(self):
        self._dir = None

    def scratch(self, name='x'):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix='verif_')
            self._dirs(self._dir)
        return os.path.join(self._dir, name)

    def _dirs(self, d):
        pass

    def cleanup(self):
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    def reals(self, name, shape, lo=-1.0, hi=1.0):
        import numpy as np
        out = self.empty(shape)
        for i in np.ndindex(*out.shape):
            out[i] = self.real('%s%s' % (name, '_'.join(map(str, i))), lo, hi)
        return out

    def cplx(self, name, mag=1.0):
        return self.real(name + 'r', -mag, mag) \
            + 1j * self.real(name + 'i', -mag, mag)

    def cplxs(self, name, shape, mag=1.0):
        import numpy as np
        out = self.empty(shape, complex)
        for i in np.ndindex(*out.shape):
            out[i] = self.cplx('%s%s' % (name, '_'.join(map(str, i))), mag)
        return out

    def hermitian(self, name, n, mag=1.0):
        out = self.empty((n, n), complex)
        for i in range(n):
            out[i, i] = self.real('%s%d_%d' % (name, i, i), -mag, mag) + 0j
            for j in range(i):
                z = self.cplx('%s%d_%d' % (name, i, j), mag)
                out[i, j] = z
                out[j, i] = z.conjugate()
        return out

    def ints(self, name, shape, lo, hi):
        import numpy as np
        out = self.iempty(shape)
        for i in np.ndindex(*np.shape(out)):
            out[i] = self.int('%s%s' % (name, '_'.join(map(str, i))), lo, hi)
        return out

    def angle(self, name):
        return self.real(name, -math.pi, math.pi)

class Concrete(Base):
    mode = 'concrete'

    def __init__(self, values, package, np, info):
        super().__init__()
        self.values = values
        self.e = package
        self.np = np
        self.checks = []
        self.info = info
        self.used = {}
        self.salt = values.get('#salt', 0)

    def empty(self, shape, dtype=float):
        import numpy as np
        return np.zeros(shape, dtype=dtype)

    def iempty(self, shape):
        import numpy as np
        return np.zeros(shape, dtype=int)

    def _value(self, name, lo, hi, isint):
        if name in self.values:
            v = self.values[name]
        else:
            v = generic_value(name, lo, hi, isint, self.salt)
        self.used[name] = v
        return v

    def real(self, name, lo=-1.0, hi=1.0):
        return float(self._value(name, lo, hi, False))

    def int(self, name, lo, hi):
        return int(self._value(name, lo, hi, True))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int('%s/%d' % (name, len(options)), 0,
            len(options) - 1)]

    def assume(self, cond):
        if not cond:
            raise AssumeFailed()

    def value(self, x):
        return x

    def format(self, fmt, x):
        return fmt % x

    def parse(self, s):
        return float(s)

    def eq(self, a, b, label, tol=1e-8):
        import numpy as np
        number = b
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            try:
                ok = np.broadcast_shapes(a.shape, b.shape) == a.shape
                ok = ok and plain_number(number) and a.size > 0
            except ValueError:
                ok = False
            if not ok:
                self.checks.append((label, False, 'shape %s != %s'
                    % (a.shape, b.shape), []))
                return
        if any(x.dtype.kind not in 'biufc' and not all(is_number(y)
                for y in x.ravel()) for x in (a, b)):
            self.checks.append((label, False, 'not a number', []))
            return
        d = np.abs(a - b)
        m = float(d.max()) if d.size else 0.0
        ok = bool(m <= tol)     # NaN fails
        flat = np.broadcast_to(a, d.shape).ravel()[:200]
        self.checks.append((label, ok, 'deviation %.3g (tolerance %.1g)'
            % (m, tol), [[float(x.real), float(x.imag)] for x in flat]))

    def true(self, cond, label, detail=''):
        import numpy as np
        self.checks.append((label, bool(np.all(cond)), str(detail), []))

    def fails(self, fn, label, exceptions=(Exception, SystemExit)):
        """Obligation: the call is rejected."""
        try:
            fn()
        except exceptions:
            self.checks.append((label, True, '', []))
            return True
        self.checks.append((label, False, 'accepted', []))
        return False

    def derivative(self, fn, x, h=2e-3):
        """Derivative of fn at the input x (here: sixth-order differences)."""
        import numpy as np
        f = lambda n: np.asarray(fn(x + n * h))
        return (0.75 * (f(1) - f(-1)) - 0.15 * (f(2) - f(-2))
            + (f(3) - f(-3)) / 60) / h

    @contextlib.contextmanager
    def finite(self, label):
        """Obligation: no overflow or undefined number within block."""
        import numpy as np
        ok = True
        try:
            with np.errstate(over='raise', invalid='raise', divide='raise'):
                yield
        except (FloatingPointError, OverflowError, ZeroDivisionError):
            ok = False
        self.checks.append((label, ok, 'overflow', []))

    def exits(self, fn):
        try:
            fn()
        except SystemExit:
            return True
        return False

    # integer term that may stay symbolic
    def concrete(self, x):
        return x

    def symbolic_ints(self):
        pass

    def mpi(self, size, fn, shared=True):
        schedule = self.choice('schedule', [0, 1])
        nodes = self.choice('nodes', NODES.get(size, [[0] * size]))
        return self.info['mpi'](self, size, fn, shared, schedule, nodes)

BOXES = {}

class Symbolic(Base):
    mode = 'symbolic'

    def __init__(self, package, np):
        super().__init__()
        self.e = package
        self.np = np
        self.obligations = []      # (label, a, b, tol) or (label, cond)
        self.inputs = {}

    def _dirs(self, d):
        from symx import fileio
        fileio.SANDBOX[0] = d

    def empty(self, shape, dtype=float):
        from symx import arr
        return arr.o_zeros(shape)

    def iempty(self, shape):
        import numpy as np
        from symx import arr
        return np.zeros(shape, dtype=object).view(arr.SymArray)

    def declare(self, name, box):
        # one name, one box (on all paths)
        if BOXES.setdefault(name, box) != box:
            raise ValueError('input %s declared with different bounds' % name)
        self.inputs[name] = box

    def format(self, fmt, x):
        from symx import fileio
        return fileio.percent(fmt, x)

    def parse(self, s):
        from symx import loader
        return loader.b_float(s)

    def real(self, name, lo=-1.0, hi=1.0):
        from symx import core
        self.declare(name, (lo, hi, False))
        return core.var(name, lo, hi)

    def int(self, name, lo, hi):
        from symx import core
        self.declare(name, (lo, hi, True))
        return core.intvar(name, lo, hi)

    def choice(self, name, options):
        from symx import core
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[core.ENGINE.concretize(self.int('%s/%d' % (name,
            len(options)), 0, len(options) - 1))]

    def concrete(self, x):
        from symx import core
        return core.ENGINE.concretize(x)

    def assume(self, cond):
        from symx import core, arr
        import numpy as np
        if isinstance(cond, np.ndarray):
            for c in cond.ravel():
                self.assume(c)
            return
        core.ENGINE.assume(cond)

    def eq(self, a, b, label, tol=1e-8):
        from symx import arr
        import numpy as np
        try:
            A = arr.plain(a)
            B = arr.plain(b)
            if np.broadcast_shapes(A.shape, B.shape) != A.shape:
                raise ValueError
            if A.shape != B.shape and not (plain_number(b) and A.size):
                raise ValueError
        except ValueError:
            self.obligations.append((label, False))
            return
        B = np.broadcast_to(B, A.shape)
        if not all(is_number(y) for x in (A, B) for y in x.ravel().tolist()):
            self.obligations.append((label, False))
            return
        self.obligations.append((label, A.ravel().tolist(),
            B.ravel().tolist(), tol))

    def true(self, cond, label, detail=''):
        from symx import arr, core
        import numpy as np
        if isinstance(cond, np.ndarray):
            cond = core.s_and(*[arr._tobool(c) for c in cond.ravel()])
        self.obligations.append((label, arr._tobool(cond)))

    def fails(self, fn, label, exceptions=(Exception,)):
        from symx.core import Unsupported
        try:
            fn()
        except Unsupported:
            raise
        except exceptions:
            self.obligations.append((label, True))
            return True
        self.obligations.append((label, False))
        return False

    def derivative(self, fn, x, h=None):
        from symx import core, arr
        (m, c), = x.t.items()
        name = core.SPACE.atoms[m[0][0]].name
        assert len(m) == 1 and c == 1
        y = arr.plain(fn(x))
        cache = {}
        out = [core.diff(v, name, cache) for v in y.ravel().tolist()]
        return arr.symarray(out).reshape(y.shape) if y.shape else out[0]

    @contextlib.contextmanager
    def finite(self, label):
        from symx import core
        core.WATCH = []
        try:
            yield
        finally:
            found, core.WATCH = core.WATCH, None
        self.obligations.append((label, core.s_and(*[core.s_and(
            core.compare('<=', x, core.HUGE), core.compare('>=', x,
            -core.HUGE)) for x in found]) if found else True))

    def exits(self, fn):
        from symx.loader import Exit
        try:
            fn()
        except Exit:
            return True
        return False

    def symbolic_ints(self):
        from symx import arr
        arr.INT_OBJECT[0] = True

    def mpi(self, size, fn, shared=True):
        """Results of a serial run and of all ranks of a parallel run."""
        from symx import loader, mpi
        ref = fn(self.e, 0)
        order = list(range(size))
        if self.choice('schedule', [0, 1]):
            order = order[::-1]
        nodes = self.choice('nodes', NODES.get(size, [[0] * size]))
        world = mpi.World(size, order, shared, nodes)
        loaders = [None] * size
        world.group = mpi.Group(world, list(range(size)))

        def body(rank):
            l = loader.Loader(mpi=mpi.interface(world, rank))
            return fn(l.get('elphmod'), rank)

        return ref, world.run(body)
