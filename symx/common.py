"""Helpers shared by harnesses (oracles written from the documentation)."""

import math

RS = [
    [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (1, -1, 2),
        (-1, 1, -2)],
]

def phase(ctx, R, k):
    """exp(i R k) by its definition."""
    x = 0.0
    for i in range(len(R)):
        if R[i]:
            x = x + int(R[i]) * k[i]
    return ctx.np.exp(1j * x)

def fourier(ctx, R, data, k):
    """Sum over lattice vectors, entry by entry."""
    out = 0.0
    for n in range(len(R)):
        out = out + data[n] * phase(ctx, R[n], k)
    return out

def dagger(ctx, a):
    return ctx.np.conj(ctx.np.swapaxes(a, -1, -2))

def herm_data(ctx, name, half, n, real=False):
    """Real-space data with data[-R] = data[R]^+ for 0 and the given half."""
    np = ctx.np
    if real:
        d0 = ctx.reals(name + '0', (n, n))
        d0 = d0 + d0.T
        rest = [ctx.reals('%s%d' % (name, i + 1), (n, n))
            for i in range(len(half))]
    else:
        d0 = ctx.hermitian(name + '0', n)
        rest = [ctx.cplxs('%s%d' % (name, i + 1), (n, n))
            for i in range(len(half))]
    R = [(0, 0, 0)]
    data = [d0]
    for i, S in enumerate(half):
        R.append(tuple(S))
        data.append(rest[i])
        R.append(tuple(-x for x in S))
        data.append(np.conj(rest[i].T) if not real else rest[i].T)
    return np.array(R), np.array(data)

def el_model(ctx, R, data, **kw):
    el = ctx.e.el.Model(**kw)
    el.R = R
    el.data = data
    el.size = data.shape[1]
    return el

def ph_model(ctx, R, data, a=None, r=None, M=None, names=None,
        divide_mass=True, **kw):
    np = ctx.np
    nat = data.shape[1] // 3
    if a is None:
        a = np.eye(3)
    if r is None:
        r = np.zeros((nat, 3))
    if M is None:
        M = np.ones(nat)
    if names is None:
        names = ['ABCDEFGH'[i] for i in range(nat)]
    ph = ctx.e.ph.Model(amass=M, at=a, tau=r, atom_order=names,
        divide_mass=divide_mass, **kw)
    ph.R = R
    ph.data = data
    return ph

def elph_model(ctx, Rg, Rk, nat, nel, data=None, M=None, el=None, ph=None,
        dk=None, dg=None, divide_mass=True, a=None, r=None):
    """Coupling model with given real-space data."""
    np = ctx.np
    if el is None:
        el = ctx.e.el.Model()
        el.size = nel
    if ph is None:
        ph = ctx.e.ph.Model(amass=np.ones(nat) if M is None else M,
            at=np.eye(3) if a is None else a,
            tau=np.zeros((nat, 3)) if r is None else r,
            atom_order=['ABCD'[i] for i in range(nat)],
            divide_mass=divide_mass)
    elph = ctx.e.elph.Model(el=el, ph=ph, Rk=np.array(Rk),
        dk=np.ones((1, 1, len(Rk)), dtype=int) if dk is None else dk,
        Rg=np.array(Rg),
        dg=np.ones((1, 1, 1, len(Rg)), dtype=int) if dg is None else dg,
        divide_mass=divide_mass)
    if data is None:
        data = ctx.cplxs('g', (len(Rg), 3 * nat, len(Rk), nel, nel))
    elph.data[...] = data
    elph.gq = np.empty((3 * nat, len(Rk), nel, nel), dtype=complex)
    elph.Rk0 = ctx.e.misc.vector_index(elph.Rk, (0, 0, 0))
    return elph, data

def double_fourier(ctx, Rg, Rk, data, q, k):
    out = 0.0
    for i in range(len(Rg)):
        for j in range(len(Rk)):
            out = out + (data[i, :, j] * phase(ctx, Rg[i], q)
                * phase(ctx, Rk[j], k))
    return out

def lattice(ctx, name):
    """Some primitive vectors (rows)."""
    np = ctx.np
    s = 3 ** 0.5 / 2
    return np.array({
        'cubic': [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]],
        'hex': [[1.0, 0, 0], [-0.5, s, 0], [0, 0, 4.0]],
        'hex60': [[1.0, 0, 0], [0.5, s, 0], [0, 0, 4.0]],
        'ortho': [[1.0, 0, 0], [0, 1.7, 0], [0, 0, 2.3]],
        'fcc': [[-0.5, 0, 0.5], [0, 0.5, 0.5], [-0.5, 0.5, 0]],
        'tric': [[1.0, 0.1, 0], [-0.3, 1.2, 0.2], [0.1, -0.2, 1.4]],
    }[name])

def is_sorted_unique(R):
    R = [tuple(int(x) for x in r) for r in R]
    return R == sorted(set(R))

def fold(N, k):
    """Supercell wave vector belonging to a primitive one (angles)."""
    out = []
    for row in N:
        x = 0.0
        for i in range(3):
            if int(row[i]):
                x = x + int(row[i]) * k[i]
        out.append(x)
    return out

def bloch(ctx, cells, k):
    return [phase(ctx, tuple(int(x) for x in c), k) for c in cells]

SUPERCELLS = [
    (1, 1, 1),
    (2, 1, 1),
    (1, 1, 3),
    (2, 2, 1),
    ((1, 1, 0), (-1, 1, 0), 1),             # rotated
    ((1, 0, 0), (-3, 2, 0), 1),             # skewed, origin not first
    ((0, 1, 0), (2, 0, 0), 1),              # left-handed
    (-2, 1, 1),                             # left-handed, origin not first
    ((1, 1, 0), (0, 1, 1), (1, 0, 1)),      # fcc-like, 3D
]

def N3(N):
    """Supercell specification as three vectors."""
    return [tuple(n) if hasattr(n, '__len__')
        else tuple(n if i == j else 0 for j in range(3))
        for i, n in enumerate(N)]

class Text(str):
    """String whose operator % accepts symbolic values."""

    def __new__(cls, ctx, s):
        self = str.__new__(cls, s)
        self.ctx = ctx
        return self

    def __mod__(self, x):
        return self.ctx.format(str(self), x)

def hat(ctx, d, i, j, angle):
    """Value at fractional indices from the shape functions of the mesh.

    Every node carries a continuous piecewise linear (angle 90: bilinear)
    function that is one at the node and zero at all others."""
    total = 0.0
    N, M = len(d), len(d[0])
    for n in range(-1, N + 2):
        for m in range(-1, M + 2):
            x, y = i - n, j - m
            if angle == 90:
                if not (bool(abs(x) < 1) and bool(abs(y) < 1)):
                    continue
                w = (1 - abs(x)) * (1 - abs(y))
            else:
                if angle == 60:
                    u = (x, y, x + y)
                else:
                    u = (x, y, x - y)
                big = 0.0
                for v in u:
                    for s in (v, -v):
                        if bool(s > big):
                            big = s
                if not bool(big < 1):
                    continue
                w = 1 - big
            total = total + w * d[n % N][m % M]
    return total
