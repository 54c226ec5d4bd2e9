"""Long-range dipole and quadrupole interactions."""

import itertools

from symx.harness import harness
from symx.common import (fourier, ph_model, elph_model, lattice,
    double_fourier)

TAU = [(0.0, 0.0, 0.0), (0.25, 0.5, 0.125)]

ISO = ((3.0, 0, 0), (0, 3.0, 0), (0, 0, 3.0))
ANISO = ((2.0, 0.5, 0), (0.5, 3.0, 0.25), (0, 0.25, 4.0))
LAYER = ((5.0, 0.5, 0), (0.5, 3.0, 0), (0, 0, 1.5))

QPOINTS = [(0.0, 0.0, 0.0), (0.7, -0.4, 1.1), (3.141592653589793, 0.0, 0.0)]

def polar(ctx, a, Z, eps, alph, M=None, Q=None, L=None, perp=True, two=False,
        div=True, R=None, data=None):
    """Model with given long-range properties."""
    np = ctx.np
    nat = len(Z)
    if data is None:
        R = [(0, 0, 0)]
        data = np.zeros((1, 3 * nat, 3 * nat))
    return ph_model(ctx, np.array(R), np.array(data), a=np.array(a),
        r=np.array(TAU[:nat]).dot(np.array(a)), M=None if M is None
        else np.array(M), zeu=None if Z is None else np.array(Z),
        Q=None if Q is None else np.array(Q), epsil=np.array(eps), alph=alph,
        L=L, perp=perp, lr2d=two, divide_mass=div)

def vectors(ctx, a):
    """Reciprocal lattice vectors including 2 pi."""
    np = ctx.np
    a = np.array(a)
    V = np.dot(a[0], np.cross(a[1], a[2]))
    return [2 * np.pi * np.cross(a[(i + 1) % 3], a[(i + 2) % 3]) / V
        for i in range(3)], abs(V)

def terms(ctx, a, eps, alph, q, L=None, perp=True, two=False, cut=28.0, n=4,
        flat=False):
    """All (K, factor, is out-of-plane) from the literature."""
    np = ctx.np
    b, V = vectors(ctx, a)
    a = np.array(a)
    eps = np.array(eps)
    scale = 4 * alph * (2 * np.pi) ** 2 / np.dot(a[0], a[0])
    res = []
    for m in itertools.product(range(-n, n + 1), repeat=3):
        if (two or flat) and m[2]:
            continue
        G = m[0] * b[0] + m[1] * b[1] + m[2] * b[2]
        if np.dot(G, G if two else eps.dot(G)) >= scale * cut:
            continue
        K = G + (q[0] * b[0] + q[1] * b[1] + q[2] * b[2]) / (2 * np.pi)
        K2 = np.dot(K, K)
        if K2 < 1e-9:
            continue
        if two:
            A = V / a[2, 2]
            r = (eps - np.eye(3)) * a[2, 2] / 2
            k = np.sqrt(K2)
            Kr = np.dot(K[:2], r[:2, :2].dot(K[:2]))
            if L is None:
                res.append((K, 4 * np.pi / A * np.exp(-K2 / scale)
                    / (k + Kr), False))
            else:
                f = 1 - np.tanh(k * L / 2)
                W = 4 * np.pi / A * f / k
                res.append((K, W / (1 + f * Kr / k), False))
                if perp:
                    res.append((K, -W / (1 - f * k * r[2, 2]), True))
        else:
            Ke = np.dot(K, eps.dot(K))
            res.append((K, 8 * np.pi / V * np.exp(-Ke / scale) / Ke, False))
    return res

def potential(ctx, K, out, Z, Q, r, L, two):
    """Fourier component of potential of displaced atoms [3 nat]."""
    np = ctx.np
    res = []
    k = np.sqrt(np.dot(K, K))
    for n in range(len(Z)):
        ph = np.exp(-1j * np.dot(K, r[n]))
        for u in range(3):
            v = 0.0
            for x in range(3):
                if out:
                    if x == 2:
                        v = v + 1j * k * Z[n][x][u]
                        if Q is not None:
                            v = v + k * (Q[n][u][2][0] * K[0]
                                + Q[n][u][2][1] * K[1])
                else:
                    v = v + 1j * K[x] * Z[n][x][u]
                    if Q is not None:
                        for y in range(3):
                            v = v + 0.5 * K[x] * K[y] * Q[n][u][x][y]
            if Q is not None and two and L is not None and not out:
                v = v - 0.5 * k ** 2 * Q[n][u][2][2]
            res.append(v * ph)
    return res

def oracle(ctx, a, Z, eps, alph, q, Q=None, L=None, perp=True, two=False,
        **kw):
    """Long-range dynamical matrix without division by masses."""
    np = ctx.np
    nat = len(Z)
    r = np.array(TAU[:nat]).dot(np.array(a))
    def plain(q):
        D = [[0.0] * (3 * nat) for i in range(3 * nat)]
        for K, f, out in terms(ctx, a, eps, alph, q, L, perp, two, **kw):
            v = potential(ctx, K, out, Z, Q, r, L, two)
            for i in range(3 * nat):
                for j in range(3 * nat):
                    D[i][j] = D[i][j] + f * np.conj(v[i]) * v[j]
        return D
    D = plain(q)
    D0 = plain((0.0, 0.0, 0.0))
    for n in range(nat):
        for x in range(3):
            for y in range(3):
                for m in range(nat):
                    D[3 * n + x][3 * n + y] = (D[3 * n + x][3 * n + y]
                        - D0[3 * n + x][3 * m + y])
    return D

def weighted(ctx, D, s):
    np = ctx.np
    n = 3 * len(s)
    D = np.array(D)
    if D.ndim == 1:
        return np.array([D[i] / s[i // 3] for i in range(n)])
    return np.array([[D[i, j] / (s[i // 3] * s[j // 3]) for j in range(n)]
        for i in range(n)])

def cell(ctx, name):
    return 4 * lattice(ctx, name)

def masses(ctx, nat, div):
    s = ctx.reals('s', (nat,), 0.5, 3.0)
    return s, s ** 2, s if div else [1.0] * nat

@harness(bounds='2 atoms, 3 lattices, 2 dielectric tensors, 3 wave vectors, '
    'any Born charges and masses')
def dipole(ctx):
    """Dipole-dipole term in three dimensions."""
    np = ctx.np
    a = cell(ctx, ctx.choice('lattice', ['cubic', 'hex', 'tric']))
    eps = ctx.choice('epsilon', [ISO, ANISO])
    Z = ctx.reals('Z', (2, 3, 3), -5, 5)
    q = ctx.choice('q', QPOINTS)
    div = ctx.choice('divide_mass', [True, False])
    s, M, w = masses(ctx, 2, div)
    ph = polar(ctx, a, Z, eps, 0.06, M, div=div)
    ctx.true(ph.lr, 'long-range terms used')
    D = ph.D_lr(*q)
    ctx.eq(D, weighted(ctx, oracle(ctx, a, Z, eps, 0.06, q), w),
        'long-range matrix', tol=1e-6)
    ctx.eq(ph.D(*q), D, 'added to short-range part', tol=1e-6)
    ctx.eq(ph.Z, Z, 'Born charges')

@harness(bounds='1..2 atoms, 2 lattices, 2 wave vectors, any Born charges and '
    'quadrupoles')
def quadrupole(ctx):
    np = ctx.np
    nat, name = ctx.choice('system', [(1, 'tric'), (2, 'cubic')])
    a = cell(ctx, name)
    Z = ctx.reals('Z', (nat, 3, 3), -5, 5)
    Q = ctx.reals('Q', (nat, 3, 3, 3), -5, 5)
    q = ctx.choice('q', QPOINTS[1:])
    div = ctx.choice('divide_mass', [True, False])
    s, M, w = masses(ctx, nat, div)
    ph = polar(ctx, a, Z, ISO, 0.04, M, Q=Q, div=div)
    ctx.eq(ph.D_lr(*q), weighted(ctx, oracle(ctx, a, Z, ISO, 0.04, q, Q=Q),
        w), 'long-range matrix', tol=1e-6)

@harness(bounds='2 atoms, 2 lattices, 2 wave vectors, 3 ways of sampling, any '
    'Born charges and masses')
def sampling(ctx):
    """Choice of reciprocal lattice vectors."""
    np = ctx.np
    a = cell(ctx, ctx.choice('lattice', ['cubic', 'tric']))
    Z = ctx.reals('Z', (2, 3, 3), -5, 5)
    q = ctx.choice('q', QPOINTS[1:])
    div = ctx.choice('divide_mass', [True, False])
    cut, flat = ctx.choice('sampling', [(28.0, True), (28.0, False),
        (14.0, True), (14.0, False)])
    s, M, w = masses(ctx, 2, div)
    ph = polar(ctx, a, Z, ANISO, 0.06, M, div=div)
    ph.prepare_long_range(G_max=cut, G_2d=flat)
    ctx.eq(ph.D_lr(*q), weighted(ctx, oracle(ctx, a, Z, ANISO, 0.06, q,
        cut=cut, flat=flat), w), 'long-range matrix', tol=1e-6)

@harness(bounds='2 atoms, 2 layered lattices, 3 wave vectors, any Born '
    'charges and quadrupoles, both formulas for two dimensions')
def layer(ctx):
    np = ctx.np
    nat, name, quad = ctx.choice('system', [(1, 'hex', True),
        (2, 'ortho', False), (1, 'ortho', False), (2, 'hex', True)])
    a = cell(ctx, name)
    Z = ctx.reals('Z', (nat, 3, 3), -5, 5)
    Q = ctx.reals('Q', (nat, 3, 3, 3), -5, 5) if quad else None
    L, perp = ctx.choice('L', [(None, True), (3.0, True), (3.0, False)])
    q = ctx.choice('q', [(0.7, -0.4, 0.0), QPOINTS[0], QPOINTS[2]]
        if nat == 1 else [(0.7, -0.4, 0.0)])
    div = nat == 1 or ctx.choice('divide_mass', [True, False])
    s, M, w = masses(ctx, nat, div)
    ph = polar(ctx, a, Z, LAYER, 0.06, M, Q=Q, L=L, perp=perp, two=True,
        div=div)
    ctx.eq(ph.D_lr(*q), weighted(ctx, oracle(ctx, a, Z, LAYER, 0.06, q, Q=Q,
        L=L, perp=perp, two=True), w), 'long-range matrix', tol=1e-6)

@harness(bounds='2 atoms, any Born charges, quadrupoles and masses; two and '
    'three dimensions')
def sum_rule(ctx):
    """Rigid translations produce no macroscopic field."""
    np = ctx.np
    two = ctx.choice('two-dimensional', [False, True])
    a = cell(ctx, 'hex')
    Z = ctx.reals('Z', (2, 3, 3), -5, 5)
    Q = (ctx.reals('Q', (2, 3, 3, 3), -5, 5)
        if ctx.choice('quadrupoles', [False, True]) else None)
    L = ctx.choice('L', [None, 2.0]) if two else None
    div = ctx.choice('divide_mass', [True, False])
    s, M, w = masses(ctx, 2, div)
    ph = polar(ctx, a, Z, LAYER if two else ANISO, 0.04, M, Q=Q, L=L,
        two=two, div=div)
    D = ph.D_lr()
    for y in range(3):
        ctx.eq(D[:, y] * w[0] + D[:, 3 + y] * w[1], np.zeros(6),
            'force upon translation', tol=1e-6)
    ctx.eq(D.imag, np.zeros((6, 6)), 'real at zero wave vector', tol=1e-6)

@harness(bounds='2 atoms on cubic lattice, any Born charges, any wave vector '
    'along fixed directions within 0.1..3')
def inversion(ctx):
    """Symmetry for any wave vector."""
    np = ctx.np
    two = ctx.choice('two-dimensional', [False, True])
    a = 2 * np.pi * np.eye(3)
    Z = ctx.reals('Z', (2, 3, 3), -5, 5)
    x = ctx.real('q', 0.1, 3.0)
    d = ctx.choice('direction', [(1, 0, 0), (1, 2, 0)])
    q = [x * d[i] for i in range(3)]
    ph = polar(ctx, a, Z, LAYER if two else ISO, 0.012, two=two)
    D = ph.D_lr(*q)
    D0 = ph.D0_lr
    m = ph.D_lr(*[-y for y in q])
    ctx.eq(D - D0, np.conj((D - D0).T), 'Hermitian', tol=1e-6)
    ctx.eq(m, np.conj(D), 'reversed wave vector', tol=1e-6)

@harness(bounds='2 atoms, any Born charges and quadrupoles, any factor')
def scaling(ctx):
    np = ctx.np
    Z = ctx.reals('Z', (2, 3, 3), -5, 5)
    Q = ctx.reals('Q', (2, 3, 3, 3), -5, 5)
    a = cell(ctx, 'hex')
    q = ctx.choice('q', QPOINTS[1:])
    c = ctx.real('c', 0.5, 2.0)
    ph1 = polar(ctx, a, Z, ISO, 0.04, Q=Q)
    ph2 = polar(ctx, a, c * Z, ISO, 0.04, Q=c * Q)
    ctx.eq(ph2.D_lr(*q), c ** 2 * ph1.D_lr(*q), 'square of charges', tol=1e-6)

def mesh_model(ctx, nq, nat, a, div, M, **kw):
    """Model with force constants on a mesh."""
    np = ctx.np
    R = [tuple(R) for R in itertools.product(*map(range, nq))]
    data = ctx.reals('C', (len(R), 3 * nat, 3 * nat))
    ph = polar(ctx, a, div=div, M=M, R=R, data=data, **kw)
    ph.nq = nq
    return ph, R, data

@harness(bounds='1..2 atoms, 3 meshes, any force constants, any Born charges '
    'before and after')
def phonons(ctx):
    """Matrices on the mesh survive changes of long-range parameters."""
    np = ctx.np
    nq, name = ctx.choice('mesh', [((2, 1, 1), 'hex'), ((1, 3, 1), 'cubic'),
        ((2, 2, 1), 'cubic')])
    nat = ctx.choice('atoms', [1, 2] if nq[0] * nq[1] < 4 else [1])
    a = cell(ctx, name)
    div = ctx.choice('divide_mass', [True, False])
    s, M, w = masses(ctx, nat, div)
    Z = ctx.reals('Z', (nat, 3, 3), -2, 2)
    change = ctx.choice('change', ['Z', 'alpha', 'eps', 'off', 'none'])
    ph, R, data = mesh_model(ctx, nq, nat, a, div, M, Z=Z, eps=ISO,
        alph=0.06)
    ph.sample_orig()
    before = [ph.D(*[2 * np.pi * x / N for x, N in zip(m, nq)])
        for m in itertools.product(*map(range, nq))]
    if change == 'Z':
        ph.Z = np.array(ctx.reals('Y', (nat, 3, 3), -2, 2))
    elif change == 'alpha':
        ph.alpha = 0.075
    elif change == 'eps':
        ph.eps = np.array(ANISO)
    elif change == 'off':
        ph.lr = False
    ph.update_short_range()
    for i, m in enumerate(itertools.product(*map(range, nq))):
        q = [2 * np.pi * x / N for x, N in zip(m, nq)]
        ctx.eq(ph.D(*q), before[i], 'matrix on mesh', tol=1e-4)
    if change == 'Z':
        q = QPOINTS[1]
        ctx.eq(ph.D_lr(*q), weighted(ctx, oracle(ctx, a,
            ctx.reals('Y', (nat, 3, 3), -2, 2), ISO, 0.06, q), w),
            'new long-range matrix', tol=1e-6)

@harness(bounds='1 atom, 2 meshes, any force constants; charges and '
    'quadrupoles switched on')
def switched_on(ctx):
    """Nonpolar model is made polar."""
    np = ctx.np
    nq = ctx.choice('mesh', [(2, 1, 1), (1, 3, 1)])
    nat = 1
    a = cell(ctx, 'ortho')
    two = ctx.choice('two-dimensional', [False, True])
    R = [tuple(R) for R in itertools.product(*map(range, nq))]
    data = ctx.reals('C', (len(R), 3, 3))
    ph = ph_model(ctx, np.array(R), np.array(data), a=np.array(a),
        alph=0.08, lr2d=two)
    ph.nq = nq
    ph.sample_orig()
    ctx.true(not ph.lr, 'no long-range part')
    ph.lr = True
    ph.eps = np.array(LAYER)
    ph.Z = np.array(ctx.reals('Z', (1, 3, 3), -2, 2))
    if ctx.choice('quadrupoles', [False, True]):
        ph.Q = np.array(ctx.reals('Q', (1, 3, 3, 3), -2, 2))
    if two:
        ph.L = ctx.choice('L', [None, 8.0])
    ph.update_short_range()
    for m in itertools.product(*map(range, nq)):
        q = [2 * np.pi * x / N for x, N in zip(m, nq)]
        ctx.eq(ph.D(*q), fourier(ctx, R, data, q), 'matrix on mesh',
            tol=1e-4)

@harness(bounds='2 atoms, 3 wave vectors, any charges, quadrupoles, masses')
def coupling_formula(ctx):
    """Long-range coupling is the potential of moving dipoles."""
    np = ctx.np
    two, L = ctx.choice('two-dimensional', [(False, None), (True, None),
        (True, 3.0)])
    nat = ctx.choice('atoms', [1, 2])
    a = cell(ctx, 'hex')
    Z = ctx.reals('Z', (nat, 3, 3), -5, 5)
    Q = (ctx.reals('Q', (nat, 3, 3, 3), -5, 5)
        if ctx.choice('quadrupoles', [False, True]) else None)
    q = ctx.choice('q', [(0.7, -0.4, 0.0), QPOINTS[0], QPOINTS[2]])
    div = ctx.choice('divide_mass', [True, False])
    s, M, w = masses(ctx, nat, div)
    eps = LAYER if two else ANISO
    ph = polar(ctx, a, Z, eps, 0.05, M, Q=Q, L=L, two=two, div=div)
    elph, data = elph_model(ctx, [(0, 0, 0)], [(1, 0, 0), (0, 0, 0)], nat, 2,
        ph=ph, divide_mass=div)
    r = np.array(TAU[:nat]).dot(np.array(a))
    g = [0.0] * (3 * nat)
    for K, f, out in terms(ctx, a, eps, 0.05, q, L, False, two):
        v = potential(ctx, K, out, Z, Q, r, L, two)
        g = [x + f * y for x, y in zip(g, v)]
    g = weighted(ctx, g, w)
    ctx.eq(elph.g_lr(*q), g, 'long-range coupling', tol=1e-6)
    k = [0.3, 0.5, -0.2]
    total = elph.g(*q, *k)
    sr = double_fourier(ctx, [(0, 0, 0)], [(1, 0, 0), (0, 0, 0)], data, q, k)
    ctx.eq(total[:, 0, 1], sr[:, 0, 1], 'orbital off-diagonal')
    for i in range(2):
        ctx.eq(total[:, i, i], sr[:, i, i] + g, 'added to diagonal', tol=1e-6)

@harness(bounds='1..2 atoms, meshes of up to 3 q and 2 k points, any '
    'coupling, charges before and after', budget=150)
def coupling(ctx):
    """Couplings on the mesh survive changes of long-range parameters."""
    np = ctx.np
    nq, nk = ctx.choice('mesh', [((2, 1, 1), (1, 1, 1)),
        ((3, 1, 1), (2, 1, 1)), ((1, 2, 1), (1, 2, 1))])
    nat = ctx.choice('atoms', [1, 2])
    a = cell(ctx, 'ortho')
    div = ctx.choice('divide_mass', [True, False])
    s, M, w = masses(ctx, nat, div)
    Z = ctx.reals('Z', (nat, 3, 3), -2, 2)
    change = ctx.choice('change', ['Z', 'alpha', 'off'])
    ph, R, C = mesh_model(ctx, nq, nat, a, div, M, Z=Z, eps=ISO, alph=0.06)
    Rg = list(itertools.product(*map(range, nq)))
    Rk = list(itertools.product(*map(range, nk)))
    el = ctx.e.el.Model()
    el.size = 1
    el.nk = nk
    elph, data = elph_model(ctx, Rg, Rk, nat, 1, ph=ph, el=el,
        divide_mass=div)
    elph.sample_orig(shared_memory=False)
    def sample():
        res = []
        for m in itertools.product(*map(range, nq)):
            q = [2 * np.pi * x / N for x, N in zip(m, nq)]
            for l in itertools.product(*map(range, nk)):
                k = [2 * np.pi * x / N for x, N in zip(l, nk)]
                res.append(elph.g(*q, *k))
        return res
    before = sample()
    if change == 'Z':
        ph.Z = np.array(ctx.reals('Y', (nat, 3, 3), -2, 2))
    elif change == 'alpha':
        ph.alpha = 0.075
    else:
        ph.lr = False
    elph.update_short_range(shared_memory=False)
    after = sample()
    for x, y in zip(before, after):
        ctx.eq(y, x, 'coupling on mesh', tol=1e-4)

@harness(bounds='1 atom, coupling file with any complex numbers')
def mass_convention(ctx):
    """Coupling follows the convention of a polar phonon model."""
    np = ctx.np
    Z = ctx.reals('Z', (1, 3, 3), -2, 2)
    wish = ctx.choice('elph', [True, False])
    div = ctx.choice('ph', [True, False])
    ph = polar(ctx, 4 * np.eye(3), Z, ISO, 0.04, [4.0], div=div)
    el = ctx.e.el.Model()
    el.size = 1
    Rg = [(0, 0, 0), (1, 0, 0)]
    Rk = [(0, 0, 0)]
    g = ctx.cplxs('g', (2, 3, 1, 1, 1))
    args = dict(el=el, ph=ph, Rk=np.array(Rk), dk=np.ones((1, 1, 1),
        dtype=int), Rg=np.array(Rg), dg=np.ones((1, 1, 1, 2), dtype=int))
    first = ctx.e.elph.Model(divide_mass=False, **args)
    first.data[...] = g
    with open(ctx.scratch('epmatwp'), 'wb') as f:
        for i in range(2):
            np.swapaxes(np.array(g[i]), 2, 3).tofile(f)
    elph = ctx.e.elph.Model(epmatwp=ctx.scratch('epmatwp'), divide_mass=wish,
        **args)
    ctx.true(elph.divide_mass == div, 'convention of phonon model')
    ctx.eq(elph.data, g / 2.0 if div else g, 'short-range coupling')
