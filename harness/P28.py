"""Derived quantities and numerical helpers equal their definitions."""

import itertools
import math

from symx.harness import harness
from symx.spectra import Spectra, unitary, levels
from symx.common import el_model, elph_model, ph_model, phase, lattice

def quadratic(n, m, angle):
    """Squared length of n a1 + m a2 for unit vectors a1 and a2."""
    return n * n + m * m + 2 * n * m * {60: 0.5, 90: 0.0, 120: -0.5}[angle]

@harness(bounds='meshes of 1..5 points per dimension, 3 lattices, any origin '
    'of the cell within half a mesh spacing; mesh points of any integer '
    'coordinates in -6..9')
def voronoi(ctx):
    """Equivalent points closest to given point."""
    nk, angle, kind = ctx.choice('mesh', [(1, 60, 'any'), (2, 60, 'any'),
        (3, 60, 'any'), (4, 60, 'none'), (2, 90, 'any'), (3, 90, 'none'),
        (1, 120, 'any'), (2, 120, 'none'), (3, 120, 'none'), (4, 120, 'any'),
        (5, 120, 'none'), (1, 90, 'none'), (6, 60, 'none'), (2, 60, 'none')])
    k1, k2 = ctx.choice('k', [(0, 0), (-5, 8), (7, -3), (2, 2), (1, -1)])
    if kind == 'none':
        d1 = d2 = 0
        got = ctx.e.bravais.to_Voronoi(k1, k2, nk, angle, epsilon=1e-9)
    else:
        d1 = ctx.real('d1', -0.49, 0.49)
        d2 = ctx.real('d2', -0.49, 0.49)
        got = ctx.e.bravais.to_Voronoi(k1, k2, nk, angle, d1, d2, epsilon=1e-9)
    ctx.true(len(got) > 0, 'at least one image')
    ctx.true(all((n - k1) % nk == 0 and (m - k2) % nk == 0 for n, m in got),
        'equivalent')
    best = [quadratic(n - d1, m - d2, angle) for n, m in got]
    for n in range(k1 % nk - 3 * nk, k1 % nk + 3 * nk, nk):
        for m in range(k2 % nk - 3 * nk, k2 % nk + 3 * nk, nk):
            d = quadratic(n - d1, m - d2, angle)
            if kind == 'none':
                ctx.true(best[0] < d + 1e-8, 'no closer image')
                ctx.true(((n, m) in got) == (d < best[0] + 1e-6),
                    'all images at the same distance')
            else:
                ctx.true(best[0] <= d + 1e-8, 'no closer image')

@harness(bounds='meshes of 1..4 points per dimension, 3 lattices, 3 origins')
def wigner_seitz(ctx):
    np = ctx.np
    nk, angle = ctx.choice('mesh', [(1, 120), (2, 60), (2, 120), (3, 60),
        (3, 90), (4, 120), (4, 90)])
    s = ctx.choice('shift', [(0.0, 0.0), (1 / 3, 1 / 3), (0.25, -0.125)])
    x = ctx.angle('x')
    y = ctx.angle('y')
    R, n, l = ctx.e.bravais.wigner_2d(nk, angle, *s, epsilon=1e-9)
    ctx.true(list(R) == sorted(set(R)), 'sorted and unique')
    ctx.true(len(R) == len(n) == len(l), 'lengths')
    for a, b in zip(R, l):
        ctx.eq(b, math.sqrt(quadratic(*a, angle)), 'length')
    # any function on the mesh is interpolated at mesh points
    for i, j in itertools.product(range(nk), repeat=2):
        total = 0.0
        for a, b in zip(R, n):
            if (a[0] - i) % nk == 0 and (a[1] - j) % nk == 0:
                total += 1.0 / b
        ctx.eq(total, 1.0, 'weights of equivalent points')

@harness(bounds='up to 4 points in 1..2 dimensions at any position')
def groups(ctx):
    np = ctx.np
    n, dim = ctx.choice('size', [(1, 1), (2, 1), (3, 1), (4, 1), (2, 2)])
    eps = 0.5
    x = ctx.reals('x', (n, dim), 0, 3)
    if n == 4:
        x[1, 0] = 1.0
        x[3, 0] = 2.25
    close = {}
    for i, j in itertools.combinations(range(n), 2):
        for d in range(dim):
            a = x[i, d] - x[j, d]
            ctx.assume((a > eps + 1e-6) | (a < eps - 1e-6))
            ctx.assume((a > -eps + 1e-6) | (a < -eps - 1e-6))
    got = ctx.e.misc.group(x if dim > 1 else x[:, 0],
        eps)
    parts = [[int(i) for i in g] for g in got]
    ctx.true(sorted(sum(parts, [])) == list(range(n)), 'partition')
    where = {i: p for p, g in enumerate(parts) for i in g}
    for i, j in itertools.combinations(range(n), 2):
        near = True
        for d in range(dim):
            a = x[i, d] - x[j, d]
            if not (a < eps and a > -eps):
                near = False
        close[i, j] = close[j, i] = near
    # connected components
    label = list(range(n))
    for _ in range(n):
        for (i, j), near in close.items():
            if near:
                label[i] = label[j] = min(label[i], label[j])
    for i, j in itertools.combinations(range(n), 2):
        ctx.true((label[i] == label[j]) == (where[i] == where[j]),
            'neighborhoods')

@harness(bounds='2..6 sample points and values')
def integration(ctx):
    np = ctx.np
    n = ctx.choice('n', [2, 3, 4, 6])
    x = ctx.reals('x', (n,), -5, 5)
    f = ctx.reals('f', (n,), -2, 2)
    w = ctx.e.misc.differential(x)
    want = 0.0
    for i in range(n - 1):
        want = want + (x[i + 1] - x[i]) * (f[i + 1] + f[i]) / 2
    got = 0.0
    for i in range(n):
        got = got + w[i] * f[i]
    ctx.eq(got, want, 'trapezoidal rule')

@harness(bounds='any parabola, any three points at least 0.2 apart')
def parabola(ctx):
    a = ctx.real('a', 0.5, 2) * ctx.choice('sign', [1, -1])
    x0 = ctx.real('x0', -2, 2)
    c = ctx.real('c', -2, 2)
    x = [ctx.real('x%d' % i, -2, 2) for i in range(3)]
    for i in range(3):
        d = x[i] - x[(i + 1) % 3]
        ctx.assume(d * d > 0.04)
    y = [a * (z - x0) * (z - x0) + c for z in x]
    got = ctx.e.misc.minimum(*x, *y)
    ctx.eq(got, x0, 'extremum')

@harness(bounds='any 3 integer or real vectors of 3 components')
def index(ctx):
    np = ctx.np
    v = np.array([(0, 0, 0), (1, 0, 0), (0, 0, 0), (1, -1, 2), (0, 1, 0)])
    w = ctx.choice('vector', [(0, 0, 0), (1, 0, 0), (1, -1, 2), (2, 1, 0),
        (0, 1, 0), (0, 0, 1)])
    got = ctx.e.misc.vector_index(v, w)
    want = [i for i in range(5) if tuple(int(c) for c in v[i]) == w]
    ctx.true(got == want[0] if want else got is None, 'first match')
    x = ctx.reals('x', (3, 2), -1, 1)
    got = ctx.e.misc.vector_index(x, x[2])
    ctx.true(got is not None, 'found')
    for i in range(3):
        same = bool(x[i, 0] == x[2, 0]) and bool(x[i, 1] == x[2, 1])
        if i < got:
            ctx.true(not same, 'no earlier match')
        elif i == got:
            ctx.true(same, 'match')

@harness(bounds='grids of up to 4x3x2 points, any origin and edges; 1..3 '
    'processes', mpi=True)
def grid(ctx):
    np = ctx.np
    shape = ctx.choice('shape', [(2, 2, 2), (4, 3, 2)])
    shared = ctx.choice('shared', [False, True])
    P = ctx.choice('P', [1, 2, 3])
    r0 = ctx.reals('r0', (3,), -5, 5)
    a = ctx.reals('a', (3, 3), -5, 5)

    def run(e, rank):
        return e.misc.real_space_grid(shape, r0, a, shared_memory=shared)

    ref, res = ctx.mpi(P, run)
    for r in [ref] + res:
        ctx.true(r.shape == shape + (3,), 'shape')
        for i in itertools.product(*map(range, shape)):
            want = r0
            for d in range(3):
                want = want + a[d] * (i[d] / (shape[d] - 1))
            ctx.eq(r[i], want, 'grid point')

@harness(bounds='1 and 2 orbitals, 2x2 k points, 1x1 and 2x2 q points, any '
    'interaction and eigenvectors; 1..3 processes', mpi=True, budget=200)
def screened_band(ctx):
    """Interaction of single band from interaction of orbitals."""
    np = ctx.np
    no, nq, nQ, P, share, dd, band = ctx.choice('mode', [
        (1, 1, 1, 3, False, False, 0), (1, 2, 2, 2, True, True, 0),
        (1, 1, 2, 2, False, False, 0), (2, 1, 1, 1, False, False, 0),
        (2, 1, 2, 1, False, True, 1), (2, 2, 2, 1, True, False, 1),
        (2, 2, 2, 2, False, True, 0)])
    nk = 2
    S = Spectra(ctx)
    spectra = {}
    for i in itertools.product(range(nk), repeat=2):
        if no == 1:
            spectra[i] = None
            continue
        n = 2 * i[0] + i[1]
        spectra[i] = ([-1.0 - 0.125 * n, 1.0 + 0.25 * n],
            unitary(ctx, 0.25 + 0.25 * n if n else ctx.real('theta', 0.2, 1.3),
                0.5 * n if n else ctx.angle('phi')))

    def H(k1=0, k2=0, k3=0):
        i = tuple(int(round(float(ctx.concrete(x)) / math.pi)) % 2
            for x in (k1, k2))
        if no == 1:
            return np.array([[0.5 * i[0] - 0.25 * i[1] + 0j]])
        return S.matrix(*spectra[i])

    U = ctx.cplxs('U', (no,) * 4, 1)
    W = ctx.cplxs('W', (no,) * 4, 1)
    V = np.zeros((nQ, nQ, no, no, no, no)) + 0j
    for q in itertools.product(range(nQ), repeat=2):
        V[q] = U * (1 + q[0]) + W * (q[0] - 0.5 * q[1])

    psi = {}
    e, v, order = None, None, None

    def run(e, rank):
        return e.elel.orbital2band(V, H, nq, nk, band, share=share, dd=dd)

    ref, out = ctx.mpi(P, run)
    _, vec = ctx.e.dispersion.dispersion_full_nosym(H, nk, vectors=True,
        gauge=True)
    irr = sorted(ctx.e.bravais.irreducibles(nq))
    for rank, got in enumerate(out):
        if rank and not share:
            ctx.true(got is None, 'only first process')
            continue
        ctx.true(got.shape == (len(irr),) + (nk,) * 4, 'shape')
        for iq, q in enumerate(irr):
            u = V[q[0] * nQ // nq, q[1] * nQ // nq]
            for k in itertools.product(range(nk), repeat=2):
                for K in itertools.product(range(nk), repeat=2):
                    kq = tuple((x + y * nk // nq) % nk for x, y in zip(k, q))
                    Kq = tuple((x + y * nk // nq) % nk for x, y in zip(K, q))
                    s = 0.0
                    for a, b, c, d in itertools.product(range(no), repeat=4):
                        if dd and not (a == b and c == d):
                            continue
                        s = s + (u[a, b, c, d] * vec[kq][a, band]
                            * np.conj(vec[k][b, band]) * vec[K][c, band]
                            * np.conj(vec[Kq][d, band]))
                    ctx.eq(got[(iq,) + k + K], s, 'interaction of band')

@harness(bounds='up to 3 reciprocal vectors, any density coefficients, any '
    'volume and lattice constant')
def hartree(ctx):
    np = ctx.np
    n = ctx.choice('n', [2, 3, 4])
    rho = ctx.cplxs('rho', (n,), 1)
    G = np.zeros((n, 3))
    for i in range(1, n):
        G[i] = ctx.reals('G%d' % i, (3,), -2, 2)
        ctx.assume(G[i, 0] * G[i, 0] > 0.25)
    V = ctx.real('V', 1, 9)
    a = ctx.real('a', 1, 3)
    got = ctx.e.elel.hartree_energy(rho, G, n, V, a)
    b = 2 * math.pi * 0.529177210903 / a
    want = 0.0
    for i in range(1, n):
        g2 = (G[i, 0] * G[i, 0] + G[i, 1] * G[i, 1] + G[i, 2] * G[i, 2])
        want = want + (rho[i].real * rho[i].real
            + rho[i].imag * rho[i].imag) / g2
    # E = V / 2 sum e^2 4 pi / |G|^2 |rho(G)|^2 with e^2 = 2
    ctx.eq(got * b * b, 4 * math.pi * V * want, 'Hartree energy')

@harness(bounds='2 atoms, 3 lattice vectors, 3 lattices, any force constants '
    'and positions')
def bond_lengths(ctx):
    np = ctx.np
    a = lattice(ctx, ctx.choice('lattice', ['hex', 'tric', 'fcc']))
    r = np.array([[0.0, 0.0, 0.0], [0.3, 0.2, 0.1]])
    r[1, 0] = ctx.real('r', 0.1, 0.6)
    R = np.array([(0, 0, 0), (1, 0, 0), (0, -1, 2)])
    C = ctx.reals('C', (3, 6, 6), 0.5, 1)
    C[1, :3, 3:] = 0.0
    ph = ph_model(ctx, R, C, a=a, r=r, divide_mass=False)
    ph.l = np.zeros((3, 2, 2))
    for n in range(3):
        T = R[n, 0] * a[0] + R[n, 1] * a[1] + R[n, 2] * a[2]
        for i in range(2):
            for j in range(2):
                d = r[j] - r[i] - T
                ph.l[n, i, j] = (d[0] * d[0] + d[1] * d[1]
                    + d[2] * d[2]) ** 0.5
    l, c = ph.decay()
    ctx.true(len(l) == len(c) == 11, 'nonzero force constants')
    m = 0
    for n in range(3):
        for i in range(2):
            for j in range(2):
                if (n, i, j) == (1, 0, 1):
                    continue
                s = 0.0
                for x in range(3):
                    for y in range(3):
                        z = C[n, 3 * i + x, 3 * j + y]
                        s = s + z * z
                ctx.eq(c[m] * c[m], s, 'Frobenius norm')
                ctx.eq(l[m], ph.l[n, i, j], 'bond length')
                m += 1

@harness(bounds='2 atoms, 2 lattice vectors, any force constants of known '
    'sign, any masses')
def cost(ctx):
    """Sum over force constants is a sum over bonds."""
    np = ctx.np
    divide = ctx.choice('divide', [False, True])
    R = np.array([(0, 0, 0), (1, 0, 0), (-1, 0, 0)])
    C = -ctx.reals('C', (3, 6, 6), 0.1, 1)
    C[1] = -C[1]
    C[0, :3, :3] = -C[0, :3, :3]
    M = [4.0, 2.25] if divide else [1.0, 1.0]
    data = C.copy()
    if divide:
        for i in range(6):
            for j in range(6):
                data[:, i, j] = data[:, i, j] / np.sqrt(M[i // 3] * M[j // 3])
    ph = ph_model(ctx, R, data, M=M, divide_mass=divide)
    ph.nq = ctx.choice('nq', [(3, 1, 1), (3, 2, 1)])
    got = ph.sum_force_constants()
    s = 0.0
    for n in range(3):
        for i in range(6):
            for j in range(6):
                x = abs(C[n, i, j])
                s = s + x
    for i in range(6):
        for j in range(6):
            if i // 3 == j // 3:
                # self terms
                s = s - abs(C[0, i, j])
    ctx.eq(got * 2 * ph.nq[0] * ph.nq[1], s, 'sum over bonds')

@harness(bounds='any displacements of 1 and 2 atoms, any momentum and angle '
    '60 or 90 degrees')
def modes(ctx):
    """Longitudinal, transverse, and out-of-plane weight."""
    np = ctx.np
    nat = ctx.choice('nat', [1, 2])
    angle = ctx.choice('angle', [60, 90])
    e = np.zeros((2, 3 * nat, 3 * nat)) + 0j
    e[0, :, 0] = ctx.cplxs('e', (3 * nat,), 1)
    e[0, :, 1] = 0.5
    t = ctx.real('t', 0, 1.5)
    c, s = np.cos(t), np.sin(t)
    Q = ctx.real('Q', 0.5, 2) * ctx.choice('scale', [1, 1e-3])
    # crystal coordinates belong to vectors b1, b2 enclosing given angle
    a1, a2 = ctx.e.bravais.translations(180 - angle)
    b1, b2 = ctx.e.bravais.reciprocals(a1, a2)
    det = b1[0] * b2[1] - b1[1] * b2[0]
    q = [Q * (c * b2[1] - s * b2[0]) / det, Q * (s * b1[0] - c * b1[1]) / det]
    ctx.eq((b1[0] * b2[0] + b1[1] * b2[1]),
        math.cos(math.radians(angle)) * (b1[0] * b1[0] + b1[1] * b1[1]),
        'angle of reciprocal lattice vectors')
    e[1] = e[0]
    got = ctx.e.ph.polarization(e, np.array([q, [0.0, 0.0]]), angle)
    ctx.true(got.shape == (2, 3 * nat, 3), 'shape')
    for band in range(2):
        L = T = Z = 0.0
        for i in range(nat):
            x, y, z = e[0, 3 * i, band], e[0, 3 * i + 1, band], \
                e[0, 3 * i + 2, band]
            l = x * c + y * s
            t = y * c - x * s
            L = L + l.real * l.real + l.imag * l.imag
            T = T + t.real * t.real + t.imag * t.imag
            Z = Z + z.real * z.real + z.imag * z.imag
        ctx.eq(got[0, band, 0], L, 'longitudinal')
        ctx.eq(got[0, band, 1], T, 'transverse')
        ctx.eq(got[0, band, 2], Z, 'out of plane')
        ctx.eq(got[1, band, 0], (L + T) / 2, 'in plane at q = 0')
        ctx.eq(got[1, band, 1], (L + T) / 2, 'in plane at q = 0')
        ctx.eq(got[1, band, 2], Z, 'out of plane at q = 0')

@harness(bounds='1 atom, 2 orbitals, 3 and 3 lattice vectors, 3 lattices, any '
    'coupling')
def coupling_range(ctx):
    np = ctx.np
    a = lattice(ctx, ctx.choice('lattice', ['hex', 'tric', 'fcc']))
    Rg = np.array([(0, 0, 0), (1, 0, 0), (0, -1, 2)])
    Rk = np.array([(0, 0, 0), (0, 1, 0), (1, -1, 0)])
    g = np.array([[0.5, 0.25, 0.375], [0.75, 0.4375, 0.625],
        [0.3125, 0.5625, 0.875]])
    i, j, k, l = ctx.choice('place', [(0, 0, 1, 2), (2, 1, 2, 2),
        (1, 2, 0, 1)])
    g[i, j] = ctx.real('g', 0.125, 1)
    g[k, l] = ctx.real('h', 0.125, 1)
    data = np.zeros((3, 3, 3, 2, 2)) + 0j
    data[:, 0, :, 0, 1] = g
    data[:, 2, :, 1, 1] = -0.5 * g
    zero = ctx.choice('zero', [None, 0, 1])
    if zero is not None:
        data[zero] = 0.0
        data[:, :, zero] = 0.0
    ph = ph_model(ctx, np.array([(0, 0, 0)]), np.zeros((1, 3, 3)), a=a,
        divide_mass=False)
    elph, data = elph_model(ctx, Rg, Rk, 1, 2, data=data, ph=ph,
        divide_mass=False)
    keep = [i for i in range(3) if i != zero]
    for R, (d, m), what in [(Rk, elph.decay_epmate(), 0),
            (Rg, elph.decay_epmatp(), 1)]:
        ctx.true(len(d) == len(m) == len(keep), 'nonzero coupling')
        for i, n in enumerate(keep):
            T = R[n, 0] * a[0] + R[n, 1] * a[1] + R[n, 2] * a[2]
            ctx.eq(d[i] * d[i] / 0.529177210903 ** 2,
                T[0] * T[0] + T[1] * T[1] + T[2] * T[2], 'distance')
            hit = False
            for j in keep:
                x = g[j, n] if what == 0 else g[n, j]
                ctx.true(m[i] >= x - 1e-9, 'upper bound')
                if m[i] - x < 1e-9:
                    hit = True
            ctx.true(hit, 'maximum')

@harness(bounds='Hamiltonian of 3 lattice vectors, 2 orbitals; any values and '
    'orthorhombic or hexagonal cell')
def hopping_range(ctx):
    np = ctx.np
    x = ctx.real('x', 1, 9)
    a = ctx.real('a', 1, 9)
    path = ctx.scratch('w_hr.dat')
    R = [(0, 0, 0), (1, 0, 0), (2, -1, 1)]
    with open(path, 'w') as f:
        f.write('written on 1Jan2025 at 12:00:00\n2\n3\n    1    2    1\n')
        for n, r in enumerate(R):
            for j in range(2):
                for i in range(2):
                    v = 0.5 / (1 + n) if i != j else 0.25
                    re, im = (3.0, 4.0) if n == 1 and i < j else (v, 0.0)
                    f.write('%5d%5d%5d%5d%5d' % (r + (i + 1, j + 1)))
                    f.write(ctx.format('%12.6f', x if (n, i, j) == (2, 1, 0)
                        else re))
                    f.write('%12.6f\n' % im)
    hexagonal = ctx.choice('hexagonal', [False, True])
    if hexagonal:
        d, h = ctx.e.el.decayH(path[:-7], ibrav=4, a=a, c=3.0)
    else:
        d, h = ctx.e.el.decayH(path[:-7], ibrav=8, a=a, b=2 * a, c=3.0)
    got = sorted((float(i), j) for i, j in enumerate(d))
    ctx.true(len(d) == 3, 'number of lattice vectors')
    Ry = ctx.e.misc.Ry
    a0 = 0.529177210903
    for r, m in zip(R, [0.5, 5.0, x]):
        if hexagonal:
            l2 = (r[0] ** 2 - r[0] * r[1] + r[1] ** 2) * a * a
        else:
            l2 = r[0] ** 2 * a * a + r[1] ** 2 * 4 * a * a
        l2 = l2 + r[2] ** 2 * 9.0
        hit = False
        for i in range(3):
            if abs(d[i] * d[i] - l2) < 1e-6:
                hit = True
                ctx.eq(h[i] * Ry, m, 'maximum', tol=1e-5)
        ctx.true(hit, 'distance of lattice vector')
