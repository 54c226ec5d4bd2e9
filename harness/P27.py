"""Sampled dispersions belong to the matrices they come from."""

import itertools
import math

from symx.harness import harness
from symx.spectra import Spectra, unitary, levels, two_bands
from symx.common import el_model, phase, fourier, bloch, fold

def model(ctx, S, slope=True):
    """Matrix function with two bands and its eigenvalues and vectors."""
    np = ctx.np
    c = ctx.reals('c', (2,), -0.2, 0.2)
    t = ctx.reals('t', (2, 3), -0.1, 0.1) if slope else np.zeros((2, 3))
    theta = ctx.real('theta', 0.2, 1.3)
    phi = ctx.angle('phi')

    def spectrum(k1=0, k2=0, k3=0):
        w = [n + c[n] + t[n, 0] * k1 + t[n, 1] * k2 + t[n, 2] * k3
            for n in range(2)]
        w[0] = w[0] - 1
        w[1] = w[1] + 1
        V = unitary(ctx, theta + 0.1 * k1 - 0.2 * k2, phi + k2 - 2 * k3)
        return w, V

    calls = []

    def matrix(k1=0, k2=0, k3=0):
        calls.append((k1, k2, k3))
        return S.matrix(*spectrum(k1, k2, k3))

    return matrix, spectrum, calls

POINTS = [
    [(0.3,), (-1.1,), (2.5,)],
    [(0.3, 0.7), (-1.1, 0.2)],
    [(0.3, 0.7, -0.9), (-1.1, 0.2, 0.4), (0.0, 0.0, 0.0)],
    [[(0.3, 0.7), (-1.1, 0.2)], [(0.0, -0.4), (1.0, 0.9)],
        [(0.1, 0.2), (0.2, 0.1)]],
    [0.3, -1.1, 2.5],
    [[[(0.3, 0.7, 0.4)], [(-1.1, 0.2, 0.1)]]],
]

def eigenvectors(ctx, w, V, matrix, k):
    """Do columns of V diagonalize the matrix?"""
    np = ctx.np
    D = np.zeros((2, 2)) + 0j
    D[0, 0] = w[0] + 0j
    D[1, 1] = w[1] + 0j
    A = np.dot(np.dot(V, D), np.conj(V).T)
    ctx.eq(A, matrix(*k), 'spectral representation')
    ctx.eq(np.dot(np.conj(V).T, V), np.eye(2), 'orthonormal')

@harness(bounds='2 bands, any eigenvalues, eigenvectors and phases; lists and '
    'meshes in 1..3 dimensions; Hermitian or not; gauge')
def diagonalize(ctx):
    np = ctx.np
    S = Spectra(ctx)
    matrix, spectrum, calls = model(ctx, S)
    k = ctx.choice('k', POINTS)
    how = ctx.choice('how', ['values', 'vectors', 'general',
        'general vectors', 'broadcast', 'array'])
    kw = dict(vectors='vectors' in how, hermitian='general' not in how,
        broadcast=how != 'broadcast')
    r = ctx.e.dispersion.dispersion(matrix,
        np.array(k) if how == 'array' else k, **kw)
    v, V = r if kw['vectors'] else (r, None)
    flat = np.array(k)
    shape = flat.shape[:-1] if flat.ndim > 1 else flat.shape
    ctx.true(tuple(v.shape) == tuple(shape) + (2,), 'shape')
    if V is not None:
        ctx.true(tuple(V.shape) == tuple(shape) + (2, 2), 'shape of vectors')
    for i in itertools.product(*map(range, shape)):
        q = flat[i] if flat.ndim > 1 else [flat[i]]
        q = [float(x) for x in q]
        w, _ = spectrum(*q)
        ctx.eq(v[i], np.array(w) + 0j, 'eigenvalues in ascending order')
        if V is not None:
            eigenvectors(ctx, w, V[i], matrix, q)

@harness(bounds='3 bands, non-Hermitian matrices with any real couplings and '
    'eigenvalues in 6 orders, 2 points')
def general(ctx):
    """Eigenvectors of general matrices follow their eigenvalues."""
    np = ctx.np
    S = Spectra(ctx, phases=False)
    orders = list(itertools.permutations([-1.25, 0.5, 2.0]))
    n = ctx.choice('order', range(6))
    a, b, c = ctx.reals('a', (3,), -1.0, 1.0)

    def matrix(k1=0, k2=0, k3=0):
        x, y, z = orders[n if k1 < 0.5 else (n + 2) % 6]
        A = np.zeros((3, 3)) + 0j
        A[0, 0], A[1, 1], A[2, 2] = x, y, z
        A[0, 1], A[0, 2], A[1, 2] = a + k1, b, c
        V = np.zeros((3, 3)) + 0j
        for i in range(3):
            V[i, i] = 1.0
        V[0, 1] = (a + k1) / (y - x)
        V[1, 2] = c / (z - y)
        V[0, 2] = (b + (a + k1) * V[1, 2]) / (z - x)
        order = sorted(range(3), key=[x, y, z].__getitem__)
        S.know(A, [[x, y, z][i] for i in order], V[:, order])
        return A

    k = [(0.0, 0.3), (1.0, 0.2), (0.25, 0.0)]
    v, V = ctx.e.dispersion.dispersion(matrix, k, vectors=True,
        hermitian=False)
    for i in range(3):
        A = matrix(*k[i])
        ctx.eq(v[i], np.array([-1.25, 0.5, 2.0]) + 0j, 'ascending')
        for m in range(3):
            ctx.eq(np.dot(A, V[i][:, m]) - v[i, m] * V[i][:, m],
                np.zeros(3) + 0j, 'eigenvector of its eigenvalue')
            ctx.true(sum(abs(V[i][j, m]) ** 2 for j in range(3)) > 1e-3,
                'not zero')

@harness(bounds='2 bands, any eigenvalues, eigenvectors of given moduli and '
    'any phases, 2 points')
def gauge(ctx):
    np = ctx.np
    S = Spectra(ctx)
    c, s = ctx.choice('moduli', [(0.8, 0.6), (0.28, 0.96)])
    energies = [levels(ctx, 'w%d' % i) for i in range(2)]
    z = np.exp(1j * ctx.angle('phi'))
    V = np.empty((2, 2), dtype=complex)
    V[0, 0], V[0, 1], V[1, 0], V[1, 1] = c + 0j, -s / z, s * z, c + 0j

    def matrix(k1=0, k2=0, k3=0):
        return S.matrix(energies[int(k1 > 0.5)], V)

    w, X = ctx.e.dispersion.dispersion(matrix, [(0.0, 0.0), (1.0, 0.2)],
        vectors=True, gauge=True)
    for i in range(2):
        ctx.eq(w[i], np.array(energies[i]), 'eigenvalues')
        eigenvectors(ctx, energies[i], X[i], matrix, (float(i), 0.0, 0.0))
        for n in range(2):
            big = n if c > s else 1 - n
            ctx.eq(X[i, big, n], max(c, s) + 0j,
                'largest element real and positive')

@harness(bounds='1..2 atoms, 4 wave vectors, hexagonal (60, 120) and square '
    'lattice, any modes')
def rotated(ctx):
    """Displacements in the frame of the wave vector."""
    np = ctx.np
    S = Spectra(ctx)
    angle = ctx.choice('angle', [60, 90, 120])
    nat = ctx.choice('atoms', [1, 2])
    k = ctx.choice('k', [(0.3, 0.7), (2.8, 0.2), (-0.4, 5.9), (3.5, 3.6)])
    t = math.radians(angle)
    # reciprocal vectors enclosing the given angle, first real-space vector
    # along x:
    a1 = (1.0, 0.0)
    a2 = (math.cos(math.pi - t), math.sin(math.pi - t))
    det = a1[0] * a2[1] - a1[1] * a2[0]
    b1 = (a2[1] / det, -a2[0] / det)
    b2 = (-a1[1] / det, a1[0] / det)
    best = None
    for i, j in itertools.product(range(-2, 3), repeat=2):
        x, y = [(k[0] + 2 * math.pi * i) * b1[m]
            + (k[1] + 2 * math.pi * j) * b2[m] for m in range(2)]
        if best is None or x * x + y * y < best[0] - 1e-9:
            best = x * x + y * y, x, y
    p = math.atan2(best[2], best[1])
    n = 3 * nat
    # modes: pairs of displacements mixed with any angle
    U = np.zeros((n, n)) + 0j
    V = unitary(ctx, ctx.angle('theta'), ctx.angle('phi'))
    for i in range(n):
        U[i, i] = 1.0
    pair = [0, 1] if nat == 1 else [1, 3]
    for i in range(2):
        for j in range(2):
            U[pair[i], pair[j]] = V[i, j]
    w = [0.1 * (i + 1) for i in range(n)]

    def matrix(k1=0, k2=0, k3=0):
        return S.matrix(w, U)

    v, X = ctx.e.dispersion.dispersion(matrix, [k], angle=angle,
        vectors=True, rotate=True)
    ctx.eq(v[0], np.array(w), 'eigenvalues')
    R = np.zeros((n, n)) + 0j
    for i in range(nat):
        R[3 * i, 3 * i] = R[3 * i + 1, 3 * i + 1] = math.cos(p)
        R[3 * i, 3 * i + 1] = math.sin(p)
        R[3 * i + 1, 3 * i] = -math.sin(p)
        R[3 * i + 2, 3 * i + 2] = 1.0
    Y = np.dot(R, U)
    for m in range(n):
        # projectors do not depend on phases
        ctx.eq(np.outer(X[0, :, m], np.conj(X[0, :, m])),
            np.outer(Y[:, m], np.conj(Y[:, m])), 'rotated displacement')

@harness(bounds='2 bands, any eigenvalues and eigenvectors, any two points')
def any_point(ctx):
    """The matrix is evaluated at the requested points."""
    np = ctx.np
    S = Spectra(ctx)
    matrix, spectrum, calls = model(ctx, S)
    q = ctx.reals('q', (2, 3), -3.0, 3.0)
    v = ctx.e.dispersion.dispersion(matrix, q)
    for i in range(2):
        ctx.eq(v[i], np.array(spectrum(*q[i])[0]), 'eigenvalues')
    H = ctx.e.dispersion.sample(matrix, q)
    for i in range(2):
        ctx.eq(H[i], matrix(*q[i]), 'sampled')

@harness(bounds='1..2 bands, lists and meshes in 1..3 dimensions')
def sampled(ctx):
    np = ctx.np
    data = ctx.cplxs('m', (3, 2, 3))
    k = ctx.choice('k', POINTS)

    def matrix(k1=0, k2=0, k3=0, factor=1.0):
        return factor * (data[0] + k1 * data[1] + k2 * k3 * data[2]) + k2

    H = ctx.e.dispersion.sample(matrix, k, factor=2.0)
    flat = np.array(k)
    shape = flat.shape[:-1] if flat.ndim > 1 else flat.shape
    ctx.true(tuple(H.shape) == tuple(shape) + (2, 3), 'shape')
    for i in itertools.product(*map(range, shape)):
        q = flat[i] if flat.ndim > 1 else [flat[i]]
        ctx.eq(H[i], matrix(*[float(x) for x in q], factor=2.0), 'sampled')

@harness(bounds='one band, any values, also complex')
def one_band(ctx):
    np = ctx.np
    c = ctx.cplxs('c', (2,))
    k = [(0.3, 0.7), (-1.1, 0.2)]

    def matrix(k1=0, k2=0, k3=0):
        m = np.empty((1, 1), dtype=complex)
        m[0, 0] = c[0] + k1 * c[1]
        return m

    v = ctx.e.dispersion.dispersion(matrix, k)
    z, V = ctx.e.dispersion.dispersion(matrix, k, vectors=True,
        hermitian=False)
    for i in range(2):
        x = matrix(*k[i])[0, 0]
        ctx.eq(v[i, 0], x.real, 'real part')
        ctx.eq(z[i, 0], x, 'complex value')
        ctx.eq(abs(V[i, 0, 0]), 1.0, 'normalized')

def diabatic(ctx, S, points, overlap=True):
    """Two bands of constant character whose energies may cross."""
    np = ctx.np
    theta = ctx.real('theta', 0.2, 1.3)
    phi = ctx.angle('phi')
    V = unitary(ctx, theta, phi)
    e = ctx.reals('e', (points, 2), -1.0, 1.0)
    for i in range(points):
        d = e[i, 1] - e[i, 0]
        ctx.assume(d * d > 0.01)

    def index(k1, k2=0, k3=0):
        return int(round(float(k1)))

    def matrix(k1=0, k2=0, k3=0):
        i = index(k1)
        if e[i, 0] < e[i, 1]:
            return S.matrix([e[i, 0], e[i, 1]], V)
        W = np.empty((2, 2), dtype=complex)
        W[:, 0] = V[:, 1]
        W[:, 1] = V[:, 0]
        return S.matrix([e[i, 1], e[i, 0]], W)

    return matrix, e, V

@harness(bounds='2 bands of any fixed character and energies, 2..3 points',
    points=3)
def ordered(ctx):
    """Crossing bands are disentangled."""
    np = ctx.np
    S = Spectra(ctx)
    n = ctx.choice('points', [2, 3])
    matrix, e, U = diabatic(ctx, S, n)
    by_mean = ctx.choice('by mean', [False, True])
    vectors = ctx.choice('vectors', [False, True])
    k = [(float(i), 0.0) for i in range(n)]
    r = ctx.e.dispersion.dispersion(matrix, k, order=True, vectors=vectors,
        by_mean=by_mean)
    v, o = r[0], r[-1]
    total = sum(e[i, 1] - e[i, 0] for i in range(n))
    if by_mean:
        ctx.assume(total * total > 0.01)
        low = 0 if total > 0 else 1
    else:
        low = 0 if e[0, 0] < e[0, 1] else 1
    for i in range(n):
        ctx.eq(v[i, 0], e[i, low], 'lower band')
        ctx.eq(v[i, 1], e[i, 1 - low], 'upper band')
        swap = bool(e[i, low] > e[i, 1 - low])
        ctx.true([int(x) for x in o[i]] == ([1, 0] if swap else [0, 1]),
            'indices')
        if vectors:
            for m, b in enumerate([low, 1 - low]):
                ctx.eq(abs(np.dot(np.conj(U[:, b]), r[1][i, :, m])), 1.0,
                    'eigenvectors of same character')

@harness(bounds='2 bands, 3 points, degenerate at one point')
def order_degenerate(ctx):
    """Degenerate points are not used as reference."""
    np = ctx.np
    e = ctx.reals('e', (3, 2), 0.2, 1.0)
    V = np.array([[1.0, 0.0], [0.0, 1.0]]) + 0j
    a = ctx.real('mix', 0.0, 0.7)
    W = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]) + 0j
    flip = ctx.choice('flip', [False, True])
    v = np.zeros((3, 2))
    v[0, 0], v[0, 1] = -e[0, 0], e[0, 1]
    v[1, 0] = v[1, 1] = e[1, 0]
    v[2, 0], v[2, 1] = -e[2, 0], e[2, 1]
    Vs = np.empty((3, 2, 2), dtype=complex)
    Vs[0] = V
    Vs[1] = W[:, ::-1] if flip else W
    Vs[2] = V
    o = ctx.e.dispersion.band_order(v, Vs, by_mean=False)
    ctx.true([int(x) for x in o[0]] == [0, 1], 'first')
    ctx.true(sorted(int(x) for x in o[1]) == [0, 1], 'permutation')
    ctx.true([int(x) for x in o[2]] == [0, 1], 'after degenerate point')

@harness(bounds='3 bands, 2 points, every permutation, any phases')
def permutations(ctx):
    np, d = ctx.np, ctx.e.dispersion
    p = ctx.choice('p', list(itertools.permutations(range(3))))
    V = np.zeros((1, 3, 3)) + 0j
    V[0, :2, :2] = unitary(ctx, ctx.real('theta', 0.2, 1.3), ctx.angle('phi'))
    V[0, 2, 2] = np.exp(1j * ctx.angle('x'))
    W = np.zeros((1, 3, 3)) + 0j
    for i in range(3):
        W[0, :, p[i]] = V[0, :, i] * np.exp(1j * ctx.angle('p%d' % i))
    m = d.map_dispersions(V, W)
    ctx.true([int(x) for x in m[0]] == list(p), 'map')
    v = np.array([[0.0, 1.0, 2.0], [0.0, 1.0, 2.0]])
    both = np.empty((2, 3, 3), dtype=complex)
    both[0] = V[0]
    both[1] = W[0]
    o = d.band_order(v, both, by_mean=False)
    ctx.true([int(x) for x in o[1]] == list(p), 'order')

# -- full mesh from irreducible wedge

GROUPS = {
    60: [((0, -1), (1, 1)), ((0, 1), (1, 0))],      # rotation, reflection
    120: [((0, -1), (1, 0)), ((0, 1), (1, 0))],
    90: [((0, -1), (1, 0)), ((0, 1), (1, 0))],
}

ROTATE = {
    # image of (k1, k2) under rotation by 60 or 90 degrees; reflection
    60: (lambda a, b: (-b, a + b), lambda a, b: (b, a)),
    120: (lambda a, b: (a - b, a), lambda a, b: (b, a)),
    90: (lambda a, b: (-b, a), lambda a, b: (b, a)),
}

def orbits(size, angle):
    """Number of orbit for each mesh point."""
    orbit = {}
    n = 0
    for start in itertools.product(range(size), repeat=2):
        if start in orbit:
            continue
        todo = [start]
        while todo:
            x = todo.pop()
            if x in orbit:
                continue
            orbit[x] = n
            for op in ROTATE[angle]:
                y = op(*x)
                todo.append((y[0] % size, y[1] % size))
        n += 1
    return orbit, n

@harness(bounds='meshes of 1..6 points per dimension, 3 angles, 2 bands, any '
    'symmetric energies, eigenvectors constant up to phases')
def full(ctx):
    np, d = ctx.np, ctx.e.dispersion
    S = Spectra(ctx)
    angle = ctx.choice('angle', [60, 90, 120])
    size = ctx.choice('size', [1, 2, 3, 4, 6])
    kind = ctx.choice('kind', ['values', 'vectors', 'order', 'both',
        'nosym', 'nosym vectors'])
    orbit, n = orbits(size, angle)
    e = [[-ctx.real('a%d' % i, 0.1, 1.0), ctx.real('b%d' % i, 0.1, 1.0)]
        for i in range(n)]
    V = unitary(ctx, 0.4, 0.7)
    if kind in ('order', 'both'):
        V = np.array([[1.0, 0.0], [0.0, 1.0]]) + 0j

    def matrix(k1=0, k2=0, k3=0):
        i = orbit[tuple(int(round(float(x) * size / (2 * math.pi))) % size
            for x in (k1, k2))]
        return S.matrix(e[i], V)

    if 'nosym' in kind:
        r = d.dispersion_full_nosym(matrix, size, vectors='vec' in kind)
    else:
        r = d.dispersion_full(matrix, size, angle=angle,
            vectors=kind in ('vectors', 'both'),
            order=kind in ('order', 'both'))
    v = r[0] if type(r) is tuple else r
    ctx.true(tuple(v.shape) == (size, size, 2), 'shape')
    for (a, b), i in orbit.items():
        ctx.eq(v[a, b], np.array(e[i]), 'eigenvalues on mesh')
        if kind in ('vectors', 'both', 'nosym vectors'):
            U = r[1][a, b]
            for m in range(2):
                ctx.eq(abs(np.dot(np.conj(V[:, m]), U[:, m])), 1.0,
                    'eigenvectors on mesh')
        if kind in ('order', 'both'):
            ctx.true([int(x) for x in r[-1][a, b]] == [0, 1], 'order')

@harness(bounds='2x2, 3x3, hexagonal and square; two crossing bands of fixed '
    'character, any energies')
def full_ordered(ctx):
    np, d = ctx.np, ctx.e.dispersion
    S = Spectra(ctx)
    angle, size = ctx.choice('case', [(60, 2), (60, 3), (120, 3), (90, 2)])
    nosym = ctx.choice('nosym', [False, True]) if angle == 60 else False
    orbit, n = orbits(size, angle)
    V = unitary(ctx, 0.4, 0.7)
    e = ctx.reals('e', (n, 2), -1.0, 1.0)
    for i in range(n):
        x = e[i, 1] - e[i, 0]
        ctx.assume(x * x > 0.01)

    def matrix(k1=0, k2=0, k3=0):
        i = orbit[tuple(int(round(float(x) * size / (2 * math.pi))) % size
            for x in (k1, k2))]
        if e[i, 0] < e[i, 1]:
            return S.matrix([e[i, 0], e[i, 1]], V)
        return S.matrix([e[i, 1], e[i, 0]], V[:, ::-1])

    if nosym:
        v, o = d.dispersion_full_nosym(matrix, size, order=True)
    else:
        v, o = d.dispersion_full(matrix, size, angle=angle, order=True)
    # the band is the same one everywhere:
    G = orbit[0, 0]
    same = bool(abs(v[0, 0, 0] - e[G, 0]) < 0.001)
    for (a, b), i in orbit.items():
        ctx.eq(v[a, b, 0], e[i, 0 if same else 1], 'first band')
        ctx.eq(v[a, b, 1], e[i, 1 if same else 0], 'second band')

@harness(bounds='3x3 mesh, hexagonal; three bands of fixed character in any '
    'sequence, any offset of the energies')
def full_three(ctx):
    np, d = ctx.np, ctx.e.dispersion
    S = Spectra(ctx)
    size = 3
    orbit, n = orbits(size, 60)
    nosym = ctx.choice('nosym', [False, True])
    offset = ctx.real('offset', -0.5, 0.5)
    ranks = [ctx.choice('sequence %d' % i, [(0, 1, 2), (1, 2, 0), (2, 0, 1)]
        if i else [(0, 1, 2), (1, 0, 2)]) for i in range(n)]
    scale = [1 + 0.1 * i for i in range(n)]
    V = np.array([[2, -2, 1], [1, 2, 2], [2, 1, -2]]) / 3 + 0j

    def matrix(k1=0, k2=0, k3=0):
        i = orbit[tuple(int(round(float(x) * size / (2 * math.pi))) % size
            for x in (k1, k2))]
        turn = [ranks[i].index(x) for x in range(3)]
        return S.matrix([x * scale[i] + offset for x in range(3)], V[:, turn])

    if nosym:
        v, V_, o = d.dispersion_full_nosym(matrix, size, vectors=True,
            order=True)
    else:
        v, V_, o = d.dispersion_full(matrix, size, vectors=True, order=True)
    for (a, b), i in orbit.items():
        for m in range(3):
            # a band is identified by its energy at the first point:
            char = [c for c in range(3) if bool(abs(v[0, 0, m] - offset
                - ranks[orbit[0, 0]][c] * scale[orbit[0, 0]]) < 0.01)]
            ctx.true(len(char) == 1, 'one of the bands')
            char = char[0]
            ctx.eq(v[a, b, m], ranks[i][char] * scale[i] + offset, 'energies')
            ctx.eq(abs((V_[a, b, :, m].conj() * V[:, char]).sum()), 1.0,
                'same character')

@harness(bounds='meshes of different size along axes, 2 bands')
def rectangular(ctx):
    np, d = ctx.np, ctx.e.dispersion
    S = Spectra(ctx)
    matrix, spectrum, calls = model(ctx, S)
    size = ctx.choice('size', [(2,), (2, 3), (1, 2, 2), (3, 1)])
    v = d.dispersion_full_nosym(matrix, size)
    ctx.true(tuple(v.shape) == tuple(size) + (2,), 'shape')
    for i in itertools.product(*map(range, size)):
        q = [2 * math.pi * x / n for x, n in zip(i, size)]
        ctx.eq(v[i], np.array(spectrum(*q)[0]), 'eigenvalues')

# -- unfolding

CELLS = [
    (2, 1, 1),
    (1, 3, 1),
    ((1, 1, 0), (-1, 1, 0), 1),
    ((1, 0, 0), (-1, 2, 0), 1),
]

@harness(bounds='4 supercells, 2 orbitals, any k, any eigenvectors')
def unfold_perfect(ctx):
    """Bloch states of the primitive cell have weight one or zero."""
    np, d = ctx.np, ctx.e.dispersion
    N = ctx.choice('N', CELLS)
    N0, N1, N2, cells = [ctx.e.bravais.supercell(*N)[i] for i in (0, 1, 2, 3)]
    cells = [tuple(int(x) for x in c) for c in ctx.e.bravais.supercell(*N)[-1]]
    n = len(cells)
    k = ctx.reals('k', (1, 3), -3.0, 3.0)
    U0 = unitary(ctx, ctx.angle('theta'), ctx.angle('phi'))
    # wave vectors that are equivalent in the supercell differ by G:
    M = np.array(ctx.e.bravais.supercell(*N)[1])
    import numpy
    B = numpy.linalg.inv(numpy.array([[int(x) for x in r] for r in M],
        dtype=float))
    cols = []
    for m in itertools.product(range(n), repeat=3):
        G = 2 * math.pi * B.dot(m)
        key = tuple(numpy.round(numpy.exp(1j * G), 6))
        if key not in [c for c, _ in cols]:
            cols.append((key, G))
    ctx.true(len(cols) == n, 'number of equivalent points')
    U = np.zeros((1, 2 * n, 2 * n)) + 0j
    for g, (_, G) in enumerate(cols):
        q = [k[0, i] + float(G[i]) for i in range(3)]
        p = bloch(ctx, cells, q)
        for j in range(n):
            for m in range(2):
                U[0, 2 * j:2 * j + 2, 2 * g + m] = (p[j] * U0[:, m]
                    / math.sqrt(n))
    W = np.zeros((1, 2, 2)) + 0j
    W[0] = U0
    w = d.unfolding_weights(k, cells, W, U)
    want = np.zeros(2 * n)
    for g, (key, G) in enumerate(cols):
        if max(abs(numpy.array(key) - 1)) < 1e-6:
            want[2 * g] = want[2 * g + 1] = 1.0
    ctx.eq(w[0], want, 'weights of perfect supercell')
    # the reversed sign convention belongs to opposite wave vectors:
    w = d.unfolding_weights(-k, cells, W, U, sgn=+1)
    ctx.eq(w[0], want, 'other sign convention')
    # orbitals in other order:
    blocks = [slice(j, 2 * n, n) for j in range(n)]
    P = np.zeros((1, 2 * n, 2 * n)) + 0j
    for j in range(n):
        P[0, j] = U[0, 2 * j]
        P[0, n + j] = U[0, 2 * j + 1]
    w = d.unfolding_weights(k, cells, W, P, blocks=blocks)
    ctx.eq(w[0], want, 'blocks')

@harness(bounds='2 cells with 1 orbital, any complete set of states, any k')
def unfold_sum(ctx):
    """Weights add up to one per band."""
    np, d = ctx.np, ctx.e.dispersion
    k = ctx.reals('k', (2, 1), -3.0, 3.0)
    U0 = np.exp(1j * np.array([ctx.angle('a'), ctx.angle('b')]))
    U0 = U0.reshape((2, 1, 1))
    U = np.empty((2, 2, 2), dtype=complex)
    for i in range(2):
        V = unitary(ctx, ctx.angle('t%d' % i), ctx.angle('p%d' % i))
        U[i] = V
    w = d.unfolding_weights(k, [(0,), (1,)], U0, U)
    for i in range(2):
        ctx.eq(w[i].sum(), 1.0, 'sum over states')
        ctx.true(w[i, 0] >= -1e-9, 'not negative')
    # sum over all equivalent wave vectors, state by state:
    k2 = np.array(k)
    k2[1, 0] = k[0, 0] + math.pi
    k2[0, 0] = k[0, 0]
    U[1] = U[0]
    w = d.unfolding_weights(k2, [(0,), (1,)], U0, U)
    ctx.eq(w[0] + w[1], np.ones(2), 'sum over equivalent wave vectors')
