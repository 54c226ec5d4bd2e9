"""Integrals over triangles and contours of linearly interpolated bands."""

from symx.harness import harness

def triangles(N):
    """Corners of all triangles of the mesh (fractional indices)."""
    out = []
    for i in range(N):
        for j in range(N):
            out.append([(i, j), (i + 1, j), (i, j + 1)])
            out.append([(i + 1, j + 1), (i + 1, j), (i, j + 1)])
    return out

def corners(data, tri):
    N = len(data)
    return [data[i % N][j % N] for i, j in tri]

def spline(v, E, w=None):
    """Integral of w delta(v - E) over one triangle for E off its corners.

    The region is cut along the iso-energy line through two of the edges."""
    n = sum(1 for x in v if x < E)
    if n == 0 or n == 3:
        return 0.0
    # corner on its own side:
    c = [i for i in range(3) if bool(v[i] < E) == (n == 1)][0]
    a, b = [i for i in range(3) if i != c]
    s = (E - v[c]) / (v[a] - v[c])
    t = (E - v[c]) / (v[b] - v[c])
    # area between corner and iso-line is s t (in units of the triangle),
    # which changes at the rate
    rate = s / (v[b] - v[c]) + t / (v[a] - v[c])
    if n == 2:
        rate = -rate
    if w is None:
        return 0.5 * rate
    mean = 0.5 * (w[c] * (1 - s) + w[a] * s + w[c] * (1 - t) + w[b] * t)
    return 0.5 * rate * mean

def exact(data, E, w=None):
    N = len(data)
    total = 0.0
    for tri in triangles(N):
        total = total + spline(corners(data, tri), E,
            None if w is None else corners(w, tri))
    return total / N ** 2

def mesh(ctx, N):
    """Energies: some arbitrary, the others given."""
    np = ctx.np
    if N == 1:
        return np.array([[ctx.real('e', -1.0, 1.0)]])
    data = np.zeros((N, N))
    for i in range(N):
        for j in range(N):
            data[i, j] = ((5 * i + 3 * j * j + i * j) % 7 - 3.1) / 3.0
    data[1, 1] = ctx.real('x', -1.0, 1.0)
    data[2, 0] = ctx.real('y', -0.3, 0.5)
    return data

ORDERS = [(0, 1, 2, 3), (2, 0, 3, 1), (3, 1, 0, 2), (1, 2, 3, 0),
    (0, 3, 2, 1), (2, 3, 1, 0)]

@harness(bounds='2x2 mesh, any energies in 6 orders, any energy off the '
    'corners, any couplings')
def dos_small(ctx):
    np = ctx.np
    v = [ctx.real('v0', -2.0, 0.0)]
    for i in range(3):
        v.append(v[i] + ctx.real('d%d' % i, 0.1, 1.0))
    perm = ctx.choice('order', ORDERS)
    e = np.array([[v[perm[0]], v[perm[1]]], [v[perm[2]], v[perm[3]]]])
    n = ctx.choice('interval', [0, 1, 2])
    E = v[n] + ctx.real('t', 0.01, 0.99) * (v[n + 1] - v[n])
    w = ctx.reals('w', (2, 2), 0.0, 2.0)
    ctx.eq(ctx.e.dos.hexDOS(e)(E), exact(e, E), 'DOS')
    ctx.eq(ctx.e.dos.hexa2F(e, w)(E), exact(e, E, w), 'weighted DOS')

@harness(bounds='3x3 mesh with 2 arbitrary energies, 2 energies, with and '
    'without window')
def dos(ctx):
    np = ctx.np
    e = mesh(ctx, 3)
    E = ctx.choice('energy', [-0.7, 0.15])
    ctx.assume(e[1, 1] != E)
    ctx.assume(e[2, 0] != E)
    win = ctx.choice('window', [False, True])
    kw = dict(minimum=E - 0.1, maximum=E + 0.05) if win else dict()
    D = ctx.e.dos.hexDOS(e, **kw)(E)
    ctx.eq(D, exact(e, E), 'DOS')

@harness(bounds='2x2 mesh, any energies in one order, any window around them')
def dos_norm(ctx):
    np = ctx.np
    v = [ctx.real('v0', -2.0, 0.0)]
    for i in range(3):
        v.append(v[i] + ctx.real('d%d' % i, 0.1, 1.0))
    perm = ctx.choice('order', ORDERS)
    e = np.array([[v[perm[0]], v[perm[1]]], [v[perm[2]], v[perm[3]]]])
    w = ctx.reals('w', (2, 2), 0.0, 2.0)
    kind = ctx.choice('function', ['hexDOS', 'hexa2F'])
    if kind == 'hexDOS':
        D = ctx.e.dos.hexDOS(e)
    else:
        D = ctx.e.dos.hexa2F(e, w)
    total = 0.0
    for i in range(3):
        # integrand is a cubic polynomial between the corners at most
        # (two-point Gaussian rule)
        a, d = v[i], v[i + 1] - v[i]
        s = 0.5 / 3 ** 0.5
        total = total + 0.5 * d * (D(a + (0.5 - s) * d) + D(a + (0.5 + s) * d))
    ctx.eq(total, 1.0 if kind == 'hexDOS'
        else 0.25 * (w[0, 0] + w[0, 1] + w[1, 0] + w[1, 1]), 'integral')
    ctx.eq(D(v[0] - 0.5), 0.0, 'nothing below')
    ctx.eq(D(v[3] + 0.5), 0.0, 'nothing above')

@harness(bounds='3x3 mesh with 2 arbitrary energies and 9 arbitrary '
    'non-negative couplings, 2 energies, with and without window')
def a2f(ctx):
    np = ctx.np
    e = mesh(ctx, 3)
    E = ctx.choice('energy', [-0.7, 0.15])
    ctx.assume(e[1, 1] != E)
    ctx.assume(e[2, 0] != E)
    w = ctx.reals('w', (3, 3), 0.0, 2.0)
    win = ctx.choice('window', [False, True])
    kw = dict(minimum=E - 0.1, maximum=E + 0.05) if win else dict()
    D = ctx.e.dos.hexa2F(e, w, **kw)(E)
    ctx.eq(D, exact(e, E, w), 'weighted DOS')
    c = ctx.e.dos.hexa2F(e, np.ones((3, 3)) * 0.7, **kw)(E)
    ctx.eq(c, 0.7 * ctx.e.dos.hexDOS(e)(E), 'constant coupling')

@harness(bounds='2x2 mesh, all ways in which the energy coincides with one, '
    'two or all corners, third energy arbitrary')
def dos_ties(ctx):
    np = ctx.np
    d = ctx.real('d', 0.1, 1.0) * ctx.choice('sign', [1, -1])
    E = ctx.real('E', -1.0, 1.0)
    kind = ctx.choice('kind', ['one', 'row', 'diagonal'])
    if kind == 'one':
        e = [[E, E + d], [E + d, E + d]]
    elif kind == 'row':
        e = [[E, E], [E + d, E + d]]
    else:
        e = [[E, E + d], [E + d, E]]
    w = ctx.reals('w', (2, 2), 0.0, 1.0)
    eps = 1e-6
    # energy at edge of window:
    kw = ctx.choice('window', [(), ('minimum',), ('maximum',),
        ('minimum', 'maximum')])
    kw = {x: E for x in kw}
    D = ctx.e.dos.hexDOS(np.array(e), **kw)
    F = ctx.e.dos.hexa2F(np.array(e), w, **kw)
    # average of the one-sided limits
    for f, u, label in [(D, None, 'DOS'), (F, w, 'weighted DOS')]:
        want = 0.5 * (exact(e, E - eps, u) + exact(e, E + eps, u))
        ctx.eq(f(E), want, '%s at corner' % label, tol=1e-3)

@harness(bounds='2x2 and 3x3 meshes, flat band at any energy')
def dos_flat(ctx):
    np = ctx.np
    E = ctx.real('E', -1.0, 1.0)
    N = ctx.choice('N', [2, 3])
    e = np.array([[E] * N] * N)
    for D in (ctx.e.dos.hexDOS(e), ctx.e.dos.hexa2F(e, np.ones((N, N)))):
        ctx.true(float(D(E)) == float('inf'), 'flat band')
        ctx.eq(D(E + 0.25), 0.0, 'above')
        ctx.eq(D(E - 0.25), 0.0, 'below')

@harness(bounds='3x3 mesh, all pairs and triples of neighboring corners at '
    'the energy, all others below or above by any amount, any couplings')
def dos_ties_mesh(ctx):
    np = ctx.np
    d = ctx.real('d', 0.2, 1.0) * ctx.choice('sign', [1, -1])
    E = 0.25
    tied = ctx.choice('tied', [((0, 0), (0, 1)), ((0, 0), (1, 0)),
        ((1, 1), (2, 0)), ((2, 2), (0, 2)), ((1, 0), (1, 2)),
        ((0, 0), (1, 1))])
    e = [[E + d if (i, j) not in tied else E for j in range(3)]
        for i in range(3)]
    i, j = tied[1]
    # neighbor of second tied point farther away
    e[(i + 1) % 3][(j + 1) % 3] = E + 2 * d \
        if ((i + 1) % 3, (j + 1) % 3) not in tied else E
    w = ctx.reals('w', (3, 3), 0.0, 1.0)
    eps = 1e-6
    D = ctx.e.dos.hexDOS(np.array(e))
    F = ctx.e.dos.hexa2F(np.array(e), w)
    for f, u, label in [(D, None, 'DOS'), (F, w, 'weighted DOS')]:
        want = 0.5 * (exact(e, E - eps, u) + exact(e, E + eps, u))
        ctx.eq(f(E), want, '%s at corner' % label, tol=1e-3)

@harness(bounds='several energies at once: same as one by one')
def dos_arrays(ctx):
    np = ctx.np
    e = np.array([[((5 * i + 3 * j * j + i * j) % 7 - 3.1) / 3.0
        for j in range(3)] for i in range(3)])
    E = np.array([ctx.real('E0', -0.68, -0.38), ctx.real('E1', 0.0, 0.28),
        2.0])
    w = ctx.reals('w', (3, 3), 0.0, 1.0)
    for D in ctx.e.dos.hexDOS(e), ctx.e.dos.hexa2F(e, w):
        out = D(E)
        for i in range(3):
            ctx.eq(out[i], D(E[i]), 'array of energies')
        ctx.eq(out[2], 0.0, 'outside of band')
    ctx.eq(ctx.e.dos.hexa2F(e, w)(E[0]), exact(e, E[0], w), 'any energy')
    ctx.eq(ctx.e.dos.hexDOS(e)(E[1]), exact(e, E[1]), 'any energy')

def jump(ctx, x, y, f, z):
    """Sum over triangles of f / |Jacobian| at crossing of iso-lines."""
    N = len(x)
    total = 0.0
    points = []
    for tri in triangles(N):
        a, b, c = corners(x, tri), corners(y, tri), corners(f, tri)
        ax, bx = a[1] - a[0], a[2] - a[0]
        ay, by = b[1] - b[0], b[2] - b[0]
        J = ax * by - bx * ay
        if J == 0:
            continue
        s = ((z - a[0]) * by - bx * (z - b[0])) / J
        t = (ax * (z - b[0]) - (z - a[0]) * ay) / J
        for u in (s, t, 1 - s - t):
            ctx.assume((u > 1e-4) | (u < -1e-4))
        if s >= 0 and t >= 0 and s + t <= 1:
            total = total + (c[0] + s * (c[1] - c[0]) + t * (c[2] - c[0])) \
                / abs(J) / N ** 2
            points.append([tri[0][i] + s * (tri[1][i] - tri[0][i])
                + t * (tri[2][i] - tri[0][i]) for i in range(2)])
    return total, points

@harness(bounds='3x3 meshes, one arbitrary energy in one function, any '
    'third function, energy within an interval; off the edges of triangles')
def double_delta(ctx):
    np = ctx.np
    x = np.zeros((3, 3))
    y = np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            x[i, j] = [-1.0, 0.3, 1.1][i] + 0.1 * j
            y[i, j] = [0.9, -0.8, 0.25][j] - 0.07 * i
    which = ctx.choice('which', ['z', 'x', 'y'])
    z = 0.0
    if which == 'z':
        z = ctx.real('z', -0.1, 0.1)
    elif which == 'x':
        x[1, 1] = ctx.real('x', 0.2, 0.6)
    else:
        y[1, 2] = ctx.real('y', 0.05, 0.4)
    given = ctx.choice('given', [True, False])
    f = ctx.reals('f', (3, 3), 0.0, 2.0) if given else np.ones((3, 3))
    want, points = jump(ctx, x, y, f, z)
    r = ctx.e.dos.double_delta(x, y, *([f] if given else []))(z)
    total = 0.0
    for p in r:
        total = total + r[p]
        ctx.true(r[p] >= -1e-9, 'not negative')
    ctx.eq(total, want, 'double delta')
    ctx.true(len(r) == len(points), 'number of intersections')
    for p in r:
        near = [q for q in points if bool(abs(p[0] - q[0]) < 1e-6)
            and bool(abs(p[1] - q[1]) < 1e-6)]
        ctx.true(len(near) == 1, 'intersections')

@harness(bounds='4x4 meshes, crossing lines through mesh points, on the zone '
    'boundary, and on edges; 5 shifts along both axes, any weights')
def double_delta_shift(ctx):
    np = ctx.np
    s = ctx.choice('s', [0, 1, 2, 3, 0.3])
    t = ctx.choice('t', [0, 1.5, 3, 0.3]) if s in (0, 0.3) else 0
    a = ctx.real('a', 0.5, 2.0)
    x = np.zeros((4, 4))
    y = np.zeros((4, 4))
    for i in range(4):
        for j in range(4):
            d = (i - s + 1) % 4 - 1
            x[i, j] = a * (d if d <= 1 else 2 - d)
            d = (j - t + 1) % 4 - 1
            y[i, j] = d if d <= 1 else 2 - d
    c = ctx.real('c', 0.1, 2.0)
    r = ctx.e.dos.double_delta(x, y, c * np.ones((4, 4)))(0.0)
    total = 0.0
    for p in r:
        total = total + r[p]
    if s != 0.3 and t not in (1.5, 0.3):
        # both functions are linear near the four crossings
        ctx.true(len(r) == 4, 'each crossing counted once')
        ctx.eq(total, 4 * c / a / 16, 'double delta')
    else:
        ctx.true(len(r) == 4, 'each crossing counted once')

@harness(bounds='3x3 meshes, crossing at a mesh point, 3 functions, 5 '
    'symmetries of the mesh, exchange of functions, and any third function')
def double_delta_symmetry(ctx):
    """Mesh points and triangles are all equivalent."""
    np = ctx.np
    a = ctx.choice('a', [1.0, 0.375, 1.75])
    x, y = np.zeros((3, 3)), np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            x[i, j] = [0.0, 1.0, -0.8][i] + [0.0, 0.15, 0.1][j]
            y[i, j] = [0.0, 0.9, -1.0][j] + [0.0, -0.1, 0.2][i]
    x[1, 0] = a
    f = ctx.reals('f', (3, 3), 0.0, 2.0)
    image = ctx.choice('symmetry', [lambda i, j: (-i, -j),
        lambda i, j: (j, i), lambda i, j: (i + 1, j + 2),
        lambda i, j: (i + j, -i), lambda i, j: (-j, -i)])
    X, Y, F = np.zeros((3, 3)), np.zeros((3, 3)), np.zeros((3, 3))
    for i in range(3):
        for j in range(3):
            I, J = image(i, j)
            X[I % 3, J % 3] = x[i, j]
            Y[I % 3, J % 3] = y[i, j]
            F[I % 3, J % 3] = f[i, j]
    r = ctx.e.dos.double_delta(x, y, f)(0.0)
    R = ctx.e.dos.double_delta(X, Y, F)(0.0)
    S = ctx.e.dos.double_delta(Y, X, F)(0.0)
    add = lambda r: sum([r[p] for p in r], 0.0)
    ctx.true(len(r) == len(R) == len(S), 'number of intersections')
    ctx.eq(add(R), add(r), 'transformed mesh')
    ctx.eq(add(S), add(r), 'exchanged functions')
    # small units of energy
    s = 1e-5
    T = ctx.e.dos.double_delta(s * x, s * y, f)(0.0)
    ctx.true(len(T) == len(r), 'intersections do not depend on unit')
    ctx.eq(s * s * add(T), add(r), 'unit of energy')

@harness(bounds='4x4 mesh, energies between those of the mesh points in '
    'several intervals')
def isoline(ctx):
    np = ctx.np
    N = 4
    e = np.zeros((N, N))
    kind = ctx.choice('band', ['symmetric', 'low'])
    for i in range(N):
        for j in range(N):
            e[i, j] = [0, 1, 2, 1][i] + [0, 1.2, 1.9, 1.2][j] \
                + [0, 1.5, 2.1, 1.5][(i + j) % 4] if kind == 'symmetric' \
                else ((5 * i + 3 * j * j + i * j) % 11) * 0.31
    levels = sorted(set(round(0.5 * float(e[i, j] + e[(i + di) % N,
        (j + dj) % N]), 9) for i in range(N) for j in range(N)
        for di, dj in [(0, 0), (1, 0), (0, 1), (1, -1)]))
    n = ctx.choice('interval', [0, len(levels) // 3, len(levels) // 2,
        len(levels) - 2])
    d = levels[n + 1] - levels[n]
    E = ctx.real('E%s%d' % (kind, n), levels[n] + 0.01 * d,
        levels[n + 1] - 0.01 * d)
    contours = ctx.e.dos.isoline(e)(E)
    fun = ctx.e.bravais.linear_interpolation(e)
    found = []
    for c in contours:
        for p in c:
            # energy along edges of the triangles:
            i, j = p[0] * N, p[1] * N
            ctx.eq(level(ctx, e, i, j), E, 'energy on contour')
            found.append((i, j))
    for c in contours:
        for p, q in zip(c[:-1], c[1:]):
            # line through triangle:
            x, y = [0.5 * N * (u + v) for u, v in zip(p, q)]
            ctx.true((abs(p[0] - q[0]) * N < 1.001)
                & (abs(p[1] - q[1]) * N < 1.001), 'connected')
            ctx.eq(level(ctx, e, x, y), E, 'energy between points')
    for n, c in enumerate(contours):
        # open contours have no common ends:
        for m in range(n):
            for p in (c[0], c[-1]):
                for q in (contours[m][0], contours[m][-1]):
                    ctx.true((abs(p[0] - q[0]) > 1e-9)
                        | (abs(p[1] - q[1]) > 1e-9), 'complete')
    for i in range(N):
        for j in range(N):
            for di, dj in [(1, 0), (0, 1), (1, -1)]:
                a, b = e[i, j], e[(i + di) % N, (j + dj) % N]
                if (a < E) == (b < E):
                    continue
                s = (E - a) / (b - a)
                u, v = i + s * di, j + s * dj
                ctx.true(any(equiv(u - x, v - y, N) for x, y in found),
                    'all crossings found')
    ctx.true(ctx.e.dos.isoline(e)(levels[0] - 1) == [], 'empty below')
    ctx.true(ctx.e.dos.isoline(e)(levels[-1] + 1) == [], 'empty above')

def equiv(dx, dy, N):
    return any(bool(abs(dx - n * N) < 1e-6) for n in range(-3, 4)) \
        and any(bool(abs(dy - n * N) < 1e-6) for n in range(-3, 4))

def level(ctx, e, x, y):
    """Linear interpolation within triangles."""
    N = len(e)
    i, j = ctx.np.floor(x), ctx.np.floor(y)
    s, t = x - i, y - j
    i, j = int(i), int(j)
    A = e[(i + 1) % N, j % N]
    B = e[i % N, (j + 1) % N]
    if s + t > 1:
        C = e[(i + 1) % N, (j + 1) % N]
        return (1 - t) * A + (1 - s) * B + (s + t - 1) * C
    C = e[i % N, j % N]
    return s * A + t * B + (1 - s - t) * C
