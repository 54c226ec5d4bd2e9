"""Interpolation and resampling of data on periodic meshes."""

import math

from symx.common import hat
from symx.harness import harness

@harness(bounds='meshes 3x2 and 2x3, any data (scalar or with further axis), '
    'three lattice angles, evaluation anywhere in and around the cell')
def linear_2d(ctx):
    np, b = ctx.np, ctx.e.bravais
    shape = ctx.choice('shape', [(3, 2), (2, 3)])
    angle = ctx.choice('angle', [60, 90, 120])
    d = ctx.reals('d%d' % shape[0], shape)
    cell = ctx.choice('cell', [(0, 0), (1, 1), (2, 0), (-1, -2), (4, 1)])
    if cell[0] in (0, -1):
        s, t = ctx.real('s', 0.01, 0.99), ctx.choice('t', [0.3, 0.8])
    else:
        s, t = ctx.choice('s', [0.15, 0.7]), ctx.real('t', 0.01, 0.99)
    if angle == 60:
        ctx.assume((s + t > 1.0001) | (s + t < 0.9999))
    elif angle == 120:
        ctx.assume((s - t > 0.0001) | (s - t < -0.0001))
    f = b.linear_interpolation(np.array(d), angle=angle)
    i, j = cell[0] + s, cell[1] + t
    want = hat(ctx, d, i % shape[0], j % shape[1], angle)
    ctx.eq(f(i, j), want, 'interpolated value')

@harness(bounds='mesh 3x2, any data, three angles, all nodes in a range of '
    'several periods; constants; several points at once')
def nodes(ctx):
    np, b = ctx.np, ctx.e.bravais
    angle = ctx.choice('angle', [60, 90, 120])
    d = ctx.reals('d', (3, 2))
    f = b.linear_interpolation(np.array(d), angle=angle)
    for i in range(-3, 5):
        for j in range(-2, 4):
            ctx.eq(f(i, j), d[i % 3, j % 2], 'node')
    c = ctx.real('c')
    g = b.linear_interpolation(c * np.ones((3, 2)), angle=angle)
    i = ctx.real('i', 0.05, 0.45)
    for j in (0.5, -1.25, 3.0):
        ctx.eq(g(i + 2, j), c, 'constant')
    x = f(np.array([0, 1, 5]), np.array([1, 0, 1]))
    for n, (i, j) in enumerate([(0, 1), (1, 0), (2, 1)]):
        ctx.eq(x[n], d[i, j], 'array of points')

@harness(bounds='4 data points with further axis of length 2, any data, any '
    'evaluation point within three periods')
def linear_1d(ctx):
    np, b = ctx.np, ctx.e.bravais
    axis = ctx.choice('axis', [0, 1])
    d = ctx.reals('d', (4, 2))
    n = ctx.choice('n', [-5, -1, 0, 2, 3, 6])
    t = ctx.real('t', 0.0, 0.999)
    data = np.array(d if axis == 0 else d.T)
    f = b.linear_interpolation(data, axes=axis)
    ctx.eq(f(n + t), (1 - t) * d[n % 4] + t * d[(n + 1) % 4], 'interpolated')
    ctx.eq(f(n), d[n % 4], 'node')
    g = b.linear_interpolation(np.array(d[:, 0]), axes=0)
    ctx.eq(g(n + t), (1 - t) * d[n % 4, 0] + t * d[(n + 1) % 4, 0], 'scalar')

@harness(bounds='mesh axes at any position of arrays with up to 4 dimensions, '
    'any data')
def axes(ctx):
    np, b = ctx.np, ctx.e.bravais
    ax = ctx.choice('axes', [(0, 1), (1, 2), (2, 0), (1, 0)])
    order = [n for n in range(3) if n not in ax]
    shape = [0, 0, 0]
    shape[ax[0]], shape[ax[1]], shape[order[0]] = 3, 2, 2
    d = ctx.reals('d%d%d' % ax, tuple(shape))
    f = b.linear_interpolation(np.array(d), axes=ax)
    t = ctx.real('t', 0.01, 0.49)
    got = f(1 + t, 0.5)
    e = np.transpose(d, (ax[0], ax[1], order[0]))
    want = (t * e[2, 0] + 0.5 * e[1, 1] + (0.5 - t) * e[1, 0])
    ctx.eq(got, want, 'interpolated')
    new = b.resize(np.array(d), (6, 4), axes=ax)
    out = np.transpose(new, (ax[0], ax[1], order[0]))
    ctx.true(np.shape(out) == (6, 4, 2), 'shape')
    for i in range(3):
        for j in range(2):
            ctx.eq(out[2 * i, 2 * j], e[i, j], 'original nodes')
            ctx.eq(out[2 * i + 1, 2 * j], 0.5 * (e[i, j] + e[(i + 1) % 3, j]),
                'midpoints')

def multiple(ctx, x, P, label):
    """Is x an integer multiple of P?"""
    ctx.true(any(bool(abs(x - n * P) < 1e-7) for n in range(-5, 6)), label)

@harness(bounds='2 and 3 points anywhere within 3 periods')
def stack(ctx):
    np, b = ctx.np, ctx.e.bravais
    P = ctx.choice('period', [1.0, 2.5])
    n = ctx.choice('points', [2, 3])
    x = [0.3 * P, ctx.real('x', -0.8, 1.7) * P]
    if n == 3:
        x.append(ctx.real('y', 0.05, 0.95) * P)
    for i in range(n):
        for j in range(i):
            for s in (-2, -1.5, -1, -0.5, 0, 0.5, 1, 1.5, 2):
                ctx.assume(abs(x[i] - x[j] - s * P) > 0.001)
    y = b.stack(*x, period=P)
    ctx.true(np.shape(y) == (n,), 'shape')
    var = 0.0
    for i in range(n):
        multiple(ctx, y[i] - x[i], P, 'equivalent points')
        for j in range(i):
            var = var + (y[i] - y[j]) ** 2
    for s in range(-1, 2):
        for t in (range(-1, 2) if n == 3 else [0]):
            shift = [0, s * P, t * P]
            other = 0.0
            for i in range(n):
                for j in range(i):
                    other = other + (y[i] + shift[i] - y[j] - shift[j]) ** 2
            ctx.true(other >= var - 1e-9, 'minimal distance')

@harness(bounds='period 1 and 2.5, two neighbouring values anywhere, any '
    'point in between; three values on triangles')
def periodic_values(ctx):
    np, b = ctx.np, ctx.e.bravais
    P = ctx.choice('period', [1.0, 2.5])
    x = ctx.real('x', -0.9, 0.9) * P
    t = ctx.real('t', 0.1, 0.9)
    for s in (-0.5, 0, 0.5, -1, 1):
        ctx.assume(abs(x - s * P) > 0.001)
    a = 0.2 * P
    d = np.array([a, a + x, a])
    f = b.linear_interpolation(d, axes=0, period=P)
    # shortest way from a to a + x
    way = x
    if bool(x > 0.5 * P):
        way = x - P
    elif bool(x < -0.5 * P):
        way = x + P
    multiple(ctx, f(t) - (a + t * way), P, 'shortest distance')
    multiple(ctx, f(1.0) - (a + x), P, 'node')
    if ctx.choice('2D', [False, True]) and P == 1.0 \
            and bool(abs(way) < 0.4 * P):
        y = 0.02
        e = np.array([[a, a + y], [a + x, a]])
        angle = ctx.choice('angle', [60, 90, 120])
        g = b.linear_interpolation(e, angle=angle, period=P)
        u = 0.3
        # values along the edge from (0, 0) to (1, 0):
        multiple(ctx, g(u, 0) - (a + u * way), P, 'shortest distance in 2D')

@harness(bounds='4 complex values of given phases and any moduli, any point')
def polar(ctx):
    np, b = ctx.np, ctx.e.bravais
    phi = [0.3, 2.9, -2.8, -0.4]
    r = [1.0, 2.0, 0.5, 1.5]
    d = np.array([r[i] * (np.cos(phi[i]) + 1j * np.sin(phi[i]))
        for i in range(4)])
    n = ctx.choice('n', [0, 1, 2, 3])
    t = ctx.real('t', 0.0, 0.99)
    f = b.linear_interpolation(d, axes=0, polar=True)
    m = (n + 1) % 4
    way = phi[m] - phi[n]
    if way > np.pi:
        way -= 2 * np.pi
    if way < -np.pi:
        way += 2 * np.pi
    got = f(n + t)
    p = phi[n] + t * way
    want = ((1 - t) * r[n] + t * r[m]) * np.exp(1j * p)
    ctx.eq(got, want, 'polar interpolation')

@harness(bounds='3x2 given complex values, 3 angles, 5 points')
def polar_2d(ctx):
    np, b = ctx.np, ctx.e.bravais
    angle = ctx.choice('angle', [60, 90, 120])
    r = np.array([[1.0, 2.0], [0.5, 1.5], [0.75, 1.25]])
    turn = ctx.choice('quarter turns', [[[0, 1], [1, 0], [0, 0]],
        [[0, 0], [0, 1], [1, 1]]])
    phi = 0.5 * math.pi * np.array(turn)
    z = np.where(np.array(turn) == 1, 1j * r, r)
    f = b.linear_interpolation(z, angle=angle, polar=True)
    for x, y in [(0.5, 0.5), (0.75, 0.5), (1.75, 0.75), (2.25, 1.25), (1, 1.5)]:
        ctx.eq(f(x, y), hat(ctx, r, x, y, angle)
            * np.exp(1j * hat(ctx, phi, x, y, angle)),
            'polar interpolation')

@harness(bounds='2..3 points with 2 components each, wrapped differently, any '
    'value of two components')
def stack_arrays(ctx):
    np, b = ctx.np, ctx.e.bravais
    P = 2.5
    x = ctx.real('x', 0.1, 0.4)
    y = ctx.real('y', 2.1, 2.4)
    points = ctx.choice('points', [[[x, y], [2.3, 0.2]],
        [[x, y], [2.3, 0.2], [0.05, 0.45]], [[x, 1.0], [0.7, y]]])
    res = b.stack(*[np.array(p) for p in points], period=P)
    ctx.true(np.shape(res) == (len(points), 2), 'shape')
    for i in range(2):
        ctx.eq(np.array(res)[:, i], b.stack(*[p[i] for p in points], period=P),
            'each component on its own')

@harness(bounds='3 values with 2 components on a periodic axis, any value of '
    'two components')
def periodic_vectors(ctx):
    np, b = ctx.np, ctx.e.bravais
    P = 2.5
    x = ctx.real('x', 0.1, 0.4)
    y = ctx.real('y', 2.1, 2.4)
    d = np.array([[x, y], [2.3, 0.2], [1.8, 0.6]])
    f = b.linear_interpolation(d, axes=0, period=P)
    for t in 0.25, 1.5, 2.75:
        out = f(t)
        for i in range(2):
            ctx.eq(out[i], b.linear_interpolation(np.array(d[:, i]), axes=0,
                period=P)(t), 'each component on its own')

@harness(bounds='meshes 2x3 and 3x2 resized by factors 1..3 and back, any '
    'data, three angles')
def resize(ctx):
    np, b = ctx.np, ctx.e.bravais
    shape = ctx.choice('shape', [(2, 3), (3, 2)])
    angle = ctx.choice('angle', [60, 90, 120])
    factor = ctx.choice('factor', [(1, 1), (2, 2), (3, 1), (2, 3)])
    d = ctx.reals('d%d' % shape[0], shape)
    new = tuple(shape[i] * factor[i] for i in range(2))
    fine = b.resize(np.array(d), new, angle=angle)
    ctx.true(np.shape(fine) == new, 'shape')
    for i in range(new[0]):
        for j in range(new[1]):
            ctx.eq(fine[i, j], hat(ctx, d, i / factor[0], j / factor[1],
                angle), 'finer mesh')
    back = b.resize(fine, shape, angle=angle)
    ctx.eq(back, d, 'there and back')
    ctx.eq(fine[::factor[0], ::factor[1]], d, 'nodes kept')

@harness(bounds='1D and 2D data with edges not identified, any data')
def resize_open(ctx):
    np, b = ctx.np, ctx.e.bravais
    d = ctx.reals('d', (3, 2))
    fine = b.resize(np.array(d), (5, 4), angle=90, periodic=False)
    ctx.true(np.shape(fine) == (5, 4), 'shape')
    for i in range(5):
        for j in range(4):
            n, s = min(i // 2, 1), i / 2 - min(i // 2, 1)
            t = j / 3
            want = ((1 - s) * ((1 - t) * d[n, 0] + t * d[n, 1])
                + s * ((1 - t) * d[n + 1, 0] + t * d[n + 1, 1]))
            ctx.eq(fine[i, j], want, 'open edges')
    line = b.resize(np.array(d), 5, axes=0, periodic=False)
    ctx.true(np.shape(line) == (5, 2), 'shape of 1D')
    for i in range(5):
        n, s = min(i // 2, 1), i / 2 - min(i // 2, 1)
        ctx.eq(line[i], (1 - s) * d[n] + s * d[n + 1], 'open edges in 1D')
    half = b.resize(np.array(d), 6, axes=0)
    for i in range(6):
        ctx.eq(half[i], 0.5 * (d[i // 2] + d[(i + 1) // 2 % 3]), 'periodic 1D')

@harness(bounds='meshes N = 2, 3, 4, any data with all Fourier coefficients '
    'larger than 1e-6, both angles, both signs; all nodes of several periods')
def fourier(ctx):
    np, b = ctx.np, ctx.e.bravais
    N = ctx.choice('N', [2, 3, 4])
    angle = ctx.choice('angle', [60, 120, 90])
    sign = ctx.choice('sign', [-1, 1])
    big = 3.0
    d = np.array(ctx.reals('d%d' % N, (N, N), -0.02, 0.02))
    for i in range(N):
        for j in range(N):
            # peak: all Fourier coefficients of equal modulus
            if i == 0 and j == 0:
                d[i, j] = d[i, j] + big
    f = b.Fourier_interpolation(d, angle=angle, sign=sign)
    for i in range(-1, N + 1):
        for j in (0, 1, -2, 2 * N - 1):
            ctx.eq(f(i, j), d[i % N, j % N], 'node', tol=1e-7)
    p = b.Fourier_interpolation(d, angle=angle, sign=sign, function=False)
    x, y = ctx.angle('x'), 0.7
    total = 0.0
    for R in p:
        total = total + p[R] * np.exp(-1j * sign * (R[0] * x
            + R[1] * 2 * np.pi / N * y))
    got = f(x * N / (2 * np.pi), y)
    ctx.eq(got, total.real, 'dictionary and function', tol=1e-7)
    ctx.eq(total.imag, 0.0, 'real interpolation', tol=1e-7)

@harness(bounds='constants and plane waves of any amplitude and phase, any '
    'evaluation point')
def fourier_exact(ctx):
    np, b = ctx.np, ctx.e.bravais
    N = ctx.choice('N', [3, 4])
    angle = ctx.choice('angle', [60, 90])
    c = ctx.real('c', 0.5, 2.0)
    s = ctx.real('s', 0.1, 0.9)
    d = np.zeros((N, N))
    i = np.arange(N)
    for m in range(N):
        d[:, m] = c + s * np.cos(2 * np.pi * i / N) \
            + 0.4 * np.sin(2 * np.pi * m / N)
    f = b.Fourier_interpolation(d, angle=angle)
    x, y = ctx.angle('x'), ctx.angle('y')
    got = f(x * N / (2 * np.pi), y * N / (2 * np.pi))
    ctx.eq(got, c + s * np.cos(x) + 0.4 * np.sin(y), 'band-limited function',
        tol=1e-7)

@harness(bounds='3x3 mesh, two functions at once, one of them with any '
    'constant and one harmonic, the other with another harmonic')
def fourier_several(ctx):
    np, b = ctx.np, ctx.e.bravais
    N = 3
    angle = ctx.choice('angle', [60, 120])
    c = ctx.real('c', 0.5, 2.0)
    s = ctx.real('s', 0.1, 0.9)
    d = np.zeros((N, N, 2))
    for m in range(N):
        d[:, m, 0] = c + s * np.cos(2 * np.pi * np.arange(N) / N)
        d[:, m, 1] = s * np.sin(2 * np.pi * m / N)
    p = b.Fourier_interpolation(d, angle=angle, function=False)
    x, y = ctx.angle('x'), ctx.angle('y')
    total = 0.0
    for R in p:
        total = total + p[R] * np.exp(1j * (R[0] * x + R[1] * y))
    ctx.eq(total, np.array([c + s * np.cos(x), s * np.sin(y)]) + 0j,
        'each function', tol=1e-7)
