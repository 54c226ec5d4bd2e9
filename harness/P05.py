"""Symmetry reduction, meshes and paths."""

import math

from symx.harness import harness

DEG = math.pi / 180

def point_group(angle):
    """Matrices acting on mesh indices (reciprocal vectors enclosing the given
    angle), derived from Cartesian rotations and reflections."""
    import numpy as np
    b = np.array([[1.0, 0.0], [math.cos(angle * DEG), math.sin(angle * DEG)]])
    step = 90 if angle == 90 else 60
    ops = []
    for t in range(0, 360, step):
        c, s = math.cos(t * DEG), math.sin(t * DEG)
        rot = np.array([[c, -s], [s, c]])
        for mirror in (False, True):
            m = rot
            if mirror:          # across the bisector of the basis vectors
                h = angle * DEG
                m = rot.dot(np.array([[math.cos(h), math.sin(h)],
                    [math.sin(h), -math.cos(h)]]))
            x = m.dot(b.T)                          # images of basis vectors
            n = np.linalg.solve(b.T, x)             # columns: new indices
            r = np.rint(n).astype(int)
            assert abs(n - r).max() < 1e-9
            ops.append(((t, mirror), r.tolist()))
    return ops

def act(r, k, nk):
    return ((r[0][0] * k[0] + r[0][1] * k[1]) % nk,
        (r[1][0] * k[0] + r[1][1] * k[1]) % nk)

def orbit(k, nk, angle):
    return set(act(r, k, nk) for _, r in point_group(angle))

def orbits(nk, angle):
    """Representative (first in sequence) of each mesh point."""
    rep = {}
    for k1 in range(nk):
        for k2 in range(nk):
            for p in orbit((k1, k2), nk, angle):
                rep.setdefault(p, (k1, k2))
    return rep

def ints(points):
    return set(tuple(int(x) for x in p) for p in points)

@harness(bounds='meshes up to 6 x 6, all points incl. indices outside the '
    'mesh, 60, 90, 120 degrees')
def images(ctx):
    angle = ctx.choice('angle', [60, 90, 120])
    nk = ctx.choice('nk', [1, 2, 3, 4, 5, 6])
    k = ctx.ints('k', (2,), -1, 6)
    ctx.assume(k[0] <= nk)
    ctx.assume(k[1] <= nk)
    k = tuple(ctx.concrete(x) for x in k)
    p = ctx.e.bravais.images(*k, nk=nk, angle=angle)
    ctx.true(ints(p) == orbit((k[0] % nk, k[1] % nk), nk, angle),
        'exactly the symmetry-equivalent points')

@harness(bounds='meshes up to 9 x 9')
def irreducibles(ctx):
    angle = ctx.choice('angle', [60, 90, 120])
    nk = ctx.choice('nk', list(range(1, 10)))
    p = ints(ctx.e.bravais.irreducibles(nk, angle=angle))
    ctx.true(p == set(orbits(nk, angle).values()),
        'first member of every orbit')
    if angle == 60:
        ctx.true(ints(ctx.e.bravais.irreducibles(nk)) == p, 'default angle')

def symmetric(ctx, name, nk, angle):
    np = ctx.np
    rep = orbits(nk, angle)
    F = {p: ctx.real('%s%d_%d' % ((name,) + p)) for p in
        sorted(set(rep.values()))}
    data = ctx.empty((nk, nk))
    for k in rep:
        data[k] = F[rep[k]]
    return data

@harness(bounds='meshes up to 5 x 5, any symmetric data')
def symmetries_full(ctx):
    np = ctx.np
    angle = ctx.choice('angle', [60, 90, 120])
    nk = ctx.choice('nk', [1, 2, 3, 4, 5])
    data = symmetric(ctx, 'F', nk, angle)
    unity = ctx.choice('unity', [True, False])
    found = list(ctx.e.bravais.symmetries(np.array(data), unity=unity,
        angle=angle, epsilon=1e-9))
    ops = [r for _, r in point_group(angle)]
    ctx.true(len(found) == len(ops) - (not unity), 'all symmetries found')
    ctx.true(len(set(name for name, _ in found)) == len(found),
        'all names different')
    maps = []
    for name, image in found:
        m = {(i, j): tuple(int(x) for x in image[i, j]) for i in range(nk)
            for j in range(nk)}
        ctx.true(sorted(m.values()) == sorted(m), 'permutation')
        maps.append(tuple(sorted(m.items())))
    expect = sorted(tuple(sorted(((i, j), act(r, (i, j), nk))
        for i in range(nk) for j in range(nk))) for r in ops)
    if not unity:
        expect.remove(tuple(sorted(((i, j), (i, j)) for i in range(nk)
            for j in range(nk))))
    ctx.true(sorted(maps) == expect, 'operations of the point group')
    if unity:
        ctx.true(found[0][0] == (False, 0), 'identity first')

@harness(bounds='2 x 2 and 3 x 3 meshes, any data (also without symmetry)')
def symmetries_any(ctx):
    np = ctx.np
    angle = ctx.choice('angle', [60, 90, 120])
    nk = ctx.choice('nk', [2, 3])
    if nk == 2:
        data = ctx.reals('F', (2, 2))
    else:
        x = ctx.reals('F', (3,))
        data = ctx.empty((3, 3))
        for i, j in [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2), (2, 0),
                (2, 1), (2, 2)]:
            data[i, j] = x[(i * i + 2 * j) % 3 if i < 2 else 0]
    eps = 0.05
    # stay clear of the tolerance
    flat = [data[i, j] for i in range(nk) for j in range(nk)]
    for i in range(len(flat)):
        for j in range(i):
            d = flat[i] - flat[j]
            if ctx.mode == 'symbolic' and not hasattr(d, 't'):
                continue
            ctx.assume(np.logical_or(d * d < 0.002, d * d > 0.003))
    found = [tuple(tuple(int(x) for x in image[i, j]) for i in range(nk)
        for j in range(nk)) for name, image in ctx.e.bravais.symmetries(
        np.array(data), angle=angle, epsilon=eps)]
    k = [(i, j) for i in range(nk) for j in range(nk)]
    for name, r in point_group(angle):
        image = [act(r, p, nk) for p in k]
        same = True
        for p, P in zip(k, image):
            same = np.logical_and(same, abs(data[p] - data[P]) < eps)
        if tuple(image) in found:
            ctx.true(same, 'reported symmetry holds')
        else:
            ctx.true(np.logical_not(same), 'no symmetry missed')

@harness(bounds='meshes up to 6 x 6, any symmetric data, irreducible wedge or '
    'more known')
def complete(ctx):
    np = ctx.np
    angle = ctx.choice('angle', [60, 90, 120])
    nk = ctx.choice('nk', [1, 2, 3, 4, 6])
    F = symmetric(ctx, 'F', nk, angle)
    # stay away from accidental values
    rep = orbits(nk, angle)
    known = ctx.choice('known', ['first', 'last', 'more', 'all'])
    data = ctx.empty((nk, nk))
    data[...] = float('nan')
    for p in sorted(set(rep.values())):
        members = sorted(q for q in rep if rep[q] == p)
        for q in {'first': members[:1], 'last': members[-1:],
                'more': members[::2], 'all': members}[known]:
            data[q] = F[q]
    ctx.e.bravais.complete(data, angle=angle)
    ctx.eq(data, F, 'completed data')

@harness(bounds='q meshes up to 3 x 3, k meshes up to 3 x 3 (and 4 x 4), any '
    'symmetric data')
def complete_k(ctx):
    np = ctx.np
    nq, nk = ctx.choice('mesh', [(1, 1), (1, 2), (2, 2), (2, 4), (3, 3)])
    ops = [r for _, r in point_group(60)]
    Q = [(i, j) for i in range(nq) for j in range(nq)]
    K = [(i, j) for i in range(nk) for j in range(nk)]
    F = {}
    for q in Q:
        for k in K:
            for r in ops:
                F.setdefault((act(r, q, nq), act(r, k, nk)), (q, k))
    V = {}
    for p in F.values():
        if p not in V:
            V[p] = ctx.real('F%d_%d_%d_%d' % (p[0] + p[1]))
    irr = sorted(set(orbits(nq, 60).values()))
    wedge = ctx.empty((len(irr), nk, nk))
    for i, q in enumerate(irr):
        for k in K:
            wedge[(i,) + k] = V[F[q, k]]
    mesh = ctx.e.bravais.complete_k(np.array(wedge), nq)
    ctx.true(mesh.shape == (nq, nq, nk, nk), 'shape')
    for q in Q:
        for k in K:
            ctx.eq(mesh[q + k], V[F[q, k]], 'data on full mesh')

@harness(bounds='1 to 3 dimensions, up to 5 points each')
def mesh(ctx):
    np = ctx.np
    n = ctx.choice('n', [(1,), (5,), (2, 3), (4, 1), (2, 2, 2), (1, 3, 2)])
    k = ctx.e.bravais.mesh(*n)
    flat = ctx.e.bravais.mesh(*n, flat=True)
    ctx.true(k.shape == n + (len(n),), 'shape')
    import itertools
    all_points = list(itertools.product(*map(range, n)))
    ctx.true(flat.shape == (len(all_points), len(n)), 'flat shape')
    for i, p in enumerate(all_points):
        for x in range(len(n)):
            ctx.eq(k[p + (x,)], 2 * math.pi * p[x] / n[x], 'mesh point')
            ctx.eq(flat[i, x], 2 * math.pi * p[x] / n[x], 'flat mesh point')
    k[...] = 0.0
    ctx.eq(ctx.e.bravais.mesh(*n, flat=True), flat, 'no shared storage')

@harness(bounds='3 corners, segments along 2 axes or diagonals with any '
    'lengths in 0.1..0.9, orthogonal and oblique cells given or '
    'derived from a lattice, densities giving up to 3 points per segment')
def path(ctx):
    np = ctx.np
    u = ctx.real('u', 0.1, 0.9)
    v = ctx.real('v', 0.1, 0.9)
    p, q = ctx.choice('directions', [([1.0, 0.0, 0.0], [0.0, 0.0, -1.0]),
        ([1.0, -1.0, 0.0], [-1.0, 0.5, 1.0])])
    c = [[0.0, 0.1, -0.2]]
    c.append([c[-1][i] + u * p[i] for i in range(3)])
    c.append([c[-1][i] + v * q[i] for i in range(3)])
    N = ctx.choice('N', [0.5, 2.0])
    if ctx.choice('cell', ['given', 'lattice']) == 'given':
        b = np.array([[1.0, 0.0, 0.0], [0.5, 1.2, 0.0], [0.0, 0.1, 0.8]])
        kw = dict(recvec=np.array(b))
    else:
        b = np.diag([1.0, 2.0, 1.0])
        kw = dict(ibrav=8, a=1.0, b=0.5, c=1.0)
    k, x, corners = ctx.e.bravais.path([list(p) for p in c], N=N, **kw)
    c = np.array(c)
    ctx.true(len(corners) == 3 and corners[0] == 0 and corners[2]
        == len(k) - 1 and len(x) == len(k), 'corner indices')
    ctx.eq(x[0], 0.0, 'starts at zero')
    for i in range(3):
        ctx.eq(k[corners[i]], 2 * math.pi * c[i], 'corners visited')
    for i in range(2):
        d = np.dot(c[i + 1] - c[i], b)
        n = corners[i + 1] - corners[i]
        dx = x[corners[i + 1]] - x[corners[i]]
        ctx.eq(dx * dx, np.dot(d, d), 'length of segment')
        ctx.true(dx >= 0, 'increasing')
        # number of points
        ctx.true(np.logical_and(np.logical_or(n <= 1, n <= N * dx + 0.500001),
            n >= N * dx - 0.500001), 'point density')
        for j in range(n + 1):
            ctx.eq(k[corners[i] + j], 2 * math.pi * (c[i] + (c[i + 1] - c[i])
                * (j / n)), 'straight and uniform')
            ctx.eq(x[corners[i] + j], x[corners[i]] + dx * (j / n),
                'arc length')

@harness(bounds='path through Gamma at start, middle, end; any displacement')
def move_gamma(ctx):
    np = ctx.np
    s = ctx.choice('s', [0.1, 0.4])
    m = ctx.real('moveG', 0.001, 0.2)
    o = [0.0, 0.0, 0.0]
    A, B = [s, 0.0, 0.0], [0.0, 0.5, 0.0]
    kw = dict(recvec=np.eye(3), N=4)
    where = ctx.choice('where', ['start', 'middle', 'end'])
    pts = {'start': [o, A, B], 'middle': [A, o, B], 'end': [B, A, o]}[where]
    p = [list(x) for x in pts]
    k, x, corners = ctx.e.bravais.path(np.array(p), moveG=m, **kw)
    K, X, C = ctx.e.bravais.path(np.array(p), **kw)
    t = 2 * math.pi
    if where == 'start':
        ctx.eq(k[0], m * K[1], 'Gamma moved toward neighbor')
        ctx.eq(k[1:], K[1:], 'others kept')
        ctx.eq(x, X, 'arc length kept')
    elif where == 'end':
        ctx.eq(k[-1], m * K[-2], 'Gamma moved toward neighbor')
        ctx.eq(k[:-1], K[:-1], 'others kept')
        ctx.eq(x, X, 'arc length kept')
    else:
        i = C[1]
        ctx.true(len(k) == len(K) + 1, 'Gamma doubled')
        ctx.eq(k[:i], K[:i], 'others kept')
        ctx.eq(k[i + 2:], K[i + 1:], 'others kept')
        ctx.eq(k[i], m * K[i - 1], 'Gamma moved to previous neighbor')
        ctx.eq(k[i + 1], m * K[i + 1], 'Gamma moved to next neighbor')
        ctx.eq(x[i], X[i], 'arc length kept')
        ctx.eq(x[i + 1], X[i], 'arc length kept')

LABELS = {1: 'MRX', 2: 'XLWUK', 3: 'HPN', -3: 'HPN', 4: 'AMLKH', 6: 'XMZRA',
    8: 'XYZSTUR'}

@harness(bounds='labels of lattices whose Brillouin zone has one shape, '
    'any lattice constants in 0.7..1.4')
def labels(ctx):
    """Labelled points lie on the boundary of the first Brillouin zone."""
    np = ctx.np
    ibrav = ctx.choice('ibrav', sorted(LABELS))
    label = ctx.choice('label', list(LABELS[ibrav]))
    kw = dict(a=ctx.real('a', 0.7, 1.4))
    kw['b'] = ctx.real('b', 0.7, 1.4) if ibrav == 8 else kw['a']
    kw['c'] = ctx.real('c', 0.7, 1.4) if ibrav in (4, 6, 8) else kw['a']
    def distances(**kw):
        k, x, corners = ctx.e.bravais.path(['G', label], ibrav=ibrav, N=1,
            **kw)
        ctx.eq(k[0], np.zeros(3), 'Gamma')
        p = k[-1] / (2 * math.pi)
        b = np.array(ctx.e.bravais.reciprocals(*ctx.e.bravais.primitives(
            ibrav=ibrav, **kw)))
        G = np.dot(b, b.T)
        ds = {}
        for i in range(-1, 2):
            for j in range(-1, 2):
                for l in range(-1, 2):
                    if (i, j, l) == (0, 0, 0):
                        continue
                    n = np.array([float(i), float(j), float(l)])
                    # |p - g|^2 - |p|^2
                    ds[i, j, l] = (np.dot(n, np.dot(G, n))
                        - 2 * np.dot(n, np.dot(G, p)))
        return ds
    generic = dict(a=1.01)
    generic['b'] = 1.12 if ibrav == 8 else generic['a']
    generic['c'] = 0.93 if ibrav in (4, 6, 8) else generic['a']
    ref = distances(**generic)
    n = [n for n in ref if abs(ref[n]) < 1e-6]
    ctx.true(len(n) > 0, 'on boundary of Brillouin zone')
    ds = distances(**kw)
    for m in ds:
        if m in n:
            ctx.eq(ds[m], 0.0, 'on boundary of Brillouin zone')
        else:
            ctx.true(ds[m] >= -1e-7, 'within Brillouin zone')

@harness(bounds='alternate descriptions of the same lattice, any lattice '
    'constants')
def labels_alternate(ctx):
    np = ctx.np
    i = ctx.choice('ibrav', [3, 9])
    label = ctx.choice('label', list({3: 'HPN', 9: 'YyZTtSR'}[i]))
    kw = dict(a=ctx.real('a', 0.7, 1.4), b=ctx.real('b', 0.7, 1.4),
        c=ctx.real('c', 0.7, 1.4))
    cart = []
    for ibrav in i, -i:
        k, x, corners = ctx.e.bravais.path(['G', label], ibrav=ibrav, N=0.1,
            **kw)
        b = ctx.e.bravais.reciprocals(*ctx.e.bravais.primitives(ibrav=ibrav,
            **kw))
        cart.append(np.dot(k[-1], np.array(b)))
    if i == 3:      # equivalent by symmetry only
        ctx.eq(np.dot(cart[0], cart[0]), np.dot(cart[1], cart[1]),
            'same distance from Gamma', tol=1e-6)
    else:
        ctx.eq(cart[0], cart[1], 'same point', tol=1e-6)

@harness(bounds='7 densities, both angles, all options')
def gmkg(ctx):
    np = ctx.np
    N = ctx.choice('N', [3, 6, 7, 12, 20, 30])
    angle = ctx.choice('angle', [60, 120])
    straight = ctx.choice('straight', [True, False])
    on_mesh = ctx.choice('mesh', [True, False])
    k, x, corners = ctx.e.bravais.GMKG(N, corner_indices=True, mesh=on_mesh,
        angle=angle, straight=straight, lift_degen=False)
    t = math.pi / 3 if angle == 60 else 2 * math.pi / 3
    b = np.array([[1.0, 0.0], [math.cos(t), math.sin(t)]])
    if angle != 60:
        # reciprocal vectors enclose angle
        pass
    b = b * (2 / 3 ** 0.5)
    K = np.dot(k / (2 * math.pi), b)
    ctx.true(len(k) == len(x) == corners[-1] + 1 and corners[0] == 0,
        'sizes')
    l = [0.0, 1 / 3 ** 0.5, 1 / 3 ** 0.5 + 1 / 3, 1 / 3 ** 0.5 + 1]
    r = [0.0, 1 / 3 ** 0.5, 2 / 3, 0.0]
    for i in range(4):
        ctx.eq(x[corners[i]], l[i], 'arc length at corner')
        ctx.eq(np.dot(K[corners[i]], K[corners[i]]), r[i] ** 2,
            'corner at right distance')
    for i in range(len(x) - 1):
        d = K[i + 1] - K[i]
        dx = x[i + 1] - x[i]
        ctx.true(dx > 0, 'increasing')
        if not (i + 1 == corners[2] and straight):
            ctx.eq(np.dot(d, d), dx * dx, 'arc length is distance')
    if on_mesh and N % 6 == 0:
        m = k * N / (2 * math.pi)
        ctx.eq(m, np.round(m), 'points of mesh')
    full = ctx.e.bravais.GMKG(N, mesh=on_mesh, angle=angle,
        straight=straight)[0]
    ctx.eq(full, k, 'shift at K is infinitesimal', tol=1e-6)
