"""Wigner-Seitz cells and Voronoi cells."""

import itertools
import math

from symx.harness import harness
from symx.common import lattice, elph_model

def shifts(n):
    return list(itertools.product(range(-n, n + 1), repeat=3))

def numeric(name):
    import numpy as np

    class Plain:
        pass
    p = Plain()
    p.np = np
    return np.array(lattice(p, name), dtype=float)

def images_of(m, nr, reach=3):
    """Lattice vectors equivalent to m, any nearby supercell."""
    return [tuple(m[x] + nr[x] * M[x] for x in range(3))
        for M in shifts(reach)]

def regions(at, nr, base, way, lo, hi):
    """Intervals of t in which the set of shortest bonds (for base + way * t)
    does not change and the points in between."""
    import numpy as np
    edges = set()
    for m in itertools.product(*map(range, nr)):
        for sign in 1, -1:
            R = images_of(m, nr)
            v = np.array(R).dot(at)
            for d, w in ((np.array(base), np.array(way)),
                    (-np.array(base), -np.array(way))):
                p = v + d
                # |p + w t|^2 = |p|^2 + 2 t p.w + ...
                c = (p * p).sum(axis=1)
                s = 2 * p.dot(w)
                t = lo
                while True:
                    f = c + s * t
                    # just behind t
                    near = np.where(f < f.min() + 1e-9)[0]
                    i = near[np.argmin(s[near])]
                    nxt = [(c[j] - c[i]) / (s[i] - s[j])
                        for j in range(len(c)) if s[j] < s[i] - 1e-9]
                    nxt = [x for x in nxt if x > t + 1e-9]
                    if not nxt or min(nxt) > hi:
                        break
                    t = min(nxt)
                    edges.add(round(t, 9))
    edges = sorted(edges)
    points = [lo] + edges + [hi]
    out = []
    for a, b in zip(points[:-1], points[1:]):
        if b - a > 0.02:
            out.append((a + 0.004, b - 0.004))
    out.extend((x, x) for x in edges)
    return out

SETUPS = [
    # lattice, mesh, fixed part of the bond, direction in which it grows
    ('cubic', (2, 1, 1), (0.1, 0.2, 0.0), (1.0, 0.0, 0.0)),
    ('cubic', (2, 2, 1), (0.0, 0.0, 0.3), (1.0, 1.0, 0.0)),
    ('ortho', (1, 3, 1), (0.0, 0.0, 0.0), (0.0, 1.0, 0.0)),
    ('hex', (2, 2, 1), (0.0, 0.0, 0.0), (1.0, 0.0, 0.0)),
    ('hex', (3, 1, 1), (0.5, 0.0, 0.0), (0.0, 1.0, 0.0)),
    ('hex60', (2, 2, 1), (0.0, 0.0, 0.0), (0.0, 0.5, 0.0)),
    ('fcc', (2, 1, 1), (0.1, 0.0, 0.0), (0.0, 0.0, 0.5)),
    ('tric', (1, 2, 1), (0.2, 0.1, 0.0), (0.0, 1.0, 0.0)),
    ('tric', (1, 1, 2), (0.0, 0.0, 0.0), (0.0, 0.0, 1.0)),
    ('cubic', (3, 1, 1), (2.7, 0.0, 0.0), (1.0, 0.0, 0.0)),
    ('ortho', (1, 2, 1), (0.0, 1.8, 0.3), (0.0, 1.0, 0.0)),
]

_REGIONS = {}

def bond_length2(np, at, R, d):
    v = [sum(R[x] * float(at[x][y]) for x in range(3)) + d[y]
        for y in range(3)]
    return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]

@harness(bounds='cubic, orthorhombic, hexagonal, fcc, triclinic lattices, '
    'meshes up to 2 x 2 or 3, two sites at any distance along one direction '
    '(0..0.85 or up to 3.5), one or two sets of sites, both signs', budget=400)
def selection(ctx):
    """Exactly the shortest bonds among all images are selected."""
    np = ctx.np
    setup = ctx.choice('setup', SETUPS)
    lat, nr, base, way = setup
    at = numeric(lat)
    if setup not in _REGIONS:
        _REGIONS[setup] = regions(at, nr, base, way, 0.0, 0.85)
    region = ctx.choice('region' + lat + '%d%d%d' % nr, _REGIONS[setup])
    lo, hi = region
    t = lo if lo == hi else ctx.real('t%d_%.6f' % (SETUPS.index(setup), lo), lo,
        hi)
    d = [base[x] + way[x] * t for x in range(3)]
    sgn, two = ctx.choice('variant', [(1, False), (-1, False), (1, True)])
    tau = np.array([[0.0, 0.0, 0.0], d])
    if two:
        tau2 = np.array([[d[0], d[1], d[2]]])
        got = ctx.e.bravais.wigner(*nr, np.array(at), tau, tau2, sgn=sgn)
        pairs = {(0, 0): d, (1, 0): [0.0, 0.0, 0.0]}
        shape = (2, 1)
    else:
        got = ctx.e.bravais.wigner(*nr, np.array(at), tau, sgn=sgn)
        pairs = {(0, 0): [0.0] * 3, (1, 1): [0.0] * 3, (0, 1): d,
            (1, 0): [-x for x in d]}
        shape = (2, 2)
    irvec, ndegen, wslen = got
    R = [tuple(int(x) for x in r) for r in irvec]
    ctx.true(len(set(R)) == len(R), 'no lattice vector twice')
    ctx.true(ndegen.shape == wslen.shape == (len(R), *shape), 'shapes')
    for m in itertools.product(*map(range, nr)):
        mine = [n for n in range(len(R)) if all((R[n][x] - sgn * m[x])
            % nr[x] == 0 for x in range(3))]
        every = images_of([sgn * x for x in m], nr)
        for (i, j), bond in pairs.items():
            chosen = [n for n in mine if int(ndegen[n, i, j]) != 0]
            ctx.true(len(chosen) > 0, 'image selected')
            ctx.true(all(int(ndegen[n, i, j]) == len(chosen)
                for n in chosen), 'degeneracy is number of images')
            if not chosen:
                continue
            Q = bond_length2(np, at, R[chosen[0]], bond)
            for n in chosen:
                ctx.eq(wslen[n, i, j] * wslen[n, i, j], bond_length2(np, at,
                    R[n], bond), 'length of bond', tol=1e-6)
                ctx.true(wslen[n, i, j] >= 0, 'positive length')
            sel = set(R[n] for n in chosen)
            for r in every:
                diff = bond_length2(np, at, r, bond) - Q
                if r in sel:
                    ctx.true(abs(diff) < 1e-5, 'selected bonds equally long')
                else:
                    ctx.true(diff > 1e-9, 'other bonds longer')
    for n in range(len(R)):
        for i, j in pairs:
            if not int(ndegen[n, i, j]):
                ctx.eq(wslen[n, i, j], 0.0, 'no length without bond')

def shortest(at, nr, m, d, tol=1e-6):
    import numpy as np
    R = images_of(m, nr)
    l = [float(np.linalg.norm(np.array(r).dot(at) + np.array(d))) for r in R]
    return [r for r, x in zip(R, l) if x < min(l) + tol]

SITES = {
    'cubic': [[0.0, 0.0, 0.0], [0.3, 0.2, 0.1]],
    'hex': [[0.0, 0.0, 0.0], [0.0, 1 / 3 ** 0.5, 0.5]],
    'hex60': [[0.1, 0.0, 0.0], [0.5, 0.5 / 3 ** 0.5, 0.0]],
    'tric': [[0.0, 0.0, 0.0], [0.5, 0.4, 0.7]],
    'fcc': [[0.0, 0.0, 0.0], [0.25, 0.25, 0.25]],
}

@harness(bounds='5 lattices, meshes up to 2 x 2 or 3, 2 sites, any complex '
    'data, with and without Cartesian indices, both signs')
def short_range(ctx):
    """Data on the mesh is put on the shortest bonds."""
    np = ctx.np
    lat = ctx.choice('lattice', sorted(SITES))
    nr = ctx.choice('mesh', [(1, 1, 1), (2, 1, 1), (2, 2, 1), (1, 3, 1)])
    sgn = ctx.choice('sgn', [1, -1])
    c = ctx.choice('ncart', [0, 2])
    tau = SITES[lat]
    data = ctx.cplxs('d%s%d%d%d' % (c, *nr), (2, 2, *nr) + (c, c) * (c > 0))
    at = numeric(lat)
    R, const, l = ctx.e.bravais.short_range_model(np.array(data),
        np.array(at), np.array(tau), sgn=sgn)
    c = c or 1
    data = data.reshape((2, 2, *nr, c, c))
    R = [tuple(int(x) for x in r) for r in R]
    ctx.true(len(set(R)) == len(R) and const.shape == (len(R), 2 * c, 2 * c),
        'shape')
    expect = {}
    for m in itertools.product(*map(range, nr)):
        for i in range(2):
            for j in range(2):
                d = [tau[j][x] - tau[i][x] for x in range(3)]
                best = shortest(at, nr, [sgn * x for x in m], d)
                for r in best:
                    expect[r, i, j] = data[i, j, m[0], m[1], m[2]] / len(best)
    ctx.true(set(r for r, i, j in expect) == set(R), 'lattice vectors')
    for n, r in enumerate(R):
        for i in range(2):
            for j in range(2):
                ctx.eq(const[n, i * c:i * c + c, j * c:j * c + c],
                    expect.get((r, i, j), np.zeros((c, c))),
                    'data on shortest bonds')

@harness(bounds='cubic, hexagonal, triclinic lattices, meshes 2, 2 x 2, 3, '
    '2 orbitals, any matrices')
def electrons(ctx):
    """Hoppings connect orbital i in cell 0 and the nearest image of j."""
    np = ctx.np
    lat = ctx.choice('lattice', ['cubic', 'hex', 'tric'])
    nk = ctx.choice('mesh', [(2, 1, 1), (2, 2, 1), (3, 1, 1)])
    tau, at = SITES[lat], numeric(lat)
    H = ctx.cplxs('H%d%d%d' % nk, (*nk, 2, 2))
    el = ctx.e.el.Model()
    ctx.e.el.k2r(el, np.array(H), np.array(at), np.array(tau))
    check(ctx, el.R, el.data, H, nk, at, tau, 1)

@harness(bounds='cubic, hexagonal lattices, meshes 2, 2 x 2, any matrices '
    'belonging to real force constants')
def phonons(ctx):
    np = ctx.np
    lat = ctx.choice('lattice', ['cubic', 'hex'])
    nq = ctx.choice('mesh', [(2, 1, 1), (2, 2, 1)])
    tau, at = SITES[lat], numeric(lat)
    # time-reversal invariant points only: real matrices
    D = ctx.reals('D%d%d%d' % nq, (*nq, 6, 6))
    ph = ctx.e.ph.Model(amass=np.ones(2), at=np.array(at), tau=np.array(tau),
        atom_order=['A', 'B'])
    ctx.e.ph.q2r(ph, D_full=np.array(D), nq=nq)
    check(ctx, ph.R, ph.data, D, nq, at, tau, 3)

@harness(bounds='cubic, hexagonal lattices, meshes 2, 2 x 2, any matrices')
def interaction(ctx):
    np = ctx.np
    lat = ctx.choice('lattice', ['cubic', 'hex'])
    nq = ctx.choice('mesh', [(2, 1, 1), (2, 2, 1)])
    tau, at = SITES[lat], numeric(lat)
    W = ctx.cplxs('W%d%d%d' % nq, (*nq, 2, 2))
    elel = ctx.e.elel.Model()
    ctx.e.elel.q2r(elel, np.array(W), np.array(at), np.array(tau))
    check(ctx, elel.R, elel.data, W, nq, at, tau, 1)

def inverse_fourier(ctx, mesh, nk, R):
    """Sum over mesh points of exp(-i k R) / N times the data."""
    np = ctx.np
    N = nk[0] * nk[1] * nk[2]
    out = 0.0
    for p in itertools.product(*map(range, nk)):
        phi = -2 * math.pi * sum(p[x] * R[x] / nk[x] for x in range(3))
        out = out + mesh[p] * complex(math.cos(phi), math.sin(phi)) / N
    return out

def check(ctx, Rs, data, mesh, nk, at, tau, c):
    np = ctx.np
    Rs = [tuple(int(x) for x in r) for r in Rs]
    expect = {}
    for m in itertools.product(*map(range, nk)):
        f = inverse_fourier(ctx, mesh, nk, m)
        for i in range(len(tau)):
            for j in range(len(tau)):
                d = [tau[j][x] - tau[i][x] for x in range(3)]
                best = shortest(at, nk, m, d)
                for r in best:
                    expect[r, i, j] = f[i * c:i * c + c, j * c:j * c + c] \
                        / len(best)
    seen = set()
    for n, r in enumerate(Rs):
        for i in range(len(tau)):
            for j in range(len(tau)):
                e = expect.get((r, i, j))
                block = data[n, i * c:i * c + c, j * c:j * c + c]
                if e is None:
                    ctx.eq(block, np.zeros((c, c)), 'nothing on long bonds')
                else:
                    ctx.eq(block, e, 'short bonds')
                    seen.add((r, i, j))
    ctx.true(seen == set(expect), 'all short bonds present')

@harness(bounds='cubic and hexagonal lattice, q and k meshes 2 and 1, 2 '
    'atoms, 2 orbitals, any coupling')
def coupling(ctx):
    """Bonds from final orbital in cell 0 to displaced atom and to initial
    orbital are the shortest ones."""
    np = ctx.np
    lat = ctx.choice('lattice', ['cubic', 'hex'])
    nq, nk = ctx.choice('mesh', [((2, 1, 1), (2, 1, 1)), ((2, 1, 1),
        (1, 1, 1)), ((1, 1, 1), (1, 2, 1)), ((1, 2, 1), (2, 1, 1))])
    at, tau = numeric(lat), SITES[lat]
    r = [[0.0, 0.0, 0.0], [tau[1][0], tau[1][1] * 0.5, 0.3]]
    g = ctx.cplxs('g' + ''.join(map(str, nq + nk)), (*nq, 6, *nk, 2, 2))
    # one displacement per atom is enough
    for x in (1, 2, 4, 5):
        g[:, :, :, x] = g[:, :, :, x - x % 3]
    elph, _ = elph_model(ctx, [(0, 0, 0)], [(0, 0, 0)], 2, 2, a=np.array(at),
        r=np.array(tau))
    ctx.e.elph.q2r(elph, nq, nk, np.array(g), r=np.array(r))
    Rg = [tuple(int(x) for x in R) for R in elph.Rg]
    Rk = [tuple(int(x) for x in R) for R in elph.Rk]
    best_k, best_g = {}, {}
    for m in itertools.product(*map(range, nk)):
        for a in range(2):
            for b in range(2):
                d = [r[b][x] - r[a][x] for x in range(3)]
                s = shortest(at, nk, m, d)
                for R in s:
                    best_k[R, a, b] = len(s)
    for m in itertools.product(*map(range, nq)):
        for a in range(2):
            for X in range(2):
                d = [tau[X][x] - r[a][x] for x in range(3)]
                s = shortest(at, nq, m, d)
                for R in s:
                    best_g[R, a, X] = len(s)
    ctx.true(set(R for R, a, b in best_k) == set(Rk), 'k lattice vectors')
    ctx.true(set(R for R, a, b in best_g) == set(Rg), 'q lattice vectors')
    N = nq[0] * nq[1] * nq[2] * nk[0] * nk[1] * nk[2]
    for ig, G in enumerate(Rg):
        for ik, K in enumerate(Rk):
            f = 0.0
            for q in itertools.product(*map(range, nq)):
                for k in itertools.product(*map(range, nk)):
                    phi = -2 * math.pi * sum(q[x] * G[x] / nq[x]
                        + k[x] * K[x] / nk[x] for x in range(3))
                    f = f + g[q + (slice(None),) + k] * complex(
                        math.cos(phi), math.sin(phi)) / N
            for x in (0, 3):
                for a in range(2):
                    for b in range(2):
                        n = best_g.get((G, a, x // 3), 0) \
                            * best_k.get((K, a, b), 0)
                        ctx.eq(elph.data[ig, x, ik, a, b],
                            f[x, a, b] / n if n else 0.0,
                            'coupling on short bonds')

def loeschian(a, b, angle):
    return a * a + b * b + {60: 1, 90: 0, 120: -1}[angle] * a * b

@harness(bounds='meshes 1..4, any mesh indices in -5..5, origin or cell '
    'shifted along one axis by any value in 0..0.5, 60, 90, 120 degrees',
    budget=300)
def voronoi(ctx):
    np = ctx.np
    angle = ctx.choice('angle', [60, 90, 120])
    nk = ctx.choice('nk', [1, 2, 3, 4])
    kind = ctx.choice('shift', ['none', 'first', 'second'])
    k1 = ctx.concrete(ctx.int('k1', -5, 5))
    k2 = ctx.choice('k2', [0, 1, 6])
    d1 = d2 = 0
    if kind != 'none':
        d = ctx.real('d', 0.01, 0.5)
        d1, d2 = (d, 0.2) if kind == 'first' else (0.1, d)
    every = [(k1 % nk + nk * x, k2 % nk + nk * y) for x in range(-3, 4)
        for y in range(-3, 4)]
    eps = 1e-6
    if kind != 'none':
        # no accidental degeneracy
        f = [loeschian(a - d1, b - d2, angle) for a, b in every]
        near = [x for x in range(len(every)) if loeschian(every[x][0] - 0.2,
            every[x][1] - 0.2, angle) < 4.0 * nk * nk]
        for x in near:
            for y in near:
                if x < y:
                    e = f[x] - f[y]
                    if ctx.mode == 'symbolic' and not hasattr(e, 't'):
                        continue
                    ctx.assume(np.logical_or(e > 1e-4, e < -1e-4))
    got = ctx.e.bravais.to_Voronoi(k1, k2, nk, angle=angle, dk1=d1, dk2=d2,
        epsilon=eps)
    got = set((int(a), int(b)) for a, b in got)
    ctx.true(len(got) > 0, 'some point')
    ctx.true(got <= set(every), 'equivalent points')
    ref = min(got)
    q = loeschian(ref[0] - d1, ref[1] - d2, angle)
    for a, b in every:
        diff = loeschian(a - d1, b - d2, angle) - q
        if (a, b) in got:
            ctx.true(abs(diff) <= 2 * eps, 'same distance')
        else:
            ctx.true(diff > 0, 'other images farther away')

@harness(bounds='meshes 1..7, all angles')
def cell(ctx):
    np = ctx.np
    angle = ctx.choice('angle', [60, 90, 120])
    nk = ctx.choice('nk', [1, 2, 3, 4, 5, 6, 7])
    irvec, ndegen, wslen = ctx.e.bravais.wigner_2d(nk, angle=angle)
    R = [tuple(int(x) for x in r) for r in irvec]
    ctx.true(len(set(R)) == len(R) == len(ndegen) == len(wslen), 'sizes')
    total = {}
    for r, n, l in zip(R, ndegen, wslen):
        q = min(loeschian(r[0] + nk * x, r[1] + nk * y, angle)
            for x in range(-3, 4) for y in range(-3, 4))
        ctx.true(q == loeschian(*r, angle), 'shortest image')
        ctx.eq(l * l, q, 'length')
        n = int(n)
        ctx.true(n == sum(loeschian(r[0] + nk * x, r[1] + nk * y, angle) == q
            for x in range(-3, 4) for y in range(-3, 4)), 'degeneracy')
        key = r[0] % nk, r[1] % nk
        total[key] = total.get(key, 0) + 1 / n
    ctx.true(len(total) == nk * nk and all(abs(x - 1) < 1e-9
        for x in total.values()), 'every point once')
