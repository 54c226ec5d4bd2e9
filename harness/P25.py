"""Coupling sampled or transformed, in any history of calls."""

import itertools
import math

from symx.harness import harness
from symx.spectra import Spectra, unitary, levels
from symx.common import (elph_model, el_model, ph_model, double_fourier,
    dagger, lattice)

RG = [(0, 0, 0), (1, 0, 0), (0, -1, 0)]
RK = [(-1, 0, 0), (0, 0, 0), (0, 1, 0)]

def current(ctx, elph, q, k):
    """Double Fourier sum of data stored right now."""
    R = [tuple(int(x) for x in r) for r in elph.Rg]
    S = [tuple(int(x) for x in r) for r in elph.Rk]
    out = double_fourier(ctx, R, S, elph.data, q, k)
    return out + ctx.np.zeros(elph.data.shape[1:2] + elph.data.shape[3:])

def fresh(ctx, n=1, RG=RG, RK=RK):
    np = ctx.np
    R0 = np.zeros((1, 3), dtype=int)
    el = el_model(ctx, R0, np.ones((1, n, n)))
    ph = ph_model(ctx, R0, np.ones((1, 3, 3)))
    return elph_model(ctx, RG, RK, 1, n, el=el, ph=ph)

OPERATIONS = ['other q', 'other k', 'asr', 'standardize', 'symmetrize',
    'replace', 'supercell', 'sample']

def operate(ctx, elph, op, q, k):
    np = ctx.np
    if op == 'other q':
        elph.g(q[1], q[0], q[2], *k)
    elif op == 'other k':
        elph.g(*q, k[1], k[2], k[0])
    elif op == 'asr':
        elph.asr(report=False)
    elif op == 'standardize':
        elph.standardize()
    elif op == 'symmetrize':
        elph.symmetrize()
    elif op == 'replace':
        g = np.array([math.sin(n * n + 1) + 1j * math.cos(3 * n)
            for n in range(48)]).reshape((4, 3, 4, 1, 1))
        ctx.e.elph.q2r(elph, (2, 2), (2, 2), g, r=np.zeros((1, 3)))
    elif op == 'supercell':
        elph.supercell(2, 1, 1).g(*q, *k)
    elif op == 'sample':
        elph.sample([(0.0, math.pi), (math.pi, 0.0)], 2)

@harness(bounds='1 atom, 1 orbital, 3x3 lattice vectors, any data; points '
    'closer to the previous one than default tolerances of comparisons')
def near(ctx):
    np = ctx.np
    elph, _ = fresh(ctx, 1)
    data = np.zeros((3, 3, 3, 1, 1)) + 0j
    data[:, 0] = ctx.reals('d', (3, 3, 1, 1), 0.2, 1.0)
    elph.data[...] = data
    q, k = [0.5, -1.25, 0.75], [1.5, 0.25, -0.5]
    step = ctx.choice('step', [(1, 0), (0, 1), (1, 2)])
    x = ctx.choice('size', [1e-6, -1e-8, 0.25])
    for n in range(3):
        ctx.eq(elph.g(*q, *k), current(ctx, elph, q, k), 'coupling',
            tol=1e-11)
        q[n % 2] += step[0] * x
        k[n % 2] += step[1] * x

@harness(bounds='1 atom, 1 orbital, 2x2 lattice vectors, any data; all '
    'sequences of two operations out of 8 between evaluations at same q')
def history(ctx):
    np = ctx.np
    elph, _ = fresh(ctx, 1, RG[:2], RK[:2])
    data = np.zeros((2, 3, 2, 1, 1)) + 0j
    data[:, 0] = ctx.reals('d', (2, 2, 1, 1), 0.2, 1.0)
    data[:, 2, 1] = 0.3
    elph.data[...] = data
    q, k = (0.3, -0.7, 0.1), (1.1, 0.2, -0.5)
    first = ctx.choice('first', OPERATIONS)
    second = ctx.choice('second', OPERATIONS)
    ctx.eq(elph.g(*q, *k), current(ctx, elph, q, k), 'at first')
    operate(ctx, elph, first, q, k)
    ctx.eq(elph.g(*q, *k), current(ctx, elph, q, k), 'after one operation')
    operate(ctx, elph, second, q, k)
    ctx.eq(elph.g(*q, *k), current(ctx, elph, q, k), 'after two operations')

@harness(bounds='1 atom, 2 orbitals, any data, any q and k: three requests '
    'with every pattern of equal and different components')
def requests(ctx):
    np = ctx.np
    elph, data = fresh(ctx, 2)
    q = [ctx.angle('q%d' % i) for i in range(3)]
    p = [q[i] + 0.7 * (i + 1) for i in range(3)]
    k = [ctx.angle('k%d' % i) for i in range(3)]
    same = ctx.choice('same', list(itertools.product([0, 1], repeat=3)))
    r = [q[i] if same[i] else p[i] for i in range(3)]
    a = elph.g(*q, *k)
    b = elph.g(*r, *k)
    c = elph.g(*q, *k)
    ctx.eq(a, double_fourier(ctx, RG, RK, data, q, k), 'first request')
    ctx.eq(b, double_fourier(ctx, RG, RK, data, r, k), 'second request')
    ctx.eq(c, a, 'first request repeated')
    # results are not shared with the caller:
    c *= 0
    ctx.eq(elph.g(*q, *k), a, 'result overwritten by caller')

@harness(bounds='model whose data change from Hermitian to transposed etc., '
    '1 atom, 2 orbitals, any data, any q and k')
def exchange(ctx):
    """g(q, k)^+ = g(-q, k + q) after symmetrization."""
    np = ctx.np
    el = el_model(ctx, np.zeros((1, 3), dtype=int), np.ones((1, 2, 2)))
    ph = ph_model(ctx, np.zeros((1, 3), dtype=int), np.ones((1, 3, 3)))
    elph, data = elph_model(ctx, [(0, 0, 0), (1, 0, 0)],
        [(0, 0, 0), (0, 1, -1)], 1, 2, el=el, ph=ph)
    q = [ctx.angle('q%d' % i) for i in range(3)]
    k = [ctx.angle('k%d' % i) for i in range(3)]
    kq = [k[i] + q[i] for i in range(3)]
    m = [-x for x in q]
    raw = elph.g(*q, *k)
    raw2 = elph.g(*m, *kq)
    elph.symmetrize()
    a = elph.g(*q, *k)
    b = elph.g(*m, *kq)
    ctx.eq(a, dagger(ctx, b), 'exchange symmetry')
    ctx.eq(a, 0.5 * (raw + dagger(ctx, raw2)), 'symmetric part')

# -- sampling

def modes(ctx, shape, name, squared):
    """Arbitrary complex coefficients (need not be orthogonal)."""
    if not squared:
        return ctx.cplxs(name, shape)
    out = ctx.np.empty(shape, dtype=complex)
    for n, i in enumerate(itertools.product(*map(range, shape))):
        out[i] = math.cos(n * n + len(name)) + 1j * math.sin(3 * n + 1)
    return out

MESHES = [
    ((2, 2), [(1, 1), (0, 1)]),
    ((3,), [(2,), (-1,), (4,)]),
    ((2, 3), [(-1, 5)]),
    ((1, 2, 2), [(0, 1, 1), (0, 0, 1)]),
]

KINDS = [
    # electrons, phonons, squared, number of k points given
    (0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 1), (1, 1, 0, 0), (1, 1, 1, 0),
    (0, 0, 1, 1), (0, 1, 1, 1), (1, 0, 1, 1), (2, 0, 0, 0), (2, 2, 1, 0),
]

@harness(bounds='4 meshes in 1..3 dimensions, requested q points in any '
    'order and period, 10 combinations of orbital/band basis (also fewer '
    'bands than orbitals) and modulus squared; any coupling and eigenvectors')
def sampled(ctx):
    np = ctx.np
    nk, Q = ctx.choice('mesh', MESHES)
    bnd, mode, squared, given = ctx.choice('kind', KINDS)
    square = len(set(nk)) == 1
    d = len(nk)
    nel, nph = 2, 2
    g0 = ctx.cplxs('g', (3, nph, nel, nel))

    def g(q1=0, q2=0, q3=0, k1=0, k2=0, k3=0, broadcast=True, comm=None):
        return (g0[0] + g0[1] * (q1 + 2 * q2 - q3)
            + g0[2] * (k1 - 3 * k2 + k3 * q1 + 0.5 * k3))

    q = [tuple(2 * math.pi * x / n for x, n in zip(p, nk)) for p in Q]
    nb = 1 if bnd == 2 else nel
    nm = 1 if mode == 2 else nph
    U = modes(ctx, nk + (nel, nb), 'U', squared) if bnd else None
    u = modes(ctx, (len(Q), nph, nm), 'u', squared) if mode else None
    kw = dict(U=U, u=u, squared=bool(squared))
    if given:
        kw['nk'] = nk[0] if square else nk
    elif ctx.choice('both', [False, True]):
        kw['nk'] = nk
    if U is None:
        kw['nk'] = nk[0] if square else nk
    before = g0.copy()
    r = ctx.e.elph.sample(g, q, **kw)
    ctx.true(tuple(r.shape) == (len(Q), nm if mode else nph) + nk
        + (nb if bnd else nel,) * 2, 'shape')
    ctx.eq(g0, before, 'coupling not modified')
    for i, p in enumerate(Q):
        for k in itertools.product(*map(range, nk)):
            x = [2 * math.pi * a / n for a, n in zip(k, nk)] + [0.0] * (3 - d)
            want = g(*q[i], *[0.0] * (3 - d), *x)
            if bnd:
                kq = tuple((a + b) % n for a, b, n in zip(k, p, nk))
                want = np.array([np.dot(np.dot(np.conj(U[kq]).T, want[v]),
                    U[k]) for v in range(nph)])
            if mode:
                new = []
                for v in range(nm):
                    s = 0.0
                    for y in range(nph):
                        s = s + want[y] * u[i, y, v]
                    new.append(s)
                want = np.array(new)
            if squared:
                want = want.real ** 2 + want.imag ** 2
            ctx.eq(r[(i, slice(None)) + k], want + 0.0, 'coupling at q, k')

@harness(bounds='model with 1 atom, 2 orbitals, 2x2 and 1x3 mesh, any data')
def sampled_model(ctx):
    """Sampling agrees with evaluation point by point."""
    np = ctx.np
    elph, data = fresh(ctx, 2)
    nk, Q = ctx.choice('mesh', [((2, 2), [(1, 1), (0, 1), (1, 1)]),
        ((1, 3), [(0, 2), (0, 1)])])
    q = [tuple(2 * math.pi * x / n for x, n in zip(p, nk)) for p in Q]
    warm = ctx.choice('warm', [False, True])
    if warm:
        elph.g(*q[-1])
    r = elph.sample(q, nk)
    for i in range(len(Q)):
        for k in itertools.product(*map(range, nk)):
            x = [2 * math.pi * a / n for a, n in zip(k, nk)] + [0.0]
            ctx.eq(r[(i, slice(None)) + k], double_fourier(ctx, RG, RK, data,
                list(q[i]) + [0.0], x), 'coupling at q, k')

@harness(bounds='stored coupling on 2x2 mesh, 2 q points, any coupling and '
    'eigenvectors, all combinations of basis and modulus squared')
def transformed(ctx):
    np = ctx.np
    bnd, mode, squared, _ = ctx.choice('kind', KINDS)
    nel, nph, nk = 2, 3, 2
    Q = [(1, 0), (1, 1)]
    q = [tuple(math.pi * x for x in p) for p in Q]
    nb = 1 if bnd == 2 else nel
    nm = 2 if mode == 2 else nph
    g = ctx.cplxs('g', (2, nph, nk, nk, nel, nel))
    U = modes(ctx, (nk, nk, nel, nb), 'U', squared) if bnd else None
    u = modes(ctx, (2, nph, nm), 'u', squared) if mode else None
    before = g.copy()
    r = ctx.e.elph.transform(g, q, nk, U=U, u=u, squared=bool(squared))
    ctx.eq(g, before, 'input kept')
    for i, p in enumerate(Q):
        for k in itertools.product(range(nk), repeat=2):
            want = before[(i, slice(None)) + k]
            if bnd:
                kq = tuple((a + b) % nk for a, b in zip(k, p))
                want = np.array([np.dot(np.dot(np.conj(U[kq]).T, want[v]),
                    U[k]) for v in range(nph)])
            if mode:
                new = []
                for v in range(nm):
                    s = 0.0
                    for y in range(nph):
                        s = s + want[y] * u[i, y, v]
                    new.append(s)
                want = np.array(new)
            if squared:
                want = want.real ** 2 + want.imag ** 2
            ctx.eq(r[(i, slice(None)) + k], want + 0.0, 'coupling at q, k')

@harness(bounds='stored coupling, 2x1 points, any values')
def stored(ctx):
    """A user function may return (views of) stored arrays."""
    np = ctx.np
    g0 = ctx.cplxs('g', (2, 3, 1, 1))
    before = g0.copy()

    def g(q1=0, q2=0, q3=0, k1=0, k2=0, k3=0, broadcast=True, comm=None):
        return g0[0] if k1 < 1 else g0[1]

    r = ctx.e.elph.sample(g, [(0.0, 0.0), (math.pi, 0.0)], 2, squared=True)
    ctx.eq(g0, before, 'stored coupling not modified')
    for i in range(2):
        for a in range(2):
            for b in range(2):
                x = before[a]
                ctx.eq(r[i, :, a, b], x.real ** 2 + x.imag ** 2,
                    'modulus squared')

@harness(bounds='1 atom, 2 orbitals, any levels and eigenvectors at k and '
    'k + q, any modes, any coupling')
def band_basis(ctx):
    """Matrix elements between bands and for modes."""
    np = ctx.np
    S = Spectra(ctx)
    elph, data = fresh(ctx, 2)
    q, k = (0.3, -0.7, 0.1), (1.1, 0.2, -0.5)
    U = {}
    for name in ('k', 'kq'):
        U[name] = levels(ctx, name), unitary(ctx, ctx.angle(name + 't'),
            ctx.angle(name + 'p'))
    kq = [a + b for a, b in zip(q, k)]

    def H(k1=0, k2=0, k3=0):
        x = (k1, k2, k3)
        for name, y in (('k', k), ('kq', kq)):
            if max(abs(a - b) for a, b in zip(x, y)) < 1e-9:
                return S.matrix(*U[name])
        raise ValueError

    V = np.zeros((3, 3)) + 0j
    V[:2, :2] = unitary(ctx, ctx.angle('ut'), ctx.angle('up'))
    V[2, 2] = 1.0

    def D(q1=0, q2=0, q3=0):
        if max(abs(a - b) for a, b in zip((q1, q2, q3), q)) > 1e-9:
            raise ValueError
        return S.matrix([0.1, 0.2, 0.3], V)

    elph.el.H = H
    elph.ph.D = D
    what = ctx.choice('basis', ['bands', 'modes', 'both'])
    g = elph.g(*q, *k, elbnd=what != 'modes', phbnd=what != 'bands')
    ref = double_fourier(ctx, RG, RK, data, q, k)
    if what != 'modes':
        Uk = np.linalg.eigh(H(*k))[1]
        Ukq = np.linalg.eigh(H(*kq))[1]
        ref = np.array([np.dot(np.dot(np.conj(Ukq).T, ref[x]), Uk)
            for x in range(3)])
    if what != 'bands':
        V = np.linalg.eigh(D(*q))[1]
        new = []
        for v in range(3):
            s = 0.0
            for x in range(3):
                s = s + ref[x] * V[x, v]
            new.append(s)
        ref = np.array(new)
    ctx.eq(g - ref, np.zeros((3, 2, 2)), 'coupling in given basis')

@harness(bounds='1 atom, 1 orbital, 2x1 meshes, any data')
def cleared(ctx):
    np = ctx.np
    elph, data = fresh(ctx)
    q, k = (0.3, -0.7, 0.1), (1.1, 0.2, -0.5)
    elph.g(*q, *k)
    elph.clear()
    ctx.eq(elph.g(*q, *k), np.zeros((3, 1, 1)), 'same q')
    ctx.eq(elph.g(*k, *q), np.zeros((3, 1, 1)), 'other q')
