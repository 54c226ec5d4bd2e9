"""Coupling and Coulomb models on supercells."""

from symx.harness import harness
from symx.common import (fourier, phase, el_model, ph_model, elph_model,
    double_fourier, fold, bloch, SUPERCELLS)

LISTS = [
    [(0, 0, 0), (1, 0, 0), (-1, 0, 0)],
    [(2, -1, 0), (0, 0, 0), (0, 0, -1)],
    [(1, 0, 0), (1, 0, 0), (0, 0, 0)],          # repeated
]

def elel_model(ctx, R, data):
    elel = ctx.e.elel.Model()
    elel.R = ctx.np.array(R)
    elel.data = ctx.np.array(data)
    elel.size = data.shape[1]
    return elel

@harness(bounds='1..2 orbitals, 9 supercells of up to 4 cells, lists with '
    'repetitions, any complex interaction, any q')
def coulomb(ctx):
    np = ctx.np
    N = ctx.choice('N', SUPERCELLS)
    R = ctx.choice('list', LISTS)
    n = ctx.choice('orbitals', [1, 2])
    data = ctx.cplxs('W', (len(R), n, n))
    q = [ctx.angle('q%d' % i) for i in range(3)]
    elel = elel_model(ctx, R, data)
    sc = elel.supercell(*N)
    ctx.true(sc.size == n * len(sc.cells), 'size')
    M = [[int(x) for x in row] for row in ctx.e.bravais.supercell(*N)[1]]
    ctx.true([[int(x) for x in row] for row in sc.N] == M,
        'primitive vectors of supercell')
    W0 = fourier(ctx, R, data, q)
    p = bloch(ctx, sc.cells, q)
    W = sc.W(*fold(M, q))
    m = len(sc.cells)
    for i in range(m):
        lhs = 0.0
        for j in range(m):
            lhs = lhs + W[i * n:i * n + n, j * n:j * n + n] * p[j]
        ctx.eq(lhs, p[i] * W0, 'W at folded q')
    ctx.eq(elel.data, data, 'original data kept')

def coupling_model(ctx, Rg, Rk, nat, nel, real=False, lr=None):
    np = ctx.np
    if real:
        data = ctx.reals('g', (len(Rg), 3 * nat, len(Rk), nel, nel)) + 0j
    else:
        data = None
    el = el_model(ctx, np.zeros((1, 3), dtype=int), np.ones((1, nel, nel)))
    ph = ph_model(ctx, np.zeros((1, 3), dtype=int),
        np.ones((1, 3 * nat, 3 * nat)), **(lr or {}))
    return elph_model(ctx, Rg, Rk, nat, nel, data, el=el, ph=ph)

def check(ctx, sc, N, q, k, nph, nel, g0, label, **kw):
    """Displacement and state modulated with q and k: phase k + q remains."""
    pq = bloch(ctx, sc.cells, q)
    pk = bloch(ctx, sc.cells, k)
    g = sc.g(*fold(N, q), *fold(N, k))
    m = len(sc.cells)
    for i in range(m):
        lhs = 0.0
        for j in range(m):
            for X in range(m):
                lhs = lhs + (g[X * nph:X * nph + nph, i * nel:i * nel + nel,
                    j * nel:j * nel + nel] * (pq[X] * pk[j]))
        ctx.eq(lhs, pq[i] * pk[i] * g0, label, **kw)

@harness(bounds='1 atom, 1..2 orbitals, 9 supercells, 2-3 lattice vectors per '
    'kind (with repetitions), any complex coupling, any q, k')
def coupling(ctx):
    np = ctx.np
    N = ctx.choice('N', SUPERCELLS)
    nel = ctx.choice('orbitals', [1, 2])
    if nel == 1:
        Rg, Rk = ctx.choice('lists', [(LISTS[0], LISTS[1]),
            (LISTS[1][:2], LISTS[2]), (LISTS[2], LISTS[2])])
    else:
        Rg, Rk = LISTS[0][:2], LISTS[1][1:]
    q = [ctx.angle('q%d' % i) for i in range(3)]
    k = [ctx.angle('k%d' % i) for i in range(3)]
    elph, data = coupling_model(ctx, Rg, Rk, 1, nel)
    data = np.array(data)
    sc = elph.supercell(*N)
    ctx.true(sc.divide_mass == elph.divide_mass
        and sc.divide_ndegen == elph.divide_ndegen, 'flags')
    ctx.true(sc.el.size == nel * len(sc.cells)
        and sc.ph.size == 3 * len(sc.cells), 'sizes')
    check(ctx, sc, sc.ph.N, q, k, 3, nel,
        double_fourier(ctx, Rg, Rk, data, q, k), 'g at folded q, k')
    ctx.eq(elph.data, data, 'original data kept')

@harness(bounds='2 atoms, 1 orbital, supercells 2x1x1 and sheared, any '
    'complex coupling, any q, k')
def coupling_atoms(ctx):
    np = ctx.np
    N = ctx.choice('N', [(2, 1, 1), ((1, 0, 0), (-3, 2, 0), 1),
        ((0, 1, 0), (2, 0, 0), 1)])
    Rg, Rk = LISTS[0][:2], LISTS[1][:2]
    q = [ctx.angle('q%d' % i) for i in range(3)]
    k = [ctx.angle('k%d' % i) for i in range(3)]
    elph, data = coupling_model(ctx, Rg, Rk, 2, 1)
    sc = elph.supercell(*N)
    check(ctx, sc, sc.ph.N, q, k, 6, 1,
        double_fourier(ctx, Rg, Rk, np.array(data), q, k),
        'g at folded q, k')

@harness(bounds='1 atom, 1..2 orbitals, 9 supercells, any real coupling')
def coupling_sparse(ctx):
    np = ctx.np
    N = ctx.choice('N', SUPERCELLS)
    nel = ctx.choice('orbitals', [1, 2])
    Rg, Rk = ctx.choice('lists', [(LISTS[0], LISTS[1]), (LISTS[2], LISTS[2])])
    if nel == 2:
        Rg, Rk = Rg[:2], Rk[1:]
    elph, data = coupling_model(ctx, Rg, Rk, 1, nel, real=True)
    dense = elph.supercell(*N).g()
    gs = elph.supercell(*N, sparse=True).gs
    ctx.true(len(gs) == len(dense), 'number of displacements')
    for x in range(len(gs)):
        ctx.eq(gs[x].toarray(), dense[x],
            'sparse g equals dense g at q = k = 0')

def polar(ctx):
    np = ctx.np
    Z = ctx.reals('Z', (2, 3, 3))
    Rg, Rk = [(0, 0, 0), (1, 0, 0)], [(1, 0, 0), (0, 0, 0)]
    elph, data = coupling_model(ctx, Rg, Rk, 2, 1, lr=dict(
        a=4.0 * np.eye(3), r=np.array([[0.0, 0, 0], [1.7, 1.1, 0.4]]),
        M=np.array([1.5, 2.5]), names=['A', 'B'], zeu=np.array(Z),
        epsil=np.diag([2.0, 2.5, 3.0]), alph=0.03, lr2d=False))
    return elph, lambda q, k: double_fourier(ctx, Rg, Rk, np.array(data), q, k)

@harness(bounds='2 polar atoms with any Born charges, 1 orbital, 2 '
    'supercells, 2 wave vectors, any short-range coupling')
def coupling_polar(ctx):
    np = ctx.np
    N = ctx.choice('N', [(2, 1, 1), ((0, 1, 0), (1, 0, 0), 1)])
    q = ctx.choice('q', [(1.0, 0.3, 0.0), (-2.0, 0.0, 0.7)])
    k = (0.4, -0.2, 0.1)
    elph, sr = polar(ctx)
    g0 = elph.g(*q, *k)[:, 0, 0]
    ctx.eq(g0 - elph.g_lr(*q), sr(q, k)[:, 0, 0], 'long-range part added')
    sc = elph.supercell(*N)
    # long-range part of supercell at short-range level
    Q, K = fold(N3(N), q), fold(N3(N), k)
    g = sc.g(*Q, *K)
    lr = sc.g_lr(*Q)
    m = len(sc.cells)
    pq = bloch(ctx, sc.cells, q)
    pk = bloch(ctx, sc.cells, k)
    s = sr(q, k)[:, 0, 0]
    for i in range(m):
        lhs = 0.0
        for X in range(m):
            x = slice(6 * X, 6 * X + 6)
            lhs = lhs - lr[x] * (pq[X] * pk[i])
            for j in range(m):
                lhs = lhs + g[x, i, j] * (pq[X] * pk[j])
        ctx.eq(lhs, pq[i] * pk[i] * s, 'short-range part at folded q, k',
            tol=1e-7)
    # cell average of the long-range part at the first cell
    if m == 1:
        ctx.eq(lr, elph.g_lr(*q), 'long-range part', tol=1e-7)

def N3(N):
    return [tuple(n) if hasattr(n, '__len__')
        else tuple(n if i == j else 0 for j in range(3))
        for i, n in enumerate(N)]

@harness(bounds='2 polar atoms with any Born charges, 1 orbital, 2 '
    'supercells; any short-range coupling')
def coupling_polar_sparse(ctx):
    """Sparse coupling of supercell at vanishing wave vectors."""
    np = ctx.np
    N = ctx.choice('N', [(2, 1, 1), (1, (0, 3, 0), 1)])
    elph, sr = polar(ctx)
    dense = elph.supercell(*N)
    g, D = dense.g(), dense.ph.D()
    sparse = elph.supercell(*N, sparse=True)
    ctx.true(len(sparse.gs) == len(g), 'number of displacements')
    for x in range(len(g)):
        ctx.eq(sparse.gs[x].toarray(), g[x].real, 'coupling')
    ctx.eq(sparse.ph.Ds.toarray(), D.real, 'force constants', tol=1e-7)

@harness(bounds='2 polar atoms with any Born charges, 1 orbital, supercell '
    '2x1x1, 2 wave vectors, any short-range coupling')
def coupling_polar_supercell(ctx):
    np = ctx.np
    q = ctx.choice('q', [(1.0, 0.3, 0.0), (-2.0, 0.0, 0.7)])
    k = (0.4, -0.2, 0.1)
    elph, sr = polar(ctx)
    g0 = elph.g(*q, *k)
    sc = elph.supercell(2)
    check(ctx, sc, sc.ph.N, q, k, 6, 1, g0, 'g at folded q, k', tol=1e-7)

@harness(bounds='1 atom, 2 orbitals, any coupling')
def clear(ctx):
    np = ctx.np
    Rg, Rk = LISTS[0][:2], LISTS[1][:2]
    elph, data = coupling_model(ctx, Rg, Rk, 1, 2)
    q = [ctx.angle('q%d' % i) for i in range(3)]
    k = [ctx.angle('k%d' % i) for i in range(3)]
    if ctx.choice('used before', [False, True]):
        elph.g(*q, *k)
    elph.clear()
    ctx.eq(elph.g(*q, *k) + np.zeros((3, 2, 2)), np.zeros((3, 2, 2)),
        'cleared')
    sc = elph.supercell(2)
    ctx.eq(sc.g(*q, *k) + np.zeros((6, 4, 4)), np.zeros((6, 4, 4)),
        'supercell of cleared model')
