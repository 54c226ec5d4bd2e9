"""Electron models on supercells."""

from symx.harness import harness
from symx.common import (fourier, phase, dagger, herm_data, el_model, fold,
    bloch, SUPERCELLS, is_sorted_unique)

LISTS = [
    [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 1)],
    [(0, 0, 0), (2, -1, 0), (0, 0, -1)],
    [(1, 0, 0), (1, 0, 0), (0, 0, 0), (1, 0, 0)],       # repeated
]

def check(ctx, el, sc, k, n, label, H0):
    """H_sc(N k) Bloch(k) = Bloch(k) H(k) for all k (complete)."""
    np = ctx.np
    p = bloch(ctx, sc.cells, k)
    H = sc.H(*fold(sc.N, k))
    m = len(sc.cells)
    for i in range(m):
        lhs = 0.0
        for j in range(m):
            lhs = lhs + H[i * n:i * n + n, j * n:j * n + n] * p[j]
        ctx.eq(lhs, p[i] * H0, label)

@harness(bounds='1..2 orbitals, 9 supercells of up to 4 cells (skewed, '
    'left-handed, 3D), lattice-vector lists with repetitions, any complex '
    'data, any k')
def supercell(ctx):
    np = ctx.np
    N = ctx.choice('N', SUPERCELLS)
    R = ctx.choice('list', LISTS)
    n = ctx.choice('orbitals', [1, 2])
    data = ctx.cplxs('H', (len(R), n, n))
    k = [ctx.angle('k%d' % i) for i in range(3)]
    own = ctx.choice('flags', [(False, True), (True, False)])
    el = el_model(ctx, np.array(R), np.array(data), rydberg=own[0],
        divide_ndegen=own[1])
    sc = el.supercell(*N)
    ctx.true(sc.size == n * len(sc.cells) and sc.data.shape[1] == sc.size,
        'size')
    ctx.true(sc.rydberg == own[0] and sc.divide_ndegen == own[1], 'flags')
    check(ctx, el, sc, k, n, 'H at folded k', fourier(ctx, R, data, k))

@harness(bounds='1..2 orbitals, 9 supercells, any real or complex data')
def supercell_sparse(ctx):
    np = ctx.np
    N = ctx.choice('N', SUPERCELLS)
    R = ctx.choice('list', LISTS)
    n = 2
    data = ctx.reals('H', (len(R), n, n)) + 0j
    el = el_model(ctx, np.array(R), np.array(data))
    sc = el.supercell(*N, sparse=True)
    dense = el.supercell(*N)
    ctx.eq(sc.Hs.toarray(), dense.H(), 'sparse H equals dense H at k = 0')

@harness(bounds='1..2 orbitals, 9 supercells, any complex data, any k')
def unit_cell(ctx):
    np = ctx.np
    N = ctx.choice('N', SUPERCELLS)
    R = ctx.choice('list', LISTS)
    n = ctx.choice('orbitals', [1, 2])
    data = ctx.cplxs('H', (len(R), n, n))
    for i in range(len(R)):
        ctx.assume(data[i, 0, 0].real > 0.01)
    k = [ctx.angle('k%d' % i) for i in range(3)]
    own = ctx.choice('flags', [(False, True), (True, False)])
    el = el_model(ctx, np.array(R), np.array(data), rydberg=own[0],
        divide_ndegen=own[1])
    sc = el.supercell(*N)
    if n == 1 and ctx.choice('repeated', [False, True]):
        sc.R = np.concatenate((sc.R, sc.R[:1]))
        sc.data = np.concatenate((sc.data, sc.data[:1] / 4))
        sc.data[0] = 3 * sc.data[0] / 4
    back = sc.unit_cell()
    ctx.true(back.size == n and back.data.shape[1:] == (n, n), 'size')
    ctx.eq(back.H(*k), fourier(ctx, R, data, k), 'H restored')
    ctx.true(back.rydberg == own[0], 'energy unit restored')
    ctx.true(back.divide_ndegen == own[1], 'degeneracy flag restored')
    # no shared storage
    old = np.array(sc.data)
    back.data[...] = back.data * 2
    ctx.eq(sc.data, old, 'supercell data not shared with unit cell')

@harness(bounds='1 orbital, 9 supercells, any real or imaginary hopping, any '
    'k')
def unit_cell_phase(ctx):
    np = ctx.np
    N = ctx.choice('N', SUPERCELLS)
    phase = ctx.choice('phase', [1.0, 1j, -1j])
    R = LISTS[1]
    data = ctx.reals('H', (len(R), 1, 1), 0.1, 0.9) * phase
    k = [ctx.angle('k%d' % i) for i in range(3)]
    back = el_model(ctx, np.array(R), np.array(data)).supercell(*N).unit_cell()
    ctx.eq(back.H(*k), fourier(ctx, R, data, k), 'H restored')

@harness(bounds='nested supercells 2x1x1 and sheared 2, 1 orbital, any data')
def nested(ctx):
    np = ctx.np
    R = LISTS[0]
    data = ctx.cplxs('H', (len(R), 1, 1))
    k = [ctx.angle('k%d' % i) for i in range(3)]
    el = el_model(ctx, np.array(R), np.array(data))
    a = el.supercell(2, 1, 1)
    b = a.supercell((1, 0, 0), (1, 2, 0), 1)
    H0 = a.H(*fold(a.N, k))
    K = fold(a.N, k)
    check(ctx, a, b, K, 2, 'nested', H0)

@harness(bounds='3 orbitals, every order, any data, any k')
def order(ctx):
    np = ctx.np
    import itertools
    o = ctx.choice('order', list(itertools.permutations(range(3)))
        + [(0, 2), (1,), (2, 0)])
    R = LISTS[1]
    data = ctx.cplxs('H', (len(R), 3, 3))
    k = [ctx.angle('k%d' % i) for i in range(3)]
    el = el_model(ctx, np.array(R), np.array(data))
    H0 = fourier(ctx, R, data, k)
    el.order_orbitals(*o)
    H = el.H(*k)
    for i in range(len(o)):
        for j in range(len(o)):
            ctx.eq(H[i, j], H0[o[i], o[j]], 'reordered')

@harness(bounds='3 orbitals, slices, several shifts, any data, any k')
def shift(ctx):
    np = ctx.np
    s = ctx.choice('slice', [slice(0, 1), slice(1, 3), slice(0, 3),
        slice(0, 3, 2), slice(2, None)])
    S = ctx.choice('shift', [(1, 0, 0), (0, -2, 1)])
    R = LISTS[1][:2]
    data = ctx.cplxs('H', (len(R), 3, 3))
    for i in range(len(R)):
        for a in range(3):
            for b in range(3):
                ctx.assume(data[i, a, b].real > 0.01)
    k = [ctx.angle('k%d' % i) for i in range(3)]
    el = el_model(ctx, np.array(R), np.array(data))
    H0 = fourier(ctx, R, data, k)
    el.shift_orbitals(s, S)
    sel = list(range(3))[s]
    # orbital moved by S: |R a>_new = |R + S, a>_old
    e = phase(ctx, S, k)
    H = el.H(*k)
    for a in range(3):
        for b in range(3):
            f = 1.0
            if b in sel and a not in sel:
                f = np.conj(e)
            if a in sel and b not in sel:
                f = e
            ctx.eq(H[a, b], f * H0[a, b], 'shifted')
    # moving back restores the model
    el.shift_orbitals(s, tuple(-x for x in S))
    ctx.eq(el.H(*k), H0, 'shifted back')

@harness(bounds='2 orbitals, any data')
def clear(ctx):
    np = ctx.np
    R = LISTS[0]
    data = ctx.cplxs('H', (len(R), 2, 2))
    k = [ctx.angle('k%d' % i) for i in range(3)]
    el = el_model(ctx, np.array(R), np.array(data))
    el.clear()
    ctx.eq(el.H(*k) + np.zeros((2, 2)), np.zeros((2, 2)), 'cleared')
    sc = el.supercell(2)
    ctx.eq(sc.H(*k) + np.zeros((4, 4)), np.zeros((4, 4)),
        'supercell of cleared model')
