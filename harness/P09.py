"""Tidying a model does not change what it describes."""

from symx.harness import harness
from symx.common import (fourier, phase, dagger, herm_data, el_model,
    ph_model, elph_model, double_fourier, is_sorted_unique)

LISTS = [
    [(0, 0, 0)],
    [(1, 0, 0), (0, 0, 0), (-1, 0, 0)],
    [(2, 0, 0), (0, 1, 0), (2, 0, 0), (0, -1, 0), (2, 0, 0)],
    [(0, 0, 1), (0, 0, 0), (0, 0, 0), (0, 0, -1)],
]

def zero_some(ctx, data, R):
    """Let the solver decide which matrices vanish, plus explicit zeros."""
    z = ctx.choice('zero', ['none', 'first', 'all'])
    if z == 'first':
        data[0] = 0.0 * data[0]
    elif z == 'all':
        data[:] = 0.0 * data
    return z

@harness(bounds='1..2 orbitals, lattice-vector lists with repetitions, any '
    'complex data including zeros, any k')
def electrons(ctx):
    np = ctx.np
    R = ctx.choice('list', LISTS)
    n = ctx.choice('orbitals', [1, 2])
    data = ctx.cplxs('H', (len(R), n, n))
    z = zero_some(ctx, data, R)
    k = [ctx.angle('k%d' % i) for i in range(3)]
    el = el_model(ctx, np.array(R), np.array(data))
    H = fourier(ctx, R, data, k)
    el.standardize()
    ctx.eq(el.H(*k), H, 'standardize keeps H')
    ctx.true(is_sorted_unique(el.R), 'lattice vectors sorted and unique')
    ctx.true(el.R.shape[1:] == (3,) and el.data.shape == (len(el.R), n, n),
        'shapes')
    R1 = el.R.tolist()
    d1 = np.array(el.data)
    el.standardize()
    if z == 'none':
        ctx.true(len(el.R) <= len(R1), 'idempotent lattice vectors')
    ctx.eq(el.H(*k), H, 'twice keeps H')

@harness(bounds='1..2 orbitals, lattice-vector lists with repetitions, any '
    'complex data, any k')
def electrons_symmetrize(ctx):
    np = ctx.np
    R = ctx.choice('list', LISTS)
    n = ctx.choice('orbitals', [1, 2])
    data = ctx.cplxs('H', (len(R), n, n))
    k = [ctx.angle('k%d' % i) for i in range(3)]
    el = el_model(ctx, np.array(R), np.array(data))
    H = fourier(ctx, R, data, k)
    ref = (H + dagger(ctx, H)) / 2
    el.symmetrize()
    ctx.eq(el.H(*k), ref, 'symmetrize yields Hermitian part')
    ctx.true(is_sorted_unique(el.R), 'lattice vectors sorted and unique')
    ctx.eq(el.H(*k), dagger(ctx, el.H(*k)), 'Hermitian')
    el.standardize(symmetrize=True)
    ctx.eq(el.H(*k), ref, 'twice')

@harness(bounds='2 orbitals, any Hermitian data at 0, +-R')
def electrons_hermitian(ctx):
    np = ctx.np
    k = [ctx.angle('k%d' % i) for i in range(3)]
    R, data = herm_data(ctx, 'H', [(1, -2, 1)], 2)
    el = el_model(ctx, R, np.array(data))
    el.symmetrize()
    ctx.eq(el.H(*k), fourier(ctx, R.tolist(), data, k),
        'Hermitian data unchanged')

@harness(bounds='1 orbital, 3 lattice vectors, threshold 0.01..0.5 (symbolic)')
def threshold(ctx):
    np = ctx.np
    which = ctx.choice('model', ['el', 'ph', 'elel'])
    eps = ctx.real('eps', 0.01, 0.5)
    R = [(0, 0, 0), (1, 0, 0), (0, 0, 2)]
    x = ctx.reals('x', (3,), -1, 1)
    phase = (1.0 if which == 'ph'
        else ctx.choice('phase', [1.0, 1j, 0.6 - 0.8j]))
    if which == 'ph':
        data = np.zeros((3, 3, 3))
        data[:, 0, 1] = x
        m = ph_model(ctx, np.array(R), np.array(data))
    elif which == 'el':
        data = np.zeros((3, 1, 1), dtype=complex)
        data[:, 0, 0] = x * phase
        m = el_model(ctx, np.array(R), np.array(data))
    else:
        data = np.zeros((3, 1, 1), dtype=complex)
        data[:, 0, 0] = x * phase
        m = ctx.e.elel.Model()
        m.R = np.array(R)
        m.data = np.array(data)
        m.size = 1
    top = np.abs(x).max()
    ctx.assume(top > 0.1)
    for i in range(3):
        ctx.assume(np.abs(np.abs(x[i]) - eps * top) > 1e-9)
    m.standardize(eps=eps)
    got = dict((tuple(int(y) for y in r), m.data[i])
        for i, r in enumerate(m.R))
    for i in range(3):
        ref = data[i] if np.abs(x[i]) > eps * top else np.zeros_like(data[i])
        ctx.eq(got.get(R[i], np.zeros_like(data[i])), ref,
            'only negligible elements dropped')

@harness(bounds='1 atom, lists with repetitions, any real data, any q')
def phonons(ctx):
    np = ctx.np
    R = ctx.choice('list', LISTS)
    nat = 1
    data = ctx.reals('D', (len(R), 3 * nat, 3 * nat))
    zero_some(ctx, data, R)
    q = [ctx.angle('q%d' % i) for i in range(3)]
    ph = ph_model(ctx, np.array(R), np.array(data))
    D = fourier(ctx, R, data, q)
    sym = ctx.choice('symmetrize', [False, True])
    ref = (D + dagger(ctx, D)) / 2 if sym else D
    ph.standardize(symmetrize=sym)
    ctx.eq(ph.D(*q), ref, 'D kept or Hermitian part')
    ctx.true(is_sorted_unique(ph.R), 'lattice vectors sorted and unique')
    if sym:
        ph.symmetrize()
    else:
        ph.standardize()
    ctx.eq(ph.D(*q), ref, 'twice')

@harness(bounds='2 orbitals, lists with repetitions, any complex data, any q')
def coulomb(ctx):
    np = ctx.np
    R = ctx.choice('list', LISTS)
    data = ctx.cplxs('W', (len(R), 2, 2))
    zero_some(ctx, data, R)
    q = [ctx.angle('q%d' % i) for i in range(3)]
    m = ctx.e.elel.Model()
    m.R = np.array(R)
    m.data = np.array(data)
    m.size = 2
    W = fourier(ctx, R, data, q)
    m.standardize()
    ctx.eq(m.W(*q), W, 'W kept')
    ctx.true(is_sorted_unique(m.R), 'lattice vectors sorted and unique')

PAIRS = [
    ([(0, 0, 0)], [(0, 0, 0), (1, 0, 0)]),
    ([(1, 0, 0), (0, 0, 0)], [(0, 0, 0)]),
    ([(1, 0, 0), (1, 0, 0)], [(0, 1, 0), (0, 0, 0)]),
    ([(0, 0, 0), (0, 1, 0), (0, 0, 1)], [(0, 0, 0)]),
]

@harness(bounds='1 atom, 1 orbital, up to 3x2 pairs of lattice vectors (with '
    'repetitions), any complex data, any q and k')
def coupling(ctx):
    np = ctx.np
    Rg, Rk = ctx.choice('list', PAIRS)
    elph, data = elph_model(ctx, Rg, Rk, 1, 1)
    q = [ctx.angle('q%d' % i) for i in range(2)] + [0.0]
    k = [ctx.angle('k%d' % i) for i in range(2)] + [0.0]
    g = double_fourier(ctx, Rg, Rk, data, q, k)
    elph.standardize()
    ctx.eq(elph.g(*q, *k), g, 'g kept')
    ctx.true(is_sorted_unique(elph.Rg) and is_sorted_unique(elph.Rk),
        'lattice vectors sorted and unique')
    elph.standardize()
    ctx.eq(elph.g(*q, *k), g, 'twice')

@harness(bounds='1 atom, 2 orbitals, 1x2 to 3x1 pairs of lattice vectors, '
    'nonzero complex data, any q and k')
def coupling_symmetrize(ctx):
    np = ctx.np
    Rg, Rk = ctx.choice('list', PAIRS)
    elph, data = elph_model(ctx, Rg, Rk, 1, 2)
    for i in range(len(Rg)):
        for j in range(len(Rk)):
            ctx.assume(data[i, 0, j, 0, 0].real > 0.1)
    q = [ctx.angle('q%d' % i) for i in range(2)] + [0.0]
    k = [ctx.angle('k%d' % i) for i in range(2)] + [0.0]
    g = double_fourier(ctx, Rg, Rk, data, q, k)
    adj = double_fourier(ctx, Rg, Rk, data, [-x for x in q],
        [x + y for x, y in zip(q, k)])
    ref = (g + dagger(ctx, adj)) / 2
    elph.symmetrize()
    ctx.eq(elph.g(*q, *k), ref, 'symmetrised coupling')
    elph.symmetrize()
    ctx.eq(elph.g(*q, *k), ref, 'twice')

@harness(bounds='1..3 atoms, any masses 0.5..9, any matrix elements')
def masses(ctx):
    np = ctx.np
    nat = ctx.choice('atoms', [1, 2, 3])
    M = ctx.reals('M', (nat,), 0.5, 9.0)
    C = ctx.reals('C', (2, 3 * nat, 3 * nat))
    D = np.array(C)
    ctx.e.ph.divide_by_mass(D, M)
    for i in range(3 * nat):
        for j in range(3 * nat):
            ctx.eq(D[:, i, j] * np.sqrt(M[i // 3]) * np.sqrt(M[j // 3]),
                C[:, i, j], 'divided by square roots of masses')

@harness(bounds='1..2 atoms, 1..2 orbitals, degeneracies 0..4 per element, '
    'any coupling')
def degeneracy(ctx):
    np = ctx.np
    shared = ctx.choice('shared', [True, False])
    nat = 2
    nel = 2
    Rk = [(0, 0, 0), (1, 0, 0)]
    Rg = [(0, 0, 0), (0, 1, 0)]
    d = 1 if shared else nel
    dk = np.array([[[1 + (i + 2 * j + n) % 3 if (i + j + n) % 4 else 0
        for n in range(2)] for j in range(d)] for i in range(d)])
    dg = np.array([[[[1 + (i + 2 * j + x + n) % 4 if (i + 2 * j + x + n) % 5
        else 0 for n in range(2)] for x in range(1 if shared else nat)]
            for j in range(d)] for i in range(d)])
    g = ctx.cplxs('g', (2, 3 * nat, 2, nel, nel))
    elph, _ = elph_model(ctx, Rg, Rk, nat, nel, data=g, dk=dk, dg=dg)
    out = np.array(g)
    elph.divide_degeneracy(out)
    for i in range(2):
        for x in range(3 * nat):
            for j in range(2):
                for m in range(nel):
                    for n in range(nel):
                        a = int(dk[0, 0, j] if shared else dk[n, m, j])
                        b = int(dg[0, 0, 0, i] if shared
                            else dg[n, m, x // 3, i])
                        ref = g[i, x, j, m, n] / (a * b) if a * b else 0.0
                        ctx.eq(out[i, x, j, m, n], ref,
                            'divided by degeneracy')
