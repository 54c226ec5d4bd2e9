"""Phonon models on supercells."""

import itertools

from symx.harness import harness
from symx.common import (fourier, phase, dagger, herm_data, ph_model, fold,
    bloch, lattice, SUPERCELLS)

LISTS = [
    [(0, 0, 0), (1, 0, 0), (-1, 0, 0)],
    [(0, 0, 0), (2, -1, 0), (0, 0, -1)],
    [(1, 0, 0), (1, 0, 0), (0, 0, 0)],          # repeated
]

def check(ctx, sc, k, n, label, D0):
    p = bloch(ctx, sc.cells, k)
    D = sc.D(*fold(sc.N, k))
    m = len(sc.cells)
    for i in range(m):
        lhs = 0.0
        for j in range(m):
            lhs = lhs + D[i * n:i * n + n, j * n:j * n + n] * p[j]
        ctx.eq(lhs, p[i] * D0, label)

def atoms(ctx, nat):
    np = ctx.np
    r = ctx.reals('r', (nat, 3), -2, 2)
    M = ctx.reals('M', (nat,), 0.5, 9.0)
    return r, M, ['Ta', 'S', 'X'][:nat]

def same_atoms(ctx, sc, a, r, M, names):
    np = ctx.np
    nat = len(names)
    m = len(sc.cells)
    ctx.true(sc.nat == m * nat and sc.size == 3 * m * nat
        and len(sc.atom_order) == m * nat, 'numbers of atoms')
    for i in range(3):
        v = 0.0
        for j in range(3):
            v = v + int(sc.N[i][j]) * a[j]
        ctx.eq(sc.a[i], v, 'lattice vectors of supercell')
    for i, c in enumerate(sc.cells):
        for n in range(nat):
            ctx.true(sc.atom_order[i * nat + n] == names[n], 'species')
            ctx.eq(sc.M[i * nat + n], M[n], 'mass')
            t = int(c[0]) * a[0] + int(c[1]) * a[1] + int(c[2]) * a[2]
            ctx.eq(sc.r[i * nat + n], t + r[n], 'position')

@harness(bounds='1..2 atoms, 9 supercells of up to 4 cells, any real data, '
    'masses, positions, lattice vectors, any q')
def supercell(ctx):
    np = ctx.np
    N = ctx.choice('N', SUPERCELLS)
    R = ctx.choice('list', LISTS)
    nat = ctx.choice('atoms', [1, 2])
    data = ctx.reals('D', (len(R), 3 * nat, 3 * nat))
    a = ctx.reals('a', (3, 3), -3, 3)
    r, M, names = atoms(ctx, nat)
    q = [ctx.angle('q%d' % i) for i in range(3)]
    div = ctx.choice('divide_mass', [True, False])
    ph = ph_model(ctx, np.array(R), np.array(data), a=np.array(a),
        r=np.array(r), M=np.array(M), names=names, divide_mass=div)
    ph.alpha = None
    sc = ph.supercell(*N)
    check(ctx, sc, q, 3 * nat, 'D at folded q', fourier(ctx, R, data, q))
    same_atoms(ctx, sc, a, r, M, names)
    ctx.true(sc.divide_mass == div and not sc.lr, 'flags')
    # supercell shares no storage
    sc.data[...] = 2 * sc.data
    sc.M[...] = 2 * sc.M
    sc.r[...] = 2 * sc.r
    sc.a[...] = 2 * sc.a
    sc.atom_order[0] = 'other'
    ctx.eq(ph.data, data, 'original data')
    ctx.eq(ph.M, M, 'original masses')
    ctx.eq(ph.r, r, 'original positions')
    ctx.eq(ph.a, a, 'original lattice vectors')
    ctx.true(list(ph.atom_order) == names, 'original species')

@harness(bounds='1 atom, 9 supercells, any real data')
def supercell_sparse(ctx):
    np = ctx.np
    N = ctx.choice('N', SUPERCELLS)
    R = ctx.choice('list', LISTS)
    data = ctx.reals('D', (len(R), 3, 3))
    ph = ph_model(ctx, np.array(R), np.array(data))
    ctx.eq(ph.supercell(*N, sparse=True).Ds.toarray(), ph.supercell(*N).D(),
        'sparse D equals dense D at q = 0')

@harness(bounds='1..2 atoms, 9 supercells, any data, masses, positions, '
    'cubic, hexagonal and triclinic lattices, Born charges and quadrupoles; '
    'repeated lattice vectors')
def unit_cell(ctx):
    np = ctx.np
    N = ctx.choice('N', SUPERCELLS)
    nat = ctx.choice('atoms', [1, 2])
    R = ctx.choice('list', LISTS) if nat == 1 else LISTS[1]
    data = ctx.reals('D', (len(R), 3 * nat, 3 * nat))
    for i in range(len(R)):
        ctx.assume(data[i, 0, 0] > 0.01)
    a = lattice(ctx, 'hex' if nat == 1 else 'tric')
    r, M, names = atoms(ctx, nat)
    q = [ctx.angle('q%d' % i) for i in range(3)]
    polar = nat == 1
    kw = {}
    if polar:
        Z = ctx.reals('Z', (nat, 3, 3))
        Q = ctx.reals('Q', (nat, 3, 3, 3))
        kw = dict(zeu=np.array(Z), Q=np.array(Q), epsil=2 * np.eye(3),
            lr=False, alph=0.5)
    ph = ph_model(ctx, np.array(R), np.array(data), a=np.array(a),
        r=np.array(r), M=np.array(M), names=names, **kw)
    sc = ph.supercell(*N)
    if nat == 1 and ctx.choice('repeated', [False, True]):
        sc.R = np.concatenate((sc.R, sc.R[:1]))
        sc.data = np.concatenate((sc.data, sc.data[:1] / 4))
        sc.data[0] = 3 * sc.data[0] / 4
    back = sc.unit_cell()
    ctx.eq(back.D(*q), fourier(ctx, R, data, q), 'D restored')
    ctx.eq(back.a, a, 'lattice vectors restored')
    ctx.eq(back.r, r, 'positions restored')
    ctx.eq(back.M, M, 'masses restored')
    ctx.true(list(back.atom_order) == names, 'species restored')
    ctx.true(back.nat == nat and back.size == 3 * nat, 'sizes restored')
    if polar:
        ctx.eq(back.Z, Z, 'charges restored')
        ctx.eq(back.Q, Q, 'quadrupoles restored')
        ctx.eq(back.eps, 2 * np.eye(3), 'dielectric tensor restored')
        ctx.eq(back.alpha, 0.5, 'Ewald parameter restored')
        for i in range(len(sc.cells)):
            for n in range(nat):
                ctx.eq(sc.Z[i * nat + n], Z[n], 'charges of supercell')
                ctx.eq(sc.Q[i * nat + n], Q[n], 'quadrupoles of supercell')
    # shares no storage with the supercell
    old = [np.array(sc.data), np.array(sc.M), np.array(sc.r)]
    back.data[...] = 2 * back.data
    back.M[...] = 2 * back.M
    back.r[...] = 2 * back.r
    ctx.eq(sc.data, old[0], 'supercell data kept')
    ctx.eq(sc.M, old[1], 'supercell masses kept')
    ctx.eq(sc.r, old[2], 'supercell positions kept')

@harness(bounds='dipole interaction, 1..2 atoms with any Born charges, '
    'cubic lattice, supercells 2x1x1 and left-handed, q = 0 and two others')
def supercell_polar(ctx):
    np = ctx.np
    N = ctx.choice('N', [(2, 1, 1), ((0, 1, 0), (1, 0, 0), 1),
        ((1, 1, 0), (-1, 1, 0), 1)])
    nat = 2
    Z = ctx.reals('Z', (nat, 3, 3))
    data = ctx.reals('D', (1, 6, 6))
    two = ctx.choice('2d', [False, True])
    ph = ph_model(ctx, np.array([(0, 0, 0)]), np.array(data),
        a=4.0 * np.eye(3), r=np.array([[0.0, 0, 0], [1.7, 1.1, 0.4]]),
        M=np.array([1.5, 2.5]), names=['A', 'B'], zeu=np.array(Z),
        epsil=np.diag([2.0, 2.5, 3.0]), alph=0.03, lr2d=two)
    sc = ph.supercell(*N)
    ctx.true(sc.lr and sc.lr2d == two, 'flags')
    q = ctx.choice('q', [(0.0, 0.0, 0.0), (1.0, 0.3, 0.0), (-2.0, 0.0, 0.7)])
    if two:
        q = (q[0], q[1], 0.0)
    D0 = ph.D(*q)
    check(ctx, sc, q, 3 * nat, 'D at folded q', D0)
    same_atoms(ctx, sc, 4.0 * np.eye(3), ph.r, ph.M, ['A', 'B'])
    back = sc.unit_cell()
    ctx.eq(back.D(*q), D0, 'D restored', tol=1e-7)

@harness(bounds='3 atoms, every order, any data')
def order(ctx):
    np = ctx.np
    o = ctx.choice('order', list(itertools.permutations(range(3))))
    R = LISTS[1]
    data = ctx.reals('D', (len(R), 9, 9))
    r, M, names = atoms(ctx, 3)
    Z = ctx.reals('Z', (3, 3, 3))
    Q = ctx.reals('Q', (3, 3, 3, 3))
    q = [ctx.angle('q%d' % i) for i in range(3)]
    ph = ph_model(ctx, np.array(R), np.array(data), r=np.array(r),
        M=np.array(M), names=names, zeu=np.array(Z), Q=np.array(Q),
        epsil=np.eye(3), lr=False)
    D0 = fourier(ctx, R, data, q)
    ph.order_atoms(*o)
    D = ph.D(*q)
    for i in range(3):
        for j in range(3):
            ctx.eq(D[3 * i:3 * i + 3, 3 * j:3 * j + 3],
                D0[3 * o[i]:3 * o[i] + 3, 3 * o[j]:3 * o[j] + 3], 'reordered')
        ctx.eq(ph.M[i], M[o[i]], 'masses')
        ctx.eq(ph.r[i], r[o[i]], 'positions')
        ctx.eq(ph.Z[i], Z[o[i]], 'charges')
        ctx.eq(ph.Q[i], Q[o[i]], 'quadrupoles')
        ctx.true(ph.atom_order[i] == names[o[i]], 'species')

@harness(bounds='2 atoms, long-range interaction with any Born charges, '
    'reordered and shifted, 2 wave vectors')
def order_polar(ctx):
    np = ctx.np
    Z = ctx.reals('Z', (2, 3, 3))
    data = ctx.reals('D', (1, 6, 6), 0.01, 1.0)
    r = np.array([[0.0, 0, 0], [1.7, 1.1, 0.4]])
    ph = ph_model(ctx, np.array([(0, 0, 0)]), np.array(data),
        a=4.0 * np.eye(3), r=np.array(r), M=np.array([1.5, 2.5]),
        names=['A', 'B'], zeu=np.array(Z), epsil=np.diag([2.0, 2.5, 3.0]),
        alph=0.03, lr2d=False)
    q = ctx.choice('q', [(0.0, 0.0, 0.0), (1.0, 0.3, 0.5)])
    D0 = ph.D(*q)
    if ctx.choice('what', ['order', 'shift']) == 'order':
        ph.order_atoms(1, 0)
        D = ph.D(*q)
        for i in range(2):
            for j in range(2):
                ctx.eq(D[3 * i:3 * i + 3, 3 * j:3 * j + 3],
                    D0[3 - 3 * i:6 - 3 * i, 3 - 3 * j:6 - 3 * j],
                    'reordered', tol=1e-7)
    else:
        S = (1, 0, -1)
        ph.shift_atoms(slice(1, 2), S)
        D = ph.D(*q)
        e = phase(ctx, S, q)
        ctx.eq(D[:3, :3], D0[:3, :3], 'shifted', tol=1e-7)
        ctx.eq(D[3:, 3:], D0[3:, 3:], 'shifted', tol=1e-7)
        ctx.eq(D[:3, 3:], D0[:3, 3:] * np.conj(e), 'shifted', tol=1e-7)
        ctx.eq(D[3:, :3], D0[3:, :3] * e, 'shifted', tol=1e-7)

@harness(bounds='3 atoms, slices and shifts, any lattice vectors, positive '
    'data')
def shift(ctx):
    np = ctx.np
    s = ctx.choice('slice', [slice(0, 1), slice(1, 3), slice(0, 3, 2)])
    S = ctx.choice('shift', [(1, 0, 0), (0, -2, 1)])
    R = LISTS[1][:2]
    data = ctx.reals('D', (len(R), 9, 9), 0.01, 1.0)
    a = ctx.reals('a', (3, 3), -3, 3)
    r, M, names = atoms(ctx, 3)
    q = [ctx.angle('q%d' % i) for i in range(3)]
    ph = ph_model(ctx, np.array(R), np.array(data), a=np.array(a),
        r=np.array(r), M=np.array(M), names=names)
    D0 = fourier(ctx, R, data, q)
    ph.shift_atoms(s, S)
    sel = list(range(3))[s]
    e = phase(ctx, S, q)
    D = ph.D(*q)
    t = S[0] * a[0] + S[1] * a[1] + S[2] * a[2]
    for i in range(3):
        ctx.eq(ph.r[i], r[i] + t if i in sel else r[i], 'positions')
        for j in range(3):
            f = 1.0
            if j in sel and i not in sel:
                f = np.conj(e)
            if i in sel and j not in sel:
                f = e
            ctx.eq(D[3 * i:3 * i + 3, 3 * j:3 * j + 3],
                f * D0[3 * i:3 * i + 3, 3 * j:3 * j + 3], 'shifted')
    ctx.eq(ph.M, M, 'masses kept')
    ph.shift_atoms(s, tuple(-x for x in S))
    ctx.eq(ph.D(*q), D0, 'shifted back')
    ctx.eq(ph.r, r, 'positions back')

@harness(bounds='1 atom, any data')
def clear(ctx):
    np = ctx.np
    R = LISTS[0]
    data = ctx.reals('D', (len(R), 3, 3))
    q = [ctx.angle('q%d' % i) for i in range(3)]
    ph = ph_model(ctx, np.array(R), np.array(data))
    ph.clear()
    ctx.eq(ph.D(*q) + np.zeros((3, 3)), np.zeros((3, 3)), 'cleared')
    sc = ph.supercell(2)
    ctx.eq(sc.D(*q) + np.zeros((6, 6)), np.zeros((6, 6)),
        'supercell of cleared model')
