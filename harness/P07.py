"""Fourier interpolation reproduces the mesh data it came from."""

import math

from symx.harness import harness
from symx.common import (fourier, phase, dagger, el_model, ph_model,
    elph_model, double_fourier, lattice)

def points(nk):
    n = list(nk) + [1] * (3 - len(nk))
    return [(i, j, k) for i in range(n[0]) for j in range(n[1])
        for k in range(n[2])]

def kpoint(nk, p):
    n = list(nk) + [1] * (3 - len(nk))
    return [2 * math.pi * p[i] / n[i] for i in range(3)]

R2 = [[0.0, 0.0, 0.0], [0.31, 0.17, 0.05]]
R2H = [[0.0, 0.0, 0.0], [0.0, 1 / 3 ** 0.5, 0.0]]

MESHES = [(1,), (2,), (3,), (4,), (2, 2), (3, 2), (1, 3), (2, 3, 2), (1, 1, 2),
    (5,), (3, 3), (4, 1, 2)]

@harness(bounds='meshes up to 12 points in 1, 2, 3 dimensions, cubic and '
    'hexagonal and triclinic lattices, 1..2 orbitals at the origin or apart, '
    'any complex matrices')
def electrons(ctx):
    np = ctx.np
    nk = ctx.choice('mesh', MESHES)
    lat, r = ctx.choice('lattice', [('cubic', [[0.0] * 3]), ('cubic', R2),
        ('hex', R2H), ('tric', R2), ('fcc', R2)])
    n = len(r)
    H = ctx.cplxs('H', (*nk, n, n))
    el = ctx.e.el.Model()
    ctx.e.el.k2r(el, np.array(H), lattice(ctx, lat), np.array(r))
    flat = H.reshape((-1, n, n))
    for i, p in enumerate(points(nk)):
        ctx.eq(el.H(*kpoint(nk, p)), flat[i], 'H at mesh point')
    ctx.true(tuple(el.nk) == tuple(list(nk) + [1] * (3 - len(nk)))
        and el.size == n, 'mesh and size stored')

@harness(bounds='meshes up to 9 points, any Hermitian matrices, any k')
def electrons_hermitian(ctx):
    np = ctx.np
    nk = ctx.choice('mesh', [(2,), (3,), (2, 2), (3, 3)])
    lat, r = ctx.choice('lattice', [('cubic', R2), ('hex', R2H)])
    n = 2
    H = np.array([ctx.hermitian('H%d' % i, n) for i in range(
        len(points(nk)))]).reshape((*nk, n, n))
    el = ctx.e.el.Model()
    ctx.e.el.k2r(el, np.array(H), lattice(ctx, lat), np.array(r))
    k = [ctx.angle('k%d' % i) for i in range(3)]
    ctx.eq(el.H(*k), dagger(ctx, el.H(*k)), 'Hermitian between mesh points')

@harness(bounds='2x2 mesh, 1 orbital, both units on both sides, real-space '
    'or reciprocal-space input')
def electrons_units(ctx):
    np = ctx.np
    nk = (2, 2)
    own = ctx.choice('model in Ry', [False, True])
    inp = ctx.choice('input in Ry', [False, True])
    fft = ctx.choice('fft', [True, False])
    div = ctx.choice('divide', [True, False])
    H = ctx.cplxs('H', (2, 2, 1, 1))
    el = ctx.e.el.Model(rydberg=own, divide_ndegen=div)
    Ry = 13.605693009
    f = 1.0 if own == inp else (1 / ctx.e.misc.Ry if own else ctx.e.misc.Ry)
    ctx.true(abs(ctx.e.misc.Ry - Ry) < 1e-4, 'Rydberg energy')
    data = np.array(H)
    if not fft:
        data = np.zeros((2, 2, 1, 1, 1), dtype=complex)
        for p in points(nk):
            for q in points(nk):
                data[p] = data[p] + H[q[:2]] * np.exp(-1j * math.pi * (
                    p[0] * q[0] + p[1] * q[1])) / 4
    ctx.e.el.k2r(el, data, lattice(ctx, 'cubic'), np.zeros((1, 3)), fft=fft,
        rydberg=inp)
    if div:
        for p in points(nk):
            ctx.eq(el.H(*kpoint(nk, p)), f * H[p[:2]], 'H at mesh point')
    else:
        # each of the images carries the full element
        for n in range(len(el.R)):
            t = 0.0
            for q in points(nk):
                t = t + H[q[:2]] * np.exp(-1j * math.pi * (
                    int(el.R[n][0]) * q[0] + int(el.R[n][1]) * q[1])) / 4
            ctx.eq(el.data[n], f * t, 'undivided element')

def sym_mesh(ctx, name, nq, n):
    """D(q) = D(-q)^* Hermitian on a mesh."""
    np = ctx.np
    full = list(nq) + [1] * (3 - len(nq))
    D = {}
    for p in points(nq):
        m = tuple(-p[i] % full[i] for i in range(3))
        if p in D:
            continue
        h = ctx.hermitian('%s%d%d%d' % ((name,) + p), n)
        if m == p:
            h = (h + np.conj(h)) / 2
        D[p] = h
        D[m] = np.conj(h)
    return D

@harness(bounds='meshes up to 9 points, 1..2 atoms, any masses, any '
    'dynamical matrices with D(-q) = D(q)^*')
def phonons(ctx):
    np = ctx.np
    nq = ctx.choice('mesh', [(1,), (2,), (3,), (2, 2), (3, 2), (2, 1, 2)])
    lat, r = ctx.choice('lattice', [('cubic', [[0.0] * 3]), ('hex', R2H),
        ('tric', R2)])
    nat = len(r)
    D = sym_mesh(ctx, 'D', nq, 3 * nat)
    full = np.array([D[p] for p in points(nq)]).reshape(
        (*nq, 3 * nat, 3 * nat))
    M = ctx.reals('M', (nat,), 1.0, 9.0)
    own = ctx.choice('model divides', [True, False])
    inp = ctx.choice('input divided', [True, False])
    ph = ctx.e.ph.Model(amass=M, at=lattice(ctx, lat), tau=np.array(r),
        atom_order=['A', 'B'][:nat], divide_mass=own)
    ctx.e.ph.q2r(ph, D_full=np.array(full), divide_mass=inp)
    s = np.sqrt(np.array([M[i // 3] for i in range(3 * nat)]))
    for p in points(nq):
        ref = np.array(D[p])
        if own and not inp:
            ref = ref / s[:, np.newaxis] / s[np.newaxis]
        elif inp and not own:
            ref = ref * s[:, np.newaxis] * s[np.newaxis]
        ctx.eq(ph.D(*kpoint(nq, p)), ref, 'D at mesh point', tol=1e-7)
    ctx.true(tuple(ph.nq) == tuple(list(nq) + [1] * (3 - len(nq))),
        'mesh stored')

@harness(bounds='2x1x3, 3 and 2x2 meshes, 1..2 atoms, any q')
def phonons_between(ctx):
    np = ctx.np
    nq = ctx.choice('mesh', [(3,), (2, 2), (2, 1, 3)])
    lat, r = ctx.choice('lattice', [('cubic', [[0.0] * 3]), ('hex', R2H)])
    nat = len(r)
    D = sym_mesh(ctx, 'D', nq, 3 * nat)
    full = np.array([D[p] for p in points(nq)]).reshape(
        (*nq, 3 * nat, 3 * nat))
    ph = ctx.e.ph.Model(amass=np.ones(nat), at=lattice(ctx, lat),
        tau=np.array(r), atom_order=['A', 'B'][:nat])
    ctx.e.ph.q2r(ph, D_full=full)
    q = [ctx.angle('q%d' % i) for i in range(3)]
    Dq = ph.D(*q)
    ctx.eq(Dq, dagger(ctx, Dq), 'Hermitian between mesh points')
    ctx.eq(ph.D(*[-x for x in q]), np.conj(Dq), 'real force constants')

def hexagonal(nq, angle, ph, np):
    """Cartesian q points (columns of 2x2), symmetry operations."""
    t = math.radians(180 - angle)
    a1 = (1.0, 0.0)
    a2 = (math.cos(t), math.sin(t))
    return a1, a2

@harness(bounds='hexagonal 2D lattice, one atom, meshes 1x1 to 4x4, any '
    'symmetric dynamical matrices given for irreducible q points only')
def phonons_irreducible(ctx):
    np = ctx.np
    nq = ctx.choice('mesh', [1, 2, 3, 4])
    s = 3 ** 0.5 / 2
    a = np.array([[1.0, 0, 0], [-0.5, s, 0], [0, 0, 4.0]])
    b = [(1.0, 0.5 / s), (0.0, 1 / s)]       # dual basis, columns x, y

    def cart(p):
        return (p[0] * b[0][0] + p[1] * b[1][0],
            p[0] * b[0][1] + p[1] * b[1][1])

    def cryst(v):
        x = v[0]
        y = -0.5 * v[0] + s * v[1]
        return int(round(x)) % nq, int(round(y)) % nq

    ops = []
    for n in range(3):
        c = math.cos(2 * math.pi * n / 3)
        d = math.sin(2 * math.pi * n / 3)
        for f in 1, -1:
            ops.append([[f * c, -f * d, 0], [d, c, 0], [0, 0, 1]])
    # symmetrise arbitrary real-space-like data: average over group and
    # inversion (D(-q) = D(q)^*)
    raw = sym_mesh(ctx, 'D', (nq, nq), 3)
    D = {}
    for p in points((nq, nq)):
        acc = 0.0
        for U in ops:
            U = np.array(U)
            v = cart(p)
            w = (U[0, 0] * v[0] + U[0, 1] * v[1],
                U[1, 0] * v[0] + U[1, 1] * v[1])
            # D(U q) = U D(q) U^T, thus D(q) = U^T D(U q) U
            acc = acc + U.T.dot(raw[cryst(w) + (0,)]).dot(U)
        D[p] = acc / 6
    irr = sorted(ctx.e.bravais.irreducibles(nq))
    ph = ctx.e.ph.Model(amass=np.ones(1), at=a, tau=np.zeros((1, 3)),
        atom_order=['A'])
    ctx.e.ph.q2r(ph, np.array([D[p + (0,)] for p in irr]),
        [[2 * math.pi * x / nq for x in p] for p in irr], nq=nq)
    for p in points((nq, nq)):
        ctx.eq(ph.D(*kpoint((nq, nq), p)), D[p], 'D at mesh point', tol=1e-7)

@harness(bounds='meshes up to 6 points, 1..2 orbitals, any interaction')
def coulomb(ctx):
    np = ctx.np
    nq = ctx.choice('mesh', [(1,), (2,), (3,), (2, 3), (2, 1, 2)])
    lat, r = ctx.choice('lattice', [('cubic', [[0.0] * 3]), ('hex', R2H),
        ('tric', R2)])
    n = len(r)
    W = ctx.cplxs('W', (*nq, n, n))
    m = ctx.e.elel.Model()
    ctx.e.elel.q2r(m, np.array(W), lattice(ctx, lat), np.array(r))
    flat = W.reshape((-1, n, n))
    for i, p in enumerate(points(nq)):
        ctx.eq(m.W(*kpoint(nq, p)), flat[i], 'W at mesh point')

@harness(bounds='q and k meshes up to 4 points, 1..2 atoms, 1..2 orbitals, '
    'any coupling and masses', budget=100)
def coupling(ctx):
    np = ctx.np
    nq, nk = ctx.choice('mesh', [((2,), (2,)), ((2,), (3,)), ((3,), (1,)),
        ((1, 2), (2, 2)), ((2, 1, 1), (1, 1, 2))])
    lat, r, tau = ctx.choice('lattice', [('cubic', [[0.0] * 3], [[0.0] * 3]),
        ('hex', R2H, [[0.0, 0.0, 0.0]]),
        ('tric', [[0.1, 0.2, 0.0]], R2)])
    nel, nat = len(r), len(tau)
    M = ctx.reals('M', (nat,), 1.0, 9.0)
    own = ctx.choice('model divides', [True, False])
    inp = ctx.choice('input divided', [True, False])
    el = ctx.e.el.Model()
    el.size = nel
    ph = ctx.e.ph.Model(amass=M, at=lattice(ctx, lat), tau=np.array(tau),
        atom_order=['A', 'B'][:nat], divide_mass=own)
    elph = ctx.e.elph.Model(el=el, ph=ph, divide_mass=own)
    g = ctx.cplxs('g', (*nq, 3 * nat, *nk, nel, nel))
    ctx.e.elph.q2r(elph, nq, nk, np.array(g), np.array(r), divide_mass=inp)
    flat = g.reshape((len(points(nq)), 3 * nat, len(points(nk)), nel, nel))
    for i, p in enumerate(points(nq)):
        for j, k in enumerate(points(nk)):
            ref = np.array(flat[i, :, j])
            for x in range(3 * nat):
                if own and not inp:
                    ref[x] = ref[x] / np.sqrt(M[x // 3])
                elif inp and not own:
                    ref[x] = ref[x] * np.sqrt(M[x // 3])
            ctx.eq(elph.g(*kpoint(nq, p), *kpoint(nk, k)), ref,
                'g at mesh points', tol=1e-7)
