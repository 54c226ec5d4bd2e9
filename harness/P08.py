"""Hermitian, periodic, velocities."""

from symx.harness import harness
from symx.common import (fourier, phase, dagger, herm_data, el_model,
    ph_model)

LISTS = [
    [(0, 0, 0)],
    [(1, 0, 0), (0, 0, 0), (-2, 1, 0), (0, 0, 3)],
    [(0, 0, 0), (1, -1, 0), (1, -1, 0), (-1, 2, -2), (0, 0, 1)],
]

@harness(bounds='2 orbitals, lattice-vector lists of 1, 4, 5 (with repeated '
    'vectors), any complex data, any k')
def electrons(ctx):
    np = ctx.np
    R = ctx.choice('list', LISTS)
    n = 2
    data = ctx.cplxs('H', (len(R), n, n))
    k = [ctx.angle('k%d' % i) for i in range(3)]
    el = el_model(ctx, np.array(R), data)
    H = el.H(*k)
    ref = fourier(ctx, R, data, k)
    ctx.eq(H, ref, 'H is lattice Fourier sum')
    v = el.v(*k)
    for x in range(3):
        dv = 0.0
        for i in range(len(R)):
            if R[i][x]:
                dv = dv + 1j * R[i][x] * data[i] * phase(ctx, R[i], k)
        ctx.eq(v[x] + np.zeros((n, n)), dv + np.zeros((n, n)),
            'v is derivative')
    for i in range(3):
        s = list(k)
        s[i] = s[i] + 2 * np.pi
        ctx.eq(el.H(*s), H, 'H periodic')
    ctx.eq(el.H(k[0]), fourier(ctx, R, data, [k[0], 0, 0]), 'default k')

@harness(bounds='1..3 orbitals, 1+2x2 lattice vectors, any Hermitian data')
def electrons_hermitian(ctx):
    np = ctx.np
    n = ctx.choice('orbitals', [1, 2, 3])
    k = [ctx.angle('k%d' % i) for i in range(3)]
    R, data = herm_data(ctx, 'H', [(1, 0, 0), (1, -2, 1)], n)
    el = el_model(ctx, R, data)
    H = el.H(*k)
    ctx.eq(H, dagger(ctx, H), 'H Hermitian')
    ctx.eq(el.v(*k), dagger(ctx, el.v(*k)), 'v Hermitian')

@harness(bounds='2 orbitals, any real Hermitian data')
def electrons_real(ctx):
    np = ctx.np
    k = [ctx.angle('k%d' % i) for i in range(3)]
    R, data = herm_data(ctx, 'H', [(1, 0, 0), (1, -2, 1)], 2, real=True)
    el = el_model(ctx, R, data)
    m = [-x for x in k]
    ctx.eq(el.H(*m), np.conj(el.H(*k)), 'time reversal')
    ctx.eq(el.v(*m), -np.conj(el.v(*k)), 'velocity odd')

@harness(bounds='hopping to any lattice vector within -3..3')
def hopping(ctx):
    np = ctx.np
    R = LISTS[1]
    data = ctx.cplxs('H', (len(R), 2, 2))
    el = el_model(ctx, np.array(R), data)
    S = tuple(ctx.choice('S%d' % i, range(-2, 4)) for i in range(3))
    if S in R:
        ctx.eq(el.t(*S), data[R.index(S)], 't is element')
    else:
        ctx.eq(el.t(*S), np.zeros((2, 2)), 't vanishes')
    ph = ph_model(ctx, np.array(R), ctx.reals('D', (len(R), 3, 3)))
    el2 = ctx.e.elel.Model()
    el2.R = np.array(R)
    el2.data = data
    el2.size = 2
    if S in R:
        ctx.eq(ph.C(*S), ph.data[R.index(S)], 'C is element')
        ctx.eq(el2.WR(*S), data[R.index(S)], 'W is element')
    else:
        ctx.eq(ph.C(*S), np.zeros((3, 3)), 'C vanishes')
        ctx.eq(el2.WR(*S), np.zeros((2, 2)), 'W vanishes')

@harness(bounds='1..2 atoms, lists of 1, 4, 5 lattice vectors, any real data')
def phonons(ctx):
    np = ctx.np
    R = ctx.choice('list', LISTS)
    nat = ctx.choice('atoms', [1, 2])
    q = [ctx.angle('q%d' % i) for i in range(3)]
    data = ctx.reals('D', (len(R), 3 * nat, 3 * nat))
    ph = ph_model(ctx, np.array(R), data)
    D = ph.D(*q)
    ctx.eq(D, fourier(ctx, R, data, q), 'D is lattice Fourier sum')
    ctx.eq(ph.D(*[-x for x in q]), np.conj(D), 'time reversal')
    ctx.eq(ph.D(q[0] + 2 * np.pi, q[1] - 2 * np.pi, q[2]), D, 'D periodic')

@harness(bounds='2 atoms, any symmetric real data')
def phonons_hermitian(ctx):
    np = ctx.np
    q = [ctx.angle('q%d' % i) for i in range(3)]
    R, data = herm_data(ctx, 'D', [(1, 0, 0), (1, -2, 1)], 6, real=True)
    ph = ph_model(ctx, R, data)
    D = ph.D(*q)
    ctx.eq(D, dagger(ctx, D), 'D Hermitian')

@harness(bounds='2 orbitals, lists of 1, 4, 5 lattice vectors, any data')
def coulomb(ctx):
    np = ctx.np
    R = ctx.choice('list', LISTS)
    q = [ctx.angle('q%d' % i) for i in range(3)]
    data = ctx.cplxs('W', (len(R), 2, 2))
    el = ctx.e.elel.Model()
    el.R = np.array(R)
    el.data = data
    el.size = 2
    W = el.W(*q)
    ctx.eq(W, fourier(ctx, R, data, q), 'W is lattice Fourier sum')
    ctx.eq(el.W(q[0] + 2 * np.pi, q[1] - 2 * np.pi, q[2]), W, 'W periodic')
    R, data = herm_data(ctx, 'V', [(1, 0, 0), (1, -2, 1)], 2)
    el.R = R
    el.data = data
    W = el.W(*q)
    ctx.eq(W, dagger(ctx, W), 'W Hermitian')

def coupling_model(ctx, Rg, Rk, nat, nel, data=None):
    np = ctx.np
    el = ctx.e.el.Model()
    el.size = nel
    ph = ctx.e.ph.Model(amass=np.ones(nat), at=np.eye(3),
        tau=np.zeros((nat, 3)), atom_order=['X'] * nat)
    elph = ctx.e.elph.Model(el=el, ph=ph, Rk=np.array(Rk),
        dk=np.ones((1, 1, len(Rk)), dtype=int), Rg=np.array(Rg),
        dg=np.ones((1, 1, 1, len(Rg)), dtype=int))
    if data is None:
        data = ctx.cplxs('g', (len(Rg), 3 * nat, len(Rk), nel, nel))
    elph.data[...] = data
    elph.gq = np.empty((3 * nat, len(Rk), nel, nel), dtype=complex)
    elph.Rk0 = ctx.e.misc.vector_index(elph.Rk, (0, 0, 0))
    return elph, data

@harness(bounds='1 atom, 2 orbitals, 3x3 pairs of lattice vectors, any data, '
    'any q and k, several evaluations of the same model')
def coupling(ctx):
    np = ctx.np
    Rg = [(0, 0, 0), (1, 0, 0), (0, -1, 2)]
    Rk = [(-1, 0, 0), (0, 0, 0), (1, 1, 0)]
    elph, data = coupling_model(ctx, Rg, Rk, 1, 2)

    def oracle(q, k):
        out = 0.0
        for i in range(len(Rg)):
            for j in range(len(Rk)):
                out = out + (data[i, :, j] * phase(ctx, Rg[i], q)
                    * phase(ctx, Rk[j], k))
        return out

    q = [ctx.angle('q%d' % i) for i in range(3)]
    k = [ctx.angle('k%d' % i) for i in range(3)]
    ctx.eq(elph.g(*q, *k), oracle(q, k), 'g is double Fourier sum')
    ctx.eq(elph.g(*q, k[0]), oracle(q, [k[0], 0, 0]), 'same q, other k')
    p = [q[0] + 1, q[1], q[2]]
    ctx.eq(elph.g(*p, *k), oracle(p, k), 'other q')
    p = [q[0], q[1], q[2] + 1]
    ctx.eq(elph.g(*p, *k), oracle(p, k), 'other last component of q')
    ctx.eq(elph.g(q[0], q[1] + 2 * np.pi, q[2], k[0] - 2 * np.pi, k[1], k[2]),
        oracle(q, k), 'periodic')

@harness(bounds='1 atom, 2 orbitals, lattice vectors in -1..2')
def coupling_element(ctx):
    np = ctx.np
    Rg = [(0, 0, 0), (1, 0, 0), (0, -1, 2)]
    Rk = [(-1, 0, 0), (0, 0, 0), (1, 1, 0)]
    elph, data = coupling_model(ctx, Rg, Rk, 1, 2)
    S = ctx.choice('S', Rg + [(0, 0, 1)])
    T = ctx.choice('T', Rk + [(1, 0, 0)])
    g = elph.gR(*S, *T)
    if S in Rg and T in Rk:
        ctx.eq(g, data[Rg.index(S), :, Rk.index(T)], 'gR is element')
    else:
        ctx.eq(g, np.zeros((3, 2, 2)), 'gR vanishes')
