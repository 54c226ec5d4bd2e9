"""Molecular dynamics: forces and Hessians derive from one energy."""

import cmath
import math

from symx.harness import harness
from symx.bands import Occupation, divided
from symx.spectra import Spectra, unitary, levels
from symx.common import (elph_model, el_model, ph_model, lattice, phase,
    fourier, dagger, double_fourier)

# Terms of coupling for one orbital: displacement in cell Rg changes matrix
# element between cells 0 and Rk; the lower line is the Hermitian conjugate.
RG = [(0, 0, 0), (1, 0, 0)]
RK = [(-1, 0, 0), (0, 0, 0), (1, 0, 0)]

def coupling(ctx, name, nat=2, components=None, fixed=False):
    """Real-space coupling of one orbital in a chain."""
    np = ctx.np
    d = np.zeros((2, 3 * nat, 3, 1, 1)) + 0j
    for x in range(3 * nat) if components is None else components:
        if fixed:
            a, b, c = [0.1 + 0.3 * math.sin(7 * x + i) for i in range(3)]
        else:
            a, b, c = [ctx.real('%s%d_%d' % (name, x, i), -1, 1)
                for i in range(3)]
        d[0, x, 1] = a
        d[1, x, 1] = b
        d[0, x, 0] = c
        d[1, x, 2] = c
    return d

def chain(ctx, nat=2, components=None, fixed=(), C=None, complex_hopping=False,
        M=None):
    """One orbital per cell, atoms on a chain, any data."""
    np = ctx.np
    if 'el' in fixed:
        t = [0.1, -0.35]
    else:
        t = [ctx.real('t%d' % i, -1, 1) for i in range(2)]
    el = el_model(ctx, np.array([(0, 0, 0), (1, 0, 0), (-1, 0, 0)]),
        np.array([t[0], t[1], t[1]]).reshape((3, 1, 1)) + 0j)
    el.rydberg = True
    if C is None:
        C = springs(ctx, nat, 'ph' in fixed)
    ph = ph_model(ctx, np.array([(0, 0, 0), (1, 0, 0), (-1, 0, 0)]), C,
        r=np.array([[0.3 * i, 0.1 * i, 0.0] for i in range(nat)]),
        divide_mass=False, M=M)
    data = coupling(ctx, 'g', nat, components, 'g' in fixed)
    elph, _ = elph_model(ctx, RG, RK, nat, 1, data=data, el=el, ph=ph,
        divide_mass=False)
    return elph

def springs(ctx, nat, fixed=False):
    np = ctx.np
    n = 3 * nat
    D = np.zeros((3, n, n))
    for i in range(n):
        D[0, i, i] = 5.0 + 0.3 * i
        D[1, i, i] = -0.7
    D[0, 0, n - 2] = D[0, n - 2, 0] = 0.2
    D[1, 0, n - 1] = 0.15
    if not fixed:
        D[0, 0, 0] = ctx.real('C0', 4, 9)
        D[0, 0, n - 1] = D[0, n - 1, 0] = ctx.real('C1', -1, 1)
        D[1, 0, n - 2] = ctx.real('C2', -1, 1)
    D[2] = D[1].T
    return D

def make(ctx, elph, f, mu, kT, n=1, **kwargs):
    """Driver with given rather than self-consistent chemical potential."""
    class Driver(ctx.e.md.Driver):
        def find_Fermi_level(self):
            self.mu = mu[0]
            return self.mu

    return Driver(elph, kT, f, n, **kwargs)

def displacements(ctx, value=None):
    """Any displacements of two atoms without translation."""
    u = [ctx.real('u%d' % i, -1, 1) for i in range(3)]
    return u, ctx.np.array(u + [-x for x in u])

@harness(bounds='chain of 2 k points, 1 orbital, 2 atoms; any coupling, '
    'displacements, chemical potential, and occupation function (quadratic, '
    'forces: cubic)')
def forces(ctx):
    np = ctx.np
    elph = chain(ctx, components=(0, 1, 4), fixed=('ph', 'el', 'g'))
    elph.data[0, 0, 1] = ctx.real('g', -1, 1)
    f = Occupation(ctx, 2)
    f.c += ctx.choice('cubic', [[], [0.05]])
    mu = [0.1]
    kT = ctx.choice('kT', [0.8, 1.3]) if len(f.c) == 3 else 0.8
    d = make(ctx, elph, f, mu, kT, 0.8, nk=(2,), unscreen=False)
    i = ctx.choice('direction', [0, 1, 2, None])
    x = ctx.real('x', -1, 1)
    y = ctx.real('y', -1, 1)
    m = ctx.real('mu', -1, 1)

    def at(x=x, m=m):
        v = [y, 0.3 + y, -0.4]
        if i is not None:
            v[i] = x
        mu[0] = m
        return d.free_energy(np.array(v + [-y for y in v]), show=False)

    def force(x=x, m=m):
        at(x, m)
        return d.jacobian(show=False)

    def number(m):
        at(m=m)
        return d.density().sum()

    if i is None:
        ctx.eq(ctx.derivative(lambda m: at(m=m), m), 0.8 - number(m),
            'electrons')
        return
    F = force()
    ctx.eq(ctx.derivative(at, x), F[i] - F[i + 3], 'force')
    if len(f.c) > 3:
        return
    G = ctx.derivative(force, x)
    FM = ctx.derivative(lambda m: force(m=m), m)
    NM = ctx.derivative(number, m)
    ctx.assume(NM > 0.1)
    at()
    C = d.hessian()
    ctx.eq(C[:, i] - C[:, i + 3], G + FM * (FM[i] - FM[i + 3]) / NM, 'Hessian')

def kpoints(nk):
    return [2 * math.pi * i / nk for i in range(nk)]

def force_constants(ctx, elph, q):
    R = [tuple(int(x) for x in r) for r in elph.ph.R]
    return fourier(ctx, R, elph.ph.data, q)

@harness(bounds='chains of 2 and 3 k points with 1 to all q points, 1 '
    'orbital, 2 atoms; any coupling, hopping, and quadratic occupation '
    'function')
def stationary(ctx):
    """Input model belongs to undistorted structure."""
    np = ctx.np
    nk, nq = ctx.choice('mesh', [(2, 1), (2, 2), (3, 3)])
    elph = chain(ctx, components=(0, 5), fixed=('g',))
    elph.data[0, 0, 1] = ctx.real('g', -1, 1)
    f = Occupation(ctx, 2)
    f.c[1] = ctx.real('slope', -0.9, -0.5)
    f.c[2] = 0.1
    d = make(ctx, elph, f, [0.1], 1.2, nk=(nk,), nq=(nq,))
    d.free_energy(show=False)
    ctx.eq(d.jacobian(show=False), np.zeros(6), 'no force')
    C = d.hessian(gamma_only=False)
    for i, q in enumerate(kpoints(nq)):
        ctx.eq(C[i], force_constants(ctx, elph, (q, 0, 0)),
            'Hessian of input model')
    ctx.eq(d.hessian(), C[0].real, 'real part for q = 0')
    ph = d.phonons(divide_mass=False)
    for q in kpoints(nq):
        ctx.eq(ph.D(q), force_constants(ctx, elph, (q, 0, 0)),
            'phonons of input model')
    el = d.electrons(rydberg=True)
    for k in kpoints(nk):
        ctx.eq(el.H(k), elph.el.H(k) - 0.1, 'electrons of input model')

@harness(bounds='chains of 2 and 3 k points with all q points, 1 orbital, 2 '
    'atoms; any coupling, displacement, quadratic occupation function')
def screened(ctx):
    """Second derivative for all momenta at displaced structure."""
    np = ctx.np
    N = ctx.choice('mesh', [2, 3])
    elph = chain(ctx, components=(0, 5), fixed=('g', 'el'),
        M=np.array([1.5, 4.0]))
    elph.data[0, 0, 1] = ctx.real('g', -1, 1)
    f = Occupation(ctx, 2)
    mu = [0.1]
    kT = 1.2
    d = make(ctx, elph, f, mu, kT, nk=(N,), nq=(N,), unscreen=False)
    x = ctx.real('x', 0.1, 0.2)
    d.free_energy(np.array([x, 0.1, 0.0, -x, -0.1, 0.0]), show=False)
    C = d.hessian(gamma_only=False)
    u = d.u
    points = [(q, 0, 0) for q in kpoints(N)]
    zero = (0, 0, 0)
    e = []
    for k in points:
        e.append(elph.el.H(*k)[0, 0].real - 0.1
            + sum(u[y] * bond(ctx, elph, zero, k)[y].real for y in (0, 5)))
    f2 = [f.delta(a / kT) / -kT for a in e]
    for i, q in enumerate(points):
        g = [bond(ctx, elph, q, k) for k in points]
        D = force_constants(ctx, elph, q)
        for y in range(6):
            for z in range(6):
                s = 0.0
                if y in (0, 5) and z in (0, 5):
                    for j in range(N):
                        l = (i + j) % N
                        if l == j:
                            w = f2[j]
                        else:
                            # quadratic function: mean slope
                            w = 0.5 * (f2[j] + f2[l])
                        s = s + np.conj(g[j][y]) * g[j][z] * w
                    s = 2.0 / N * s
                    if i == 0:
                        A = sum(g[j][y].real * f2[j] for j in range(N))
                        B = sum(g[j][z].real * f2[j] for j in range(N))
                        s = s - 2.0 / N * A * B / sum(f2)
                ctx.eq(C[i, y, z], D[y, z] + s, 'screened force constants')
    divide = ctx.choice('divide_mass', [True, False])
    ph = d.phonons(divide_mass=divide)
    ctx.eq(ph.r, elph.ph.r + np.reshape(u, (2, 3)), 'positions')
    M = np.repeat(ph.M, 3)
    ctx.eq(M, [1.5] * 3 + [4.0] * 3, 'masses')
    for i, q in enumerate(points):
        D = C[i] / np.sqrt(np.outer(M, M)) if divide else C[i]
        ctx.eq(ph.D(*q), D, 'phonons')

def bond(ctx, elph, q, k):
    """<k + q| dV/du_q |k> from real-space data."""
    g = 0.0
    for i, R in enumerate(RG):
        for j, S in enumerate(RK):
            g = g + (elph.data[i, :, j, 0, 0] * phase(ctx, R, q)
                * phase(ctx, S, k))
    return g

def molecule(ctx, S, sparse, N=2, w0=None, V0=None, w=None, V=None, u=None,
        free=(1, 3), C=None, real=True):
    """Model with known spectrum without and with displacements."""
    np = ctx.np
    H0 = S.matrix(w0, V0)
    H = S.matrix(w, V)
    d = np.zeros((6, 2, 2)) + 0j
    for i, x in enumerate(free):
        d[x] = np.array([[0.25, 0.125], [0.125, -0.5]]) * (1 + i)
        d[x, 0, 1] = ctx.real('d%d' % x, -1, 1)
        d[x, 1, 0] = d[x, 0, 1]
        if not real:
            d[x, 0, 1] = d[x, 0, 1] + 0.25j
            d[x, 1, 0] = d[x, 1, 0] - 0.25j
    rest = H - H0
    for x in range(1, 6):
        if u[x]:
            rest = rest - u[x] * d[x]
    d[0] = rest / u[0]
    zero = np.array([(0, 0, 0)])
    el = el_model(ctx, zero, (H0 + 0j)[None])
    el.rydberg = True
    ph = ph_model(ctx, zero, C[None], r=np.array([[0.0, 0, 0], [0.3, 0.1, 0]]),
        divide_mass=False)
    elph, _ = elph_model(ctx, zero, zero, 2, 2, data=d[None, :, None], el=el,
        ph=ph, divide_mass=False)
    if sparse:
        elph = elph.supercell(1, 1, 1, sparse=True)
    return elph, H0, H, d

def power(A, n, one):
    B = one
    for _ in range(n):
        B = B @ A
    return B

def trace(A):
    return A[0, 0] + A[1, 1]

@harness(bounds='2 orbitals, 2 atoms, one (k and q) point, dense and sparse; '
    'any real (dense: Hermitian) Hamiltonians without and with displacement, '
    'any chemical potentials, quadratic occupation functions')
def matrices(ctx):
    """Energy and derivatives from traces of matrix polynomials."""
    np = ctx.np
    sparse = ctx.choice('sparse', [False, True])
    real = sparse or ctx.choice('real', [True, False])
    S = Spectra(ctx, phases=False)
    w0, w = [-0.3, 0.5], levels(ctx, 'e')
    V0 = np.array([[0.8, -0.6], [0.6, 0.8]]) + 0j
    if real:
        theta = ctx.angle('theta')
        c, s = np.cos(theta), np.sin(theta)
        V0 = V0.real
        V = np.array([[c, -s], [s, c]])
    else:
        V0[1] = V0[1] * 1j
        V = unitary(ctx, ctx.angle('theta'), 0.7)
    u = np.array([0.5, -0.25, 0.0, -0.5, 0.25, 0.0])
    C0 = np.diag([5.0, 6.0, 7.0, 8.0, 9.0, 4.0])
    C0[0, 4] = C0[4, 0] = 0.3
    elph, H0, H, g = molecule(ctx, S, sparse, 2, w0, V0, w, V, u, C=C0,
        real=real)
    f = Occupation(ctx, 2)
    f.c[1] = ctx.real('slope', -0.9, -0.5)
    f.c[2] = 0.0625
    kT = 0.8
    mu = [0.1]
    d = make(ctx, elph, f, mu, kT, 2, unscreen=False)
    ctx.true(d.sparse == sparse, 'sparse')
    mu[0] = m = ctx.real('m', -0.5, 0.5)
    one = np.eye(2)

    def occ(H, m):
        A = (H - m * one) / kT
        return sum(c * power(A, i, one) for i, c in enumerate(f.c))

    def pot(H, m):
        A = (H - m * one) / kT
        return kT * sum((c - (i * c / (i + 1))) * power(A, i + 1, one)
            for i, c in enumerate(f.c))

    F0 = [-2 * trace(occ(H0, 0.1) @ g[x]).real for x in range(6)]
    E = 2 * trace(pot(H, m)).real + 2 * m + 0.5 * u.dot(C0).dot(u)
    E = E + sum(u[x] * F0[x] for x in range(6) if u[x])
    ctx.eq(d.free_energy(np.array(u), show=False), E, 'energy')
    F = d.jacobian(show=False)
    P = occ(H, m)
    for x in range(6):
        ctx.eq(F[x], 2 * trace(P @ g[x]).real + C0[x].dot(u) + F0[x], 'force')
    ctx.eq(d.density().sum(), 2 * trace(P).real, 'electrons')
    ctx.eq(d.density(), [2 * P[i, i].real for i in range(2)], 'density')
    # orbitals of two atoms are on one of them or on each:
    for basis in [[0], [1]], [[], [1, 0]], [[1], []]:
        d.basis = basis
        ctx.eq(d.density_per_atom(), [sum(2 * P[i, i].real for i in atom)
            + 0.0 for atom in basis], 'density per atom')
    C = d.hessian()
    A = (H - m * one) / kT
    dP = lambda x: (f.c[1] * g[x] + f.c[2] * (g[x] @ A + A @ g[x])) / kT
    slope = (f.c[1] * one + 2 * f.c[2] * A) / kT
    DOS = trace(slope).real
    for x, y in ((0, 0), (0, 1), (3, 0), (1, 3), (5, 5)):
        ctx.eq(C[x, y], C0[x, y] + 2 * trace(dP(x) @ g[y]).real
            - 2 * trace(slope @ g[x]).real * trace(slope @ g[y]).real / DOS,
            'Hessian')

def circulant(ctx, S, N, e):
    """Register matrix with plane waves (standing waves) as eigenvectors."""
    np = ctx.np
    if N == 2:
        V = [[1.0, 1.0], [1.0, -1.0]]
    else:
        V = [[1.0, 1.0, 1.0], [1.0, -1.0, 0.0], [1.0, 1.0, -2.0]]
    V = [[x / math.sqrt(sum(y * y for y in v)) for x in v] for v in V]
    H = sum(e[i] * np.outer(V[i], V[i]) for i in range(N))
    S.know(H, [e[i] for i in range(N)], np.array(V).T)

@harness(bounds='chains of 2 and 3 cells, 1 orbital, 2 atoms; any coupling, '
    'displacements, and quadratic occupation function; unscreening on '
    'primitive or super cell')
def supercell(ctx):
    """Dense matrices on meshes or sparse matrices on supercells."""
    np = ctx.np
    N = ctx.choice('cells', [2, 3])
    unscreen = ctx.choice('unscreen', [True, False])
    direct = ctx.choice('direct', [True, False]) if unscreen else True
    elph = chain(ctx, components=(0, 5), fixed=('g', 'el'),
        M=np.array([1.5, 4.0]))
    elph.data[0, 0, 1] = ctx.real('g', -1, 1)
    f = Occupation(ctx, 2)
    f.c[1] = ctx.real('slope', -0.9, -0.5)
    f.c[2] = 0.0625
    mu, kT, n = [0.1], 1.2, 0.8
    d = make(ctx, elph, f, mu, kT, n, nk=(N,), nq=(N,), unscreen=unscreen)
    D = np.array(elph.ph.data)
    x = ctx.real('x', 0.1, 0.2)
    u = np.array([x, 0.1, 0.0, -x, -0.1, 0.0])
    S = Spectra(ctx, phases=False)
    points = [(q, 0, 0) for q in kpoints(N)]
    e0 = [elph.el.H(*k)[0, 0].real for k in points]
    circulant(ctx, S, N, e0)
    circulant(ctx, S, N, [e0[i] + sum(u[y] * bond(ctx, elph, (0, 0, 0),
        points[i])[y].real for y in (0, 5)) for i in range(N)])
    if direct:
        s = make(ctx, elph.supercell(N, 1, 1, sparse=True), f, mu, kT, n * N,
            unscreen=unscreen)
    else:
        s = make(ctx, elph, f, mu, kT, n, nx=0.125, nk=(N,), nq=(N,),
            supercell=(N, 1, 1))
        ctx.eq(s.nx, 0.125 * N, 'excited electrons')
    ctx.eq(s.n, n * N, 'electrons')
    ctx.eq(elph.ph.data, D, 'input model')
    ctx.true(tuple(d.nk) == (N, 1, 1) and tuple(s.nk) == (1, 1, 1), 'meshes')
    ctx.true(s.sparse and not d.sparse, 'representations')
    ctx.eq(s.free_energy(np.tile(u, N), show=False),
        N * d.free_energy(np.array(u), show=False), 'energy')
    ctx.eq(s.jacobian(show=False), np.tile(d.jacobian(show=False), N),
        'forces')
    ctx.eq(s.density(), np.tile(d.density(), N), 'density')
    ctx.fails(s.density_per_atom, 'orbitals unknown')
    s.basis = d.basis = [[], [0]]
    one = d.density_per_atom()
    ctx.eq(one, [0.0, d.density()[0]], 'density per atom')
    ctx.eq(s.density_per_atom(), np.tile(one, N), 'density per atom')
    C = d.hessian(gamma_only=False)
    c = s.hessian()
    for i, q in enumerate(points):
        ctx.eq(C[i], sum(c[:6, 6 * j:6 * j + 6] * phase(ctx, (j, 0, 0), q)
            for j in range(N)), 'Hessian')
    h = d.electrons(rydberg=True)
    H = s.electrons(rydberg=True).H()
    for i, k in enumerate(points):
        ctx.eq(h.H(*k), sum(H[:1, j:j + 1] * phase(ctx, (j, 0, 0), k)
            for j in range(N)), 'electrons')

OPERATIONS = ['free_energy', 'jacobian', 'hessian', 'all q', 'electrons',
    'phonons', 'density', 'superconductivity', 'i-PI', 'random']

@harness(bounds='chain of 2 k and q points, 1 orbital, 2 atoms; any coupling '
    'and displacements; all pairs of 10 operations between evaluations',
    budget=60)
def histories(ctx):
    np = ctx.np
    elph = chain(ctx, components=(0, 5), fixed=('g', 'el', 'ph'),
        C=np.diag([5.0, 6.0, 7.0, 8.0, 9.0, 5.5])[None] * np.array(
            [1.0, 0.0, 0.0]).reshape((3, 1, 1)))
    elph.data[:, 5] = 0.0
    elph.data[0, 0, 1] = ctx.real('g', -0.5, 0.5)
    f = Occupation(ctx, 2)
    f.c[1] = -0.7
    f.c[2] = 0.0625
    d = make(ctx, elph, f, [0.1], 1.2, 0.8, nk=(2,), nq=(2,))
    x = ctx.real('x', 0.1, 0.2)
    u = np.array([x, 0.1, 0.3, x, 0.0, 0.0])
    U = np.array(u)
    models = [np.array(a) for a in (elph.data, elph.ph.data, elph.el.data,
        elph.ph.r, elph.ph.R, elph.el.R, elph.Rk, elph.Rg)]
    E = d.free_energy(u, show=False)
    F = d.jacobian(show=False)
    C = d.hessian(gamma_only=False)
    D = d.hessian()
    rho = d.density()
    for i in range(2):
        op = ctx.choice('operation %d' % i, OPERATIONS)
        if op == 'free_energy':
            d.free_energy(2 * U, show=False)
        elif op == 'jacobian':
            d.jacobian(-U, show=False)
        elif op == 'hessian':
            d.hessian(apply_asr_simple=True)
        elif op == 'all q':
            d.hessian(gamma_only=False, kT=0.7)
        elif op == 'electrons':
            d.electrons()
        elif op == 'phonons':
            d.phonons()
        elif op == 'density':
            d.density()
        elif op == 'superconductivity':
            d.superconductivity()
        elif op == 'i-PI':
            r = elph.ph.r + 0.1
            d(None, r)
            ctx.eq(r, elph.ph.r + 0.1, 'positions handed in')
        elif op == 'random':
            d.random_displacements()
            ctx.eq(d.u[:3] + d.u[3:], np.zeros(3), 'no translation')
            ctx.true(abs(d.u).max() <= 0.02, 'amplitude')
    ctx.eq(u, U, 'displacements handed in')
    ctx.eq(d.free_energy(u, show=False), E, 'same energy')
    ctx.eq(d.jacobian(show=False), F, 'same forces')
    ctx.eq(d.density(), rho, 'same density')
    ctx.eq(d.hessian(), D, 'same Hessian')
    ctx.eq(d.hessian(gamma_only=False), C, 'same Hessians')
    ctx.eq(u, U, 'displacements handed in')
    for a, b in zip(models, (elph.data, elph.ph.data, elph.el.data, elph.ph.r,
            elph.ph.R, elph.el.R, elph.Rk, elph.Rg)):
        ctx.eq(b, a, 'input models')

@harness(bounds='chain of 2 k and q points, 1 orbital, 2 atoms; any coupling, '
    'any displacement and any translation of it')
def interface(ctx):
    """Rigid shifts, i-PI, and Hessian options."""
    np = ctx.np
    elph = chain(ctx, components=(0, 1, 5), fixed=('g', 'el', 'ph'))
    elph.data[0, 0, 1] = ctx.real('g', -1, 1)
    f = Occupation(ctx, 2)
    f.c[1] = -0.7
    f.c[2] = 0.0625
    d = make(ctx, elph, f, [0.1], 1.2, 0.8, nk=(2,), nq=(2,))
    x = ctx.real('x', 0.1, 0.2)
    u = np.array([x, 0.1, 0.3, -x, -0.1, -0.3])
    s = np.tile(ctx.reals('s', (3,), -1, 1), 2)
    E = d.free_energy(np.array(u), show=False)
    F = d.jacobian(show=False)
    C = d.hessian(gamma_only=False)
    ctx.eq(d.free_energy(u + s, show=False), E, 'energy of shifted crystal')
    ctx.eq(d.jacobian(show=False), F, 'forces on shifted crystal')
    ctx.eq(d.u, u, 'shift removed')
    res = d(np.eye(3), elph.ph.r + (u + s).reshape((2, 3)))
    ctx.eq(res[0], 0.5 * E, 'energy in Ha')
    ctx.eq(np.ravel(res[1]), -0.5 * F, 'forces in Ha')
    ctx.eq(res[2], np.zeros((3, 3)), 'virial')
    A = d.hessian(gamma_only=False, apply_asr_simple=True)
    self = C[0].reshape((2, 3, 2, 3)).sum(axis=2)
    for q in range(2):
        for a in range(2):
            for b in range(2):
                i, j = slice(3 * a, 3 * a + 3), slice(3 * b, 3 * b + 3)
                ctx.eq(A[q, i, j], C[q, i, j] - self[a] if a == b
                    else C[q, i, j], 'acoustic sum rule')
    for a in range(2):
        ctx.eq(A[0].reshape((2, 3, 2, 3)).sum(axis=2)[a], np.zeros((3, 3)),
            'no force upon translation')
    d.free_energy(np.zeros(6), show=False)
    ctx.eq(d.jacobian(show=False), np.zeros(6), 'no force')

@harness(bounds='chain of 2 k and q points, 1 orbital, 1 atom; any coupling '
    'along one axis, masses, smearing 0.5 or 1.2; dense and sparse')
def coupling_strength(ctx):
    """Driver.superconductivity and Fermi-surface average."""
    np = ctx.np
    N, kT = 2, ctx.choice('kT', [1.2, 0.5])
    free = ctx.choice('free', ['mass', 'coupling'])
    M = [ctx.real('M', 1.0, 2.0) if free == 'mass' else 1.5]
    inv = (1 / np.sqrt(M[0])) ** 2
    C = np.zeros((3, 3, 3))
    C[0] = np.diag([6.0, 8.0, 9.0])
    C[1] = np.diag([0.25, 0.125, 0.0])
    C[2] = C[1]
    elph = chain(ctx, 1, (0,), ('g', 'el'), C, M=np.array(M))
    if free == 'coupling':
        elph.data[0, 0, 1] = ctx.real('g', 0.1, 0.4)
    f = Occupation(ctx, 2)
    f.c[1] = -0.7
    f.c[2] = 0.0625
    mu = 0.1
    d = make(ctx, elph, f, [mu], 1.2, 0.8, nk=(N,), nq=(N,))
    points = [(q, 0, 0) for q in kpoints(N)]
    e0 = [elph.el.H(*k)[0, 0].real for k in points]
    w2 = [[force_constants(ctx, elph, q)[y, y].real * inv for y in range(3)]
        for q in points]
    delta = [f.delta((e - mu) / kT) / kT for e in e0]
    S = Spectra(ctx, phases=False)
    circulant(ctx, S, N, e0)
    s = make(ctx, elph.supercell(N, 1, 1, sparse=True), f, [mu], 1.2, 0.8 * N)
    V = np.zeros((6, 6))
    for y in range(3):
        for i in range(N):
            for j in range(2):
                V[3 * j + y, N * y + i] = (1 - 2 * i * j) / math.sqrt(2)
    w = [w2[i][y] for y in range(3) for i in range(N)]
    S.know(sum(w[n] * np.outer(V[:, n], V[:, n]) for n in range(6)), w, V)
    total = sum(a * b for a in delta for b in delta)
    avg = []
    for i in range(N):
        avg.append(sum(delta[j] * delta[(i + j) % N]
            * abs(bond(ctx, elph, points[i], points[j])[0]) ** 2
            for j in range(N)) / total)
    N0 = sum(delta) / N
    V = [avg[i] * inv / w2[i][0] for i in range(N)]
    lamda = N0 * sum(V)
    wlog = sum(V[i] * np.log(w2[i][0]) / 2 for i in range(N)) / sum(V)
    w2nd = sum(V[i] * w2[i][0] for i in range(N)) / sum(V)
    for x in d, s:
        C, g2 = x.hessian(gamma_only=False, kT=kT)
        res = x.superconductivity(kT=kT)
        ctx.eq(res[0], lamda, 'coupling strength')
        ctx.eq(np.log(res[1]), wlog, 'logarithmic average')
        ctx.eq(res[2] ** 2, w2nd, 'second moment')
        ctx.eq(res[3] ** 2, w2[1][0], 'lowest frequency')
        if x is d:
            ctx.eq(g2[:, 0, 0], avg, 'Fermi-surface average')
        else:
            for i in range(N):
                ctx.eq(sum(g2[0, 0, 3 * j] * phase(ctx, (j, 0, 0), points[i])
                    for j in range(N)), avg[i] / N, 'Fermi-surface average')

@harness(bounds='meshes of 3, 2x3 and 3x2 k points, q meshes of which they are '
    'a multiple, 2 orbitals with one complex Hamiltonian; any coupling to one '
    'displacement and any quadratic occupation function')
def many_q(ctx):
    """Hessian at all wave vectors as sum over pairs of states."""
    np = ctx.np
    nk, nq = ctx.choice('meshes', [((3,), (3,)), ((2, 3), (1, 3)),
        ((3, 2), (3, 2)), ((1, 4), (1, 2))])
    R = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0)]
    hop = [np.array([[-0.5, 0.1], [0.1, 0.6]]),
        np.array([[0.13, 0.05j], [0.17, -0.21]]), 0,
        np.array([[0.07j, -0.19], [0.11, 0.23]]), 0]
    hop[2], hop[4] = np.conj(hop[1].T), np.conj(hop[3].T)
    el = el_model(ctx, np.array(R), np.array(hop) + 0j)
    el.rydberg = True
    ph = ph_model(ctx, np.array(R[:1]), np.diag([5.0, 6.0, 7.0])[None],
        divide_mass=False)
    # g(q, k)^+ = g(-q, k + q):
    rg, rk = [R[0], R[1], R[4]], R
    g = np.zeros((3, 3, 5, 2, 2)) + 0j
    g[0, 0, 0] = ctx.hermitian('g', 2)
    g[1, 0, 1] = 0.25 * ctx.cplxs('h', (2, 2))
    g[0, 0, 2] = np.conj(g[1, 0, 1].T)
    g[0, 1, 3] = np.array([[0.3, 0.1j], [-0.2, 0.1]])
    g[2, 1, 4] = np.conj(g[0, 1, 3].T)
    g[1, 1, 0] = np.array([[0.2, 0.1j], [-0.1j, 0.4]])
    elph, _ = elph_model(ctx, rg, rk, 1, 2, data=g, el=el, ph=ph,
        divide_mass=False)
    f = Occupation(ctx, 2)
    kT = 0.8
    d = make(ctx, elph, f, [0.1], kT, 1, nk=nk, nq=nq, unscreen=False)
    C = d.hessian(gamma_only=False)
    mesh = lambda n: [(x, y, 0.0) for x in kpoints(n[0])
        for y in (kpoints(n[1]) if len(n) > 1 else [0.0])]
    ks, qs = mesh(nk), mesh(nq)
    ctx.true(np.shape(C) == (len(qs), 3, 3), 'shape')
    states = lambda k: np.linalg.eigh(sum(t * cmath.exp(1j * (r[0] * k[0]
        + r[1] * k[1])) for r, t in zip(R, hop)))
    one = [states(k) for k in ks]
    dos = 0.0
    avg = [0.0, 0.0]
    for n, q in enumerate(qs):
        two = [states([a + b for a, b in zip(k, q)]) for k in ks]
        res = np.zeros((2, 2)) + 0j
        for k, (e1, V), (e2, W) in zip(ks, one, two):
            G = double_fourier(ctx, rg, rk, g, q, k)
            G = [np.conj(W.T) @ G[x] @ V for x in range(2)]
            for a in range(2):
                for b in range(2):
                    # relative to chemical potential:
                    w = divided(f, kT, e1[b] - 0.1, e2[a] - 0.1,
                        n == 0 and a == b)
                    for x in range(2):
                        for y in range(2):
                            res[x, y] = res[x, y] + (w * np.conj(G[x][a, b])
                                * G[y][a, b])
                    if n == 0 and a == b:
                        dos = dos + w
                        for x in range(2):
                            avg[x] = avg[x] + w * G[x][a, a]
        res = res * 2 / len(ks)
        for x in range(2):
            for y in range(2):
                if n == 0:
                    # at q = 0, electrons are conserved:
                    ctx.eq((C[n, x, y] - res[x, y] - (x == y) * (5.0 + x))
                        * dos * len(ks), -2 * np.conj(avg[x]) * avg[y],
                        'Hessian at q = 0')
                else:
                    ctx.eq(C[n, x, y], res[x, y] + (x == y) * (5.0 + x),
                        'Hessian')

@harness(bounds='supercells of 3 cells along one of two axes, 1..2 orbitals per '
    'cell, one set of hopping to nearest neighbors; any k')
def real_space(ctx):
    """Wannier Hamiltonian of supercell keeps hopping short-ranged."""
    np = ctx.np
    no = ctx.choice('orbitals', [1, 2])
    axis = ctx.choice('axis', [0, 1])
    R = [(0, 0, 0), (1, 0, 0), (-1, 0, 0)]
    t0, t1 = np.array([[0.2, 0.3], [0.3, -0.1]]), np.array([[0.4, 0.1],
        [-0.2, 0.25]])
    hop = np.array([t0, t1, t1.T])[:, :no, :no]
    if axis:
        R = [(y, x, z) for x, y, z in R]
    el = el_model(ctx, np.array(R), hop + 0j)
    el.rydberg = True
    zero = np.array([(0, 0, 0)])
    ph = ph_model(ctx, zero, np.eye(6)[None], divide_mass=False,
        a=lattice(ctx, 'ortho'), r=np.array([(0.1, 0, 0), (0.4, 0.9, 0.0)]))
    elph, _ = elph_model(ctx, zero, zero, 2, no, data=np.zeros((1, 6, 1, no,
        no)), el=el, ph=ph, divide_mass=False)
    N = (1, 3, 1) if axis else (3, 1, 1)
    big = el.supercell(*N)
    s = make(ctx, elph.supercell(*N, sparse=True), Occupation(ctx, 2), [0.1],
        0.7, 1, unscreen=False)
    k = [ctx.angle('k%d' % i) for i in range(3)]
    rydberg = ctx.choice('rydberg', [True, False])
    ctx.eq(s.electrons(rydberg=rydberg).H(*k), (big.H(*k)
        - 0.1 * np.eye(big.size)) * (1 if rydberg else ctx.e.misc.Ry), 'hopping')

@harness(bounds='2 k points or sparse matrices, 2 orbitals, 2 atoms; any '
    'chemical potentials of electrons and holes, any displacement and quadratic '
    'occupation function')
def photoexcited(ctx):
    """Valence and conduction electrons are conserved separately."""
    np = ctx.np
    zero = np.array([(0, 0, 0)])
    el = el_model(ctx, np.array([(0, 0, 0), (1, 0, 0), (-1, 0, 0)]),
        np.array([np.diag([-1.0, 1.1]), np.diag([0.1, -0.15]),
            np.diag([0.1, -0.15])]) + 0j)
    el.rydberg = True
    ph = ph_model(ctx, zero, np.diag([5.0, 6.0, 7.0, 8.0, 9.0, 4.0])[None],
        r=np.array([[0.0, 0, 0], [0.3, 0.1, 0]]), divide_mass=False)
    g = np.zeros((1, 6, 3, 2, 2)) + 0j
    g[0, 0, 1] = np.diag([0.3, 0.1])
    g[0, 0, 0] = g[0, 0, 2] = np.diag([0.05, 0.1])
    g[0, 1, 1] = np.diag([-0.2, 0.25])
    elph, _ = elph_model(ctx, zero, RK, 2, 2, data=g, el=el, ph=ph,
        divide_mass=False)
    sparse = ctx.choice('sparse', [False, True])
    if sparse:
        elph = elph.supercell(1, 1, 1, sparse=True)
    o = ctx.e.occupations
    kT, n, nx = 0.5, 2, 0.3
    x = ctx.real('x', -0.5, 0.5)
    muv = ctx.real('muv', -0.75, -0.25)
    muc = ctx.real('muc', 0.25, 0.75)
    value = [-0.5, 0.5]
    asked = []

    def find(n, e, kT, f, mu=None, **kw):
        asked.append((n, np.array(e)))
        return value[len(asked) % 2 == 0]

    old = o.find_Fermi_level, o.two_fermi_dirac.d, o.fermi_dirac
    o.find_Fermi_level = find
    o.fermi_dirac = Occupation(ctx, 2)
    o.fermi_dirac.c[1:] = ctx.real('slope', -0.9, -0.5), 0.0625
    try:
        d = ctx.e.md.Driver(elph, kT, o.two_fermi_dirac, n, nx,
            unscreen=False, **({} if sparse else dict(nk=(2,))))
        ctx.true(d.sparse == sparse, 'sparse')
        o.two_fermi_dirac.d = 7.0

        def at(x=x, v=muv, c=muc):
            value[:] = v, c
            return d.free_energy(np.array([x, 0.1, 0.0, -x, -0.1, 0.0]),
                show=False)

        def force(x=x, v=muv, c=muc):
            at(x, v, c)
            return d.jacobian(show=False)

        def numbers(v=muv, c=muc):
            at(x, v, c)
            return d.density()

        def dx(fn):
            return ctx.derivative(lambda y: fn(x=y), x)

        def dv(fn):
            return ctx.derivative(lambda y: fn(v=y), muv)

        def dc(fn):
            return ctx.derivative(lambda y: fn(c=y), muc)

        del asked[:]
        at()
        ctx.eq([a for a, b in asked], [n - nx, nx], 'electrons')
        ctx.eq(asked[0][1] - d.mu, d.e[..., :1], 'valence bands')
        ctx.eq(asked[1][1] - d.mu, d.e[..., 1:], 'conduction bands')
        F = force()
        N = numbers()
        ctx.eq(dx(at), F[0] - F[3], 'force')
        ctx.eq(dv(at), n - nx - N[0], 'holes')
        ctx.eq(dc(at), nx - N[1], 'electrons')
        slope = dx(force)
        for fn, i in (dv, 0), (dc, 1):
            a = fn(force)
            slope = slope + a * (a[0] - a[3]) / fn(numbers)[i]
        at()
        C = d.hessian()
        ctx.eq(C[:, 0] - C[:, 3], slope, 'Hessian')
        C = d.hessian(gamma_only=False)
        ctx.eq(C[0, :, 0] - C[0, :, 3], slope, 'Hessian')
    finally:
        o.find_Fermi_level, o.two_fermi_dirac.d, o.fermi_dirac = old

@harness(bounds='1 k point, 1 orbital, 2 atoms; any number of electrons, '
    'level, displacement, and temperature; linear occupation function')
def conserved(ctx):
    """Chemical potential determined for each structure."""
    np = ctx.np
    n = ctx.choice('n', [0.5, 0.8, 1.5])
    kT = 1.5
    elph = chain(ctx, components=(0, 5), fixed=('g', 'ph', 'el'))
    d = ctx.e.md.Driver(elph, kT, Linear(), n, nk=(2,))
    for i in range(2):
        x = ctx.real('x%d' % i, -0.5, 0.5) if i else -0.2
        d.free_energy(np.array([x, 0.1, 0.0, -x, -0.1, 0.0]), show=False)
        ctx.true(abs(d.density().sum() - n) <= 1.0001e-5, 'electrons')

class Linear:
    def __call__(self, x):
        return 0.5 - 0.05 * x

    def delta(self, x):
        return 0.05 + 0.0 * x

    def entropy(self, x):
        return -0.025 * x * x

@harness(bounds='2 k points, 1 orbital, 2 atoms; any coupling and force '
    'constants, meshes or sparse supercells')
def saved(ctx):
    """Drivers read from a file behave like the original ones."""
    np = ctx.np
    sparse = ctx.choice('sparse', [False, True, 'direct'])
    kT, n = 1.5, 0.8
    f = ctx.e.occupations.fermi_dirac
    elph = chain(ctx, components=(0, 5), fixed=('el',))
    kwargs = dict(nk=(2,), nq=(2,))
    if sparse:
        S = Spectra(ctx, phases=False)
        circulant(ctx, S, 2, [elph.el.H(q, 0, 0)[0, 0].real
            for q in kpoints(2)])
        if sparse == 'direct':
            elph = elph.supercell(2, sparse=True)
            n *= 2
            kwargs = dict()
        else:
            kwargs['supercell'] = (2, 1, 1)
    d = ctx.e.md.Driver(elph, kT, f, n, unscreen=not sparse, **kwargs)
    d.interactive = ctx.choice('interactive', [False, True])
    names = ['node', 'images']
    before = [hasattr(d, x) for x in names]
    path = ctx.scratch('driver')
    d.save(path)
    ctx.true([hasattr(d, x) for x in names] == before, 'driver kept')
    ctx.true(d.interactive == ctx.choice('interactive', [False, True]),
        'interactivity kept')
    new = ctx.e.md.Driver.load(path)
    ctx.true(not new.interactive, 'loaded driver is not interactive')
    ctx.true(new.sparse == bool(sparse) and new.f is not None, 'representation')
    u = np.zeros(12 if sparse else 6)
    for x in d, new:
        x.interactive = False
    d.free_energy(u, show=False)
    ctx.eq(new.free_energy(u, show=False), d.free_energy(u, show=False),
        'energy')
    ctx.eq(new.jacobian(show=False), d.jacobian(show=False), 'forces')
    ctx.eq(new.density(), d.density(), 'density')
    ctx.eq(new.hessian(), d.hessian(), 'Hessian')

@harness(bounds='2x2 k and q points, 1 orbital, 2 atoms; any coupling and any '
    'displacement')
def files(ctx):
    """Dynamical matrices and Hamiltonian written to files."""
    np = ctx.np
    R = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0)]
    el = el_model(ctx, np.array(R), np.array([0.1, -0.35, -0.35, 0.2,
        0.2]).reshape((5, 1, 1)) + 0j)
    el.rydberg = True
    C = np.array([np.diag([5.0 + 0.3 * i for i in range(6)]),
        -0.7 * np.eye(6), -0.7 * np.eye(6), 0.4 * np.eye(6), 0.4 * np.eye(6)])
    C[1, 0, 4] = C[2, 4, 0] = 0.25
    a = 4 * lattice(ctx, 'hex')
    r = np.array([[0.0, 0, 0], [1.5, 2.5, 0.25]])
    ph = ph_model(ctx, np.array(R), C, a=a, r=r, divide_mass=False,
        M=np.array([1.5, 4.0]), names=['X', 'Y'])
    g = np.zeros((3, 6, 3, 1, 1)) + 0j
    rg, rk = [R[0], R[1], R[4]], [R[0], R[1], R[2]]
    g[0, 0, 0] = ctx.real('g', -1, 1)
    g[0, 1, 1] = g[0, 1, 2] = 0.3
    g[2, 5, 0] = 0.2
    elph, _ = elph_model(ctx, rg, rk, 2, 1, data=g, el=el, ph=ph,
        divide_mass=False)
    f = Occupation(ctx, 2)
    f.c[1], f.c[2] = -0.7, 0.0625
    d = make(ctx, elph, f, [0.1], 1.2, 0.8, nk=(4, 2), nq=(2, 2))
    x = ctx.real('x', 0.1, 0.2)
    u = [x, 0.1, 0.3, -x, -0.1, -0.3]
    d.free_energy(np.array(u), show=False)
    D = d.hessian(gamma_only=False, fildyn=ctx.scratch('dyn'))
    (q, D2), amass, at, tau, names, alph, epsil, zeu = ctx.e.ph.read_flfrc(
        ctx.scratch('dyn'))
    ctx.eq(D2, D, 'dynamical matrices', tol=1e-7)
    ctx.eq(amass, [1.5, 4.0], 'masses', tol=1e-6)
    ctx.eq(at, a, 'lattice vectors', tol=1e-6)
    ctx.eq(tau, r + np.reshape(np.array(u), (2, 3)), 'positions', tol=1e-6)
    ctx.true(list(names) == ['X', 'Y'], 'names')
    ctx.eq(np.dot(q, np.transpose(a)), [(2 * math.pi * i, 2 * math.pi * j, 0)
        for i in (0, 0.5) for j in (0, 0.5)], 'wave vectors', tol=1e-6)
    h = d.electrons(rydberg=True)
    dk = ctx.choice('every', [(1, 1), (2, 1), (1, 2)])
    part = d.electrons(ctx.scratch('part'), dk1=dk[0], dk2=dk[1])
    ctx.true(tuple(part.nk) == (4 // dk[0], 2 // dk[1], 1), 'mesh')
    back = ctx.e.el.Model(ctx.scratch('part'), rydberg=True)
    for i in range(4):
        for j in range(2):
            k = i * math.pi / 2, j * math.pi
            ctx.eq(h.H(*k), [[d.e[i, j, 0, 0]]], 'electrons')
            if i % dk[0] == 0 and j % dk[1] == 0:
                ctx.eq(part.H(*k), h.H(*k) * ctx.e.misc.Ry, 'fewer electrons')
                ctx.eq(back.H(*k), h.H(*k), 'electrons from file', tol=2e-5)
