"""Expansion of the grand potential in diagrams."""

import itertools

from symx.harness import harness
from symx.bands import Occupation, levels, shift, points

SMEARINGS = ['fd', 'gauss', 'mp', 'mv', 'lorentz'] # no entropy for last

SYSTEMS = [
    ((2,), 1, (None,)),
    ((3,), 1, (None,)),
    ((3,), 1, (1, 1, None)),
    ((1, 2), 1, (1, 1)),
    ((1,), 2, (None,)),
    ((2,), 2, (1, 2, None, 1)),
]

def wave(nk, q):
    return tuple(2 * 3.141592653589793 * x / n for x, n in zip(q, nk))

class Series:
    """Matrices as polynomials in infinitesimal parameters (bits of mask)."""
    def __init__(self, ctx, terms, n):
        self.ctx = ctx
        self.terms = terms
        self.n = n

    def __matmul__(self, other):
        res = {}
        for i, a in self.terms.items():
            for j, b in other.terms.items():
                if i & j:
                    continue
                c = multiply(a, b, self.n)
                res[i | j] = add(res[i | j], c) if i | j in res else c
        return Series(self.ctx, res, self.n)

def multiply(a, b, n):
    res = {}
    for (i, j), x in a.items():
        for (k, l), y in b.items():
            if j == k:
                res[i, l] = res[i, l] + x * y if (i, l) in res else x * y
    return res

def add(a, b):
    res = dict(a)
    for key, y in b.items():
        res[key] = res[key] + y if key in res else y
    return res

def derivative(ctx, e, perturbations, f, kT, npoints):
    """Mixed derivative of the grand potential."""
    terms = {0: e}
    for i, V in enumerate(perturbations):
        terms[1 << i] = V
    H = Series(ctx, terms, None)
    full = (1 << len(perturbations)) - 1
    # kT (x f(x) - s(x)) with x = H / kT
    coef = {}
    for i, c in enumerate(f.c):
        coef[i + 1] = c - (i * c / (i + 1))
    P = H
    res = 0.0
    for i in range(1, len(f.c) + 1):
        if i > 1:
            P = P @ H
        D = P.terms.get(full, {})
        t = 0.0
        for (a, b), x in D.items():
            if a == b:
                t = t + x
        res = res + coef[i] * t * kT ** (1 - i)
    return 2.0 / npoints * res

def hamiltonian(nk, nbnd, e):
    return {((k, n), (k, n)): e[k + (n,)] for k in points(nk)
        for n in range(nbnd)}

def operator(nk, nbnd, g, q, adjoint=False, np=None):
    """<k + q, m| V |k, n> = g[k, m, n]."""
    V = {}
    for k in points(nk):
        kq = shift(k, q, nk)
        for m in range(nbnd):
            for n in range(nbnd):
                x = g[k + (m, n)]
                if adjoint:
                    V[(k, n), (kq, m)] = np.conj(x)
                else:
                    V[(kq, m), (k, n)] = x
    return V

def setting(ctx, degree=4, systems=SYSTEMS):
    nk, nbnd, pattern = ctx.choice('system', systems)
    e, ids = levels(ctx, nk, nbnd, pattern)
    return nk, nbnd, e, Occupation(ctx, degree), ctx.real('kT', 0.5, 2.0)

@harness(bounds='up to 4 states on up to 3 points, any energies, any '
    'occupation function')
def zeroth(ctx):
    """Grand potential is the integral of the occupation."""
    np = ctx.np
    nk, nbnd, e, f, kT = setting(ctx)
    ctx.eq(ctx.e.diagrams.grand_potential(np.array(e), kT=kT, occupations=f),
        derivative(ctx, hamiltonian(nk, nbnd, e), [], f, kT,
            len(points(nk))), 'grand potential')

@harness(bounds='1..3 states, 4 smearings, any energies in -4..4 kT')
def slope(ctx):
    """Derivative with respect to band energy is the occupation."""
    np = ctx.np
    name = ctx.choice('smearing', SMEARINGS[:4])
    nk, nbnd = ctx.choice('system', [((1,), 1), ((2,), 1), ((1, 2), 2)])
    kT = ctx.choice('kT', [1.0, 0.5])
    e = np.array(ctx.reals('e', nk + (nbnd,), 0.1, 1.9))
    sign = ctx.choice('sign', [1, -1])
    k, n = points(nk)[-1], nbnd - 1
    x = ctx.real('x', 0.1, 1.9)
    def energy(x):
        E = sign * np.array(e)
        E[k + (n,)] = sign * x
        return ctx.e.diagrams.grand_potential(E, kT=kT, occupations=name)
    f = ctx.e.occupations.smearing(name)
    ctx.eq(sign * ctx.derivative(energy, x), 2.0 / len(points(nk))
        * f(sign * x / kT), 'occupation', tol=1e-6)

@harness(bounds='1..2 states, 5 smearings')
def slope_first(ctx):
    """First and second order for built-in occupation functions."""
    np = ctx.np
    name = ctx.choice('smearing', SMEARINGS)
    kT = ctx.choice('kT', [1.0, 0.5])
    sign = ctx.choice('sign', [1, -1])
    g = ctx.reals('g', (1, 1, 1), -1, 1)
    x = ctx.real('x', 0.1, 1.9)
    d = ctx.e.diagrams
    def first(x):
        e = np.array([[sign * x]])
        return d.first_order(e, np.array(g), kT=kT, occupations=name)[0]
    f = ctx.e.occupations.smearing(name)
    ctx.eq(first(x), 2 * f(sign * x / kT) * g[0, 0, 0], 'first order')
    e = np.array([[sign * x]])
    Pi = d.phonon_self_energy([(0.0,)], e, kT=kT, occupations=name,
        g=np.array(g).reshape((1, 1, 1, 1, 1)))
    ctx.eq(sign * ctx.derivative(first, x) * g[0, 0, 0], Pi[0, 0, 0],
        'second order', tol=1e-6)
    one = np.array(g)
    def second(x):
        e = np.array([[sign * x]])
        return d.phonon_self_energy([(0.0,)], e, kT=kT, occupations=name,
            g=np.array(g).reshape((1, 1, 1, 1, 1)))[0, 0, 0]
    chi = d.triangle((0.0,), (0.0,), e, one, one, one, kT=kT,
        occupations=name)
    ctx.eq(sign * ctx.derivative(second, x) * g[0, 0, 0], chi, 'third order',
        tol=1e-6)

@harness(bounds='up to 4 states on up to 3 points, any energies including '
    'exact degeneracies, any Hermitian or other perturbation, any occupation '
    'function')
def first(ctx):
    np = ctx.np
    nk, nbnd, e, f, kT = setting(ctx)
    g = ctx.cplxs('g', (2,) + nk + (nbnd, nbnd))
    one = ctx.e.diagrams.first_order(np.array(e), np.array(g), kT=kT,
        occupations=f)
    q = (0,) * len(nk)
    for i in range(2):
        ctx.eq(one[i], derivative(ctx, hamiltonian(nk, nbnd, e), [
            operator(nk, nbnd, g[i], q)], f, kT, len(points(nk))),
            'first order')

@harness(bounds='2 systems, any transformation to orbitals')
def first_orbital(ctx):
    """Coupling in orbital basis."""
    np = ctx.np
    nk, nbnd, e, f, kT = setting(ctx, 3, [SYSTEMS[0], SYSTEMS[4],
        ((2,), 2, (None,))])
    g = ctx.cplxs('g', (1,) + nk + (2, 2))
    U = ctx.cplxs('U', nk + (2, nbnd))
    one = ctx.e.diagrams.first_order(np.array(e), np.array(g), kT=kT,
        U=np.array(U), occupations=f)
    h = np.empty((1,) + nk + (nbnd, nbnd), dtype=complex)
    for k in points(nk):
        for m in range(nbnd):
            for n in range(nbnd):
                x = 0.0
                for a in range(2):
                    for b in range(2):
                        x = x + (np.conj(U[k + (a, m)])
                            * g[(0,) + k + (a, b)] * U[k + (b, n)])
                h[(0,) + k + (m, n)] = x
    ctx.eq(one, ctx.e.diagrams.first_order(np.array(e), h, kT=kT,
        occupations=f), 'first order')

@harness(bounds='up to 4 states on up to 3 points, any energies including '
    'exact degeneracies, any complex perturbations at all wave vectors, any '
    'occupation function')
def second(ctx):
    """Self-energy is the second derivative."""
    np = ctx.np
    nk, nbnd, e, f, kT = setting(ctx)
    qs = points(nk)
    g = ctx.cplxs('g', (len(qs), 1) + nk + (nbnd, nbnd))
    G = ctx.cplxs('G', (len(qs), 1) + nk + (nbnd, nbnd))
    Pi = ctx.e.diagrams.phonon_self_energy([wave(nk, q) for q in qs],
        np.array(e), kT=kT, occupations=f, g=np.array(g), G=np.array(G),
        symmetrize=False)
    for i, q in enumerate(qs):
        ctx.eq(Pi[i, 0, 0], derivative(ctx, hamiltonian(nk, nbnd, e), [
            operator(nk, nbnd, g[i, 0], q, True, np),
            operator(nk, nbnd, G[i, 0], q)], f, kT, len(qs)),
            'second order')

@harness(bounds='up to 4 states on up to 3 points, any energies including '
    'exact degeneracies, any complex perturbations at all pairs of wave '
    'vectors, any occupation function', budget=200)
def third(ctx):
    """Sum of both orientations of the triangle is the third derivative."""
    np = ctx.np
    nk, nbnd, e, f, kT = setting(ctx)
    q = ctx.choice('q', points(nk))
    Q = ctx.choice('Q', points(nk))
    p = tuple((x - y) % n for x, y, n in zip(q, Q, nk))
    gq, gQ, gp = [np.array(ctx.cplxs(x, nk + (nbnd, nbnd)))
        for x in ('g', 'h', 'j')]
    d = ctx.e.diagrams
    A = d.triangle(wave(nk, q), wave(nk, Q), np.array(e), gq, gQ, gp, kT=kT,
        occupations=f)
    B = d.triangle(wave(nk, q), wave(nk, p), np.array(e), gq, gp, gQ, kT=kT,
        occupations=f)
    ctx.eq((A + B) / 2, derivative(ctx, hamiltonian(nk, nbnd, e), [
        operator(nk, nbnd, gq, q, True, np), operator(nk, nbnd, gQ, Q),
        operator(nk, nbnd, gp, p)], f, kT, len(points(nk))), 'third order')

@harness(bounds='3 points, energies of which all, two pairs, one pair, or none '
    'are closer than the tolerance; any occupation function')
def nearly(ctx):
    """Energies within the tolerance are as good as equal ones."""
    np = ctx.np
    f, kT = Occupation(ctx, 4), 1.0
    x = ctx.real('x', 0.5, 1.0)
    a, b = ctx.real('a', 0.6, 0.9), ctx.real('b', 0.6, 0.9)
    eps = 1e-3
    shifts = ctx.choice('shifts', [(0, 1, 2), (1, 0, 2), (2, 1, 0), (1, 2, 0),
        (0, 0, 1), (1, 0, 0), (0, 1, 0)])
    de = [0.0, a * eps, (a + b) * eps]
    e = np.array([[x + de[i]] for i in shifts])
    one = np.ones((3, 1, 1))
    q, Q = ctx.choice('q', [(1, 2), (2, 1)])
    T = ctx.e.diagrams.triangle(wave((3,), (q,)), wave((3,), (Q,)), e, one,
        one, one, kT=kT, occupations=f, eps=eps)
    ctx.eq(T, -2 * f.delta_prime(x), 'as for equal energies', tol=0.1)

@harness(bounds='4 systems, any energies and perturbations')
def integrand(ctx):
    """Integrand averages to the diagram."""
    np = ctx.np
    nk, nbnd, e, f, kT = setting(ctx, 3, SYSTEMS[2:])
    q, Q = points(nk)[-1], points(nk)[len(points(nk)) // 2]
    gq, gQ, gp = [np.array(ctx.cplxs(x, nk + (nbnd, nbnd)))
        for x in ('g', 'h', 'j')]
    A, A_k = ctx.e.diagrams.triangle(wave(nk, q), wave(nk, Q), np.array(e),
        gq, gQ, gp, kT=kT, occupations=f, fluctuations=True)
    ctx.true(A_k.shape == nk + (nbnd,) * 3, 'shape')
    ctx.eq(A_k.sum() / len(points(nk)), A, 'average')
    ctx.eq(A, ctx.e.diagrams.triangle(wave(nk, q), wave(nk, Q), np.array(e),
        gq, gQ, gp, kT=kT, occupations=f), 'without integrand')
