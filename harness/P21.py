"""Susceptibilities and self-energies."""

import itertools

from symx.harness import harness
from symx.bands import Occupation, levels, shift, points, divided

# mesh, number of bands, which energies coincide:

SYSTEMS = [
    ((3,), 1, (None,)),
    ((2, 2), 1, (None,)),
    ((2, 2), 1, (1, 1, None)),
    ((2,), 2, (None,)),
    ((2,), 2, (1, 2, 1, 2)),
    ((1, 2), 2, (1, None, None, 1)),
    ((1, 1, 2), 2, (1, 1, None, None)),
]

SMALL = [SYSTEMS[0], SYSTEMS[3], SYSTEMS[4], SYSTEMS[6]]

def wave(nk, q):
    """Wave vector for mesh indices (not necessarily in first period)."""
    return tuple(2 * 3.141592653589793 * x / n for x, n in zip(q, nk))

def requests(nk):
    """Indices of wave vectors including repeated and shifted ones."""
    last = tuple(n - 1 for n in nk)
    return [tuple(0 for n in nk), last, tuple(-1 if n > 1 else 0 for n in nk),
        tuple(1 if i == len(nk) - 1 else 0 for i in range(len(nk)))]

def setting(ctx, systems=SYSTEMS):
    nk, nbnd, pattern = ctx.choice('system', systems)
    e, ids = levels(ctx, nk, nbnd, pattern)
    f = Occupation(ctx)
    kT = ctx.real('kT', 0.05, 2.0)
    return nk, nbnd, e, ids, f, kT

def bubble(ctx, nk, nbnd, e, ids, f, kT, q, weight, start=0.0):
    """Sum of weight(k, m, n) times divided difference."""
    res = start
    for k in points(nk):
        kq = shift(k, q, nk)
        for m in range(nbnd):
            for n in range(nbnd):
                i, j = kq + (m,), k + (n,)
                res = res + weight(k, m, n) * divided(f, kT, e[j], e[i],
                    ids[i] == ids[j])
    return 2.0 / len(points(nk)) * res

@harness(bounds='meshes of 2..4 points in 1..3 dimensions, 1..2 bands, any '
    'energies including exact degeneracies, any coupling, any occupation '
    'function, 4 wave vectors')
def squared(ctx):
    """Self-energy for squared coupling."""
    np = ctx.np
    nk, nbnd, e, ids, f, kT = setting(ctx)
    qs = requests(nk)
    g2 = ctx.reals('g', (len(qs), 2) + nk + (nbnd, nbnd))
    Pi, Pi_k = ctx.e.diagrams.phonon_self_energy([wave(nk, q) for q in qs],
        np.array(e), np.array(g2), kT=kT, occupations=f, fluctuations=True)
    for i, q in enumerate(qs):
        for nu in range(2):
            ctx.eq(Pi[i, nu], bubble(ctx, nk, nbnd, e, ids, f, kT, q,
                lambda k, m, n: g2[(i, nu) + k + (m, n)]), 'self-energy')
            ctx.eq(Pi_k[i, nu].sum() / len(points(nk)), Pi[i, nu],
                'average of integrand')

@harness(bounds='as before without coupling; only wave vector zero or all')
def unit(ctx):
    """Self-energy without coupling is the bare susceptibility."""
    np = ctx.np
    nk, nbnd, e, ids, f, kT = setting(ctx)
    qs = ctx.choice('q', [requests(nk), requests(nk)[:1]])
    Pi = ctx.e.diagrams.phonon_self_energy([wave(nk, q) for q in qs],
        np.array(e), kT=kT, occupations=f)
    ctx.true(Pi.shape == (len(qs), 1), 'shape')
    for i, q in enumerate(qs):
        ctx.eq(Pi[i, 0], bubble(ctx, nk, nbnd, e, ids, f, kT, q,
            lambda k, m, n: 1.0), 'susceptibility')

@harness(bounds='4 systems of 3..4 states, any complex couplings on both '
    'sides', budget=150)
def matrix(ctx):
    """Self-energy for two different couplings."""
    np = ctx.np
    nk, nbnd, e, ids, f, kT = setting(ctx, SMALL)
    qs = requests(nk)[1:3]
    shape = (len(qs), 2) + nk + (nbnd, nbnd)
    g = ctx.cplxs('g', shape)
    two = ctx.choice('two', ['same', 'sym', 'asym'])
    diagonal = ctx.choice('diagonal', [False, True])
    G = ctx.cplxs('G', shape) if two != 'same' else None
    Pi = ctx.e.diagrams.phonon_self_energy([wave(nk, q) for q in qs],
        np.array(e), kT=kT, occupations=f, g=np.array(g),
        G=None if G is None else np.array(G), symmetrize=two == 'sym',
        diagonal=diagonal)
    if G is None:
        G = g
    for i, q in enumerate(qs):
        for u in range(2):
            for v in range(2):
                if diagonal and u != v:
                    ctx.eq(Pi[i, u, v], 0.0, 'off-diagonal')
                    continue
                def weight(k, m, n):
                    x = (i, u) + k + (m, n)
                    y = (i, v) + k + (m, n)
                    w = np.conj(g[x]) * G[y]
                    if two == 'sym':
                        w = (w + np.conj(G[x]) * g[y]) / 2
                    return w
                ctx.eq(Pi[i, u, v], bubble(ctx, nk, nbnd, e, ids, f, kT, q,
                    weight), 'self-energy matrix')
        if two != 'asym':
            ctx.eq(Pi[i], np.conj(Pi[i].T), 'Hermitian')

@harness(bounds='4 systems of 3..4 states, any complex couplings, any contact '
    'interaction, static or any complex frequency')
def contact(ctx):
    """Resummation of ladder with contact interaction."""
    np = ctx.np
    nk, nbnd, e, ids, f, kT = setting(ctx, [SMALL[0], ((2,), 1, (1, 1)),
        ((1,), 2, (1, 2))])
    q = requests(nk)[1]
    g = ctx.cplxs('g', (1, 2) + nk + (nbnd, nbnd))
    U = ctx.reals('U', (nbnd, nbnd), 0.1, 0.3) * ctx.choice('sign', [1, -1])
    w = ctx.choice('dynamic', [False, True])
    if w:
        w = ctx.real('w', -1, 1) + 1j * ctx.real('eta', 0.1, 1)
    plain = ctx.e.diagrams.phonon_self_energy([wave(nk, q)], np.array(e),
        kT=kT, occupations=f, g=np.array(g), omega=w or 0.0)
    Pi = ctx.e.diagrams.phonon_self_energy([wave(nk, q)], np.array(e), kT=kT,
        occupations=f, g=np.array(g), U=np.array(U),
        omega=w or 0.0)
    def part(m, n, weight):
        if w:
            res = 0.0
            for k in points(nk):
                a, b = e[k + (n,)], e[shift(k, q, nk) + (m,)]
                res = res + weight(k) * (f(a / kT) - f(b / kT)) / (a - b + w)
            return 2.0 / len(points(nk)) * res
        return bubble(ctx, nk, nbnd, e, ids, f, kT, q, lambda k, M, N:
            weight(k) if M == m and N == n else 0.0)
    for u in range(2):
        for v in range(2):
            res = plain[0, u, v]
            for m in range(nbnd):
                for n in range(nbnd):
                    chi = part(m, n, lambda k: 1.0)
                    L = part(m, n, lambda k: np.conj(g[(0, u) + k + (m, n)]))
                    R = part(m, n, lambda k: g[(0, v) + k + (m, n)])
                    res = res + L * R * U[m, n] / (1 - chi * U[m, n])
            ctx.eq(Pi[0, u, v], res, 'with contact interaction')

@harness(bounds='4 systems of 3..4 states, any coupling, 2 frequencies with '
    'any real and positive imaginary part')
def dynamic(ctx):
    np = ctx.np
    nk, nbnd, e, ids, f, kT = setting(ctx, SMALL)
    qs = requests(nk)[:2]
    g2 = ctx.reals('g', (len(qs), 1) + nk + (nbnd, nbnd))
    many = ctx.choice('frequencies', [False, True])
    w = [ctx.real('w%d' % i, -1, 1) + 1j * ctx.real('eta%d' % i, 0.1, 1)
        for i in range(2 if many else 1)]
    Pi = ctx.e.diagrams.phonon_self_energy([wave(nk, q) for q in qs],
        np.array(e), np.array(g2), kT=kT, occupations=f,
        omega=np.array(w) if many else w[0])
    for i, q in enumerate(qs):
        for j in range(len(w)):
            res = 0.0
            for k in points(nk):
                kq = shift(k, q, nk)
                for m in range(nbnd):
                    for n in range(nbnd):
                        a, b = e[k + (n,)], e[kq + (m,)]
                        res = res + (g2[(i, 0) + k + (m, n)]
                            * (f(a / kT) - f(b / kT)) / (a - b + w[j]))
            ctx.eq(Pi[i, 0, j] if many else Pi[i, 0],
                2.0 / len(points(nk)) * res, 'dynamic self-energy')

@harness(bounds='4 systems of 3..4 states, any coupling, energy window with '
    'any smooth edge')
def window(ctx):
    """States close to Fermi level are excluded."""
    np = ctx.np
    nk, nbnd, e, ids, f, kT = setting(ctx, SMALL)
    h = Occupation(ctx, degree=2, name='h')
    D = ctx.real('Delta', 0.1, 1.0)
    DkT = ctx.real('DkT', 0.1, 1.0)
    qs = requests(nk)[:2]
    g2 = ctx.reals('g', (len(qs), 1) + nk + (nbnd, nbnd))
    diff = ctx.choice('derivative', [False, True])
    call = lambda D: ctx.e.diagrams.phonon_self_energy([wave(nk, q)
        for q in qs], np.array(e), np.array(g2), kT=kT, occupations=f,
        Delta=D, Delta_diff=diff, Delta_occupations=h, Delta_kT=DkT)
    Pi = call(D)
    def theta(e):
        return 2 - h((e - D) / DkT) - h((-e - D) / DkT)
    def slope(e):
        return -(h.delta((e - D) / DkT) + h.delta((-e - D) / DkT)) / DkT
    for i, q in enumerate(qs):
        def weight(k, m, n):
            a, b = e[k + (n,)], e[shift(k, q, nk) + (m,)]
            g = g2[(i, 0) + k + (m, n)]
            if diff:
                return g * (theta(a) * slope(b) + slope(a) * theta(b))
            return g * theta(a) * theta(b)
        ctx.eq(Pi[i, 0], bubble(ctx, nk, nbnd, e, ids, f, kT, q, weight),
            'self-energy with window')

@harness(bounds='4 systems of 3..4 states, any energies and couplings')
def shift_of_chemical_potential(ctx):
    np = ctx.np
    nk, nbnd, e, ids, f, kT = setting(ctx, SMALL)
    g = ctx.reals('g', (2,) + nk + (nbnd, nbnd))
    dos = 0.0
    avg = [0.0, 0.0]
    for k in points(nk):
        for n in range(nbnd):
            d = f.delta(e[k + (n,)] / kT) / kT
            dos = dos + d
            for x in range(2):
                avg[x] = avg[x] + d * g[(x,) + k + (n, n)]
    ctx.assume(dos > 0.1)
    Pi = ctx.e.diagrams.phonon_self_energy_fermi_shift(np.array(e),
        np.array(g), kT=kT, occupations=f)
    for x in range(2):
        for y in range(2):
            ctx.eq(Pi[x, y], 2.0 / len(points(nk)) * avg[x] * avg[y] / dos,
                'correction')

def modes(ctx, nk, nbnd, norb=2):
    np = ctx.np
    return ctx.cplxs('U', nk + (norb, nbnd), 1)

@harness(bounds='4 systems of 3..4 states, any transformation, any target '
    'subspace', budget=150)
def polarization(ctx):
    """Polarization in orbital basis."""
    np = ctx.np
    nk, nbnd, e, ids, f, kT = setting(ctx, SMALL)
    U = modes(ctx, nk, nbnd)
    kind = ctx.choice('subspace', ['none', 'band', 'mixed'])
    sub = np.zeros(nk + (nbnd,), dtype=bool)
    if kind == 'band':
        sub[..., 0] = True
    else:
        for k in points(nk):
            sub[k + (sum(k) % nbnd,)] = True
    Pi = ctx.e.diagrams.polarization(np.array(e), np.array(U), kT=kT,
        occupations=f, subspace=None if kind == 'none' else sub)
    for q in requests(nk)[1:]:
        P = Pi(*wave(nk, q))
        for a in range(2):
            for b in range(2):
                def weight(k, m, n):
                    kq = shift(k, q, nk)
                    if (kind != 'none' and bool(sub[kq + (m,)])
                            and bool(sub[k + (n,)])):
                        return 0.0
                    return (U[kq + (a, m)] * np.conj(U[k + (a, n)])
                        * np.conj(U[kq + (b, m)]) * U[k + (b, n)])
                ctx.eq(P[a, b], bubble(ctx, nk, nbnd, e, ids, f, kT, q,
                    weight), 'polarization')

@harness(bounds='2 systems, any transformation, any phases of states')
def gauge(ctx):
    """Phases of eigenvectors do not matter."""
    np = ctx.np
    nk, nbnd, e, ids, f, kT = setting(ctx, SMALL[:2])
    U = modes(ctx, nk, nbnd)
    V = np.array(U)
    for i, k in enumerate(points(nk)):
        for n in range(nbnd):
            p = np.exp(1j * ctx.angle('p%d%d' % (i, n)))
            for a in range(2):
                V[k + (a, n)] = V[k + (a, n)] * p
    A = ctx.e.diagrams.polarization(np.array(e), np.array(U), kT=kT,
        occupations=f)
    B = ctx.e.diagrams.polarization(np.array(e), V, kT=kT, occupations=f)
    q = wave(nk, requests(nk)[1])
    ctx.eq(A(*q), B(*q), 'polarization')

@harness(bounds='2x2 and 3x3 meshes, any energies, wave vectors on the mesh')
def susceptibility(ctx):
    """Bare susceptibility in two dimensions."""
    np = ctx.np
    n = ctx.choice('nk', [2, 3])
    e = np.array([[ctx.real('e%d%d' % (i, j), -3, 3) for j in range(n)]
        for i in range(n)])
    f = Occupation(ctx)
    kT = ctx.real('kT', 0.05, 2.0)
    eta = ctx.real('eta', 0.1, 1.0)
    X = ctx.e.diagrams.susceptibility(np.array(e), kT=kT, eta=eta,
        occupations=f)
    for q in [(0, 0), (1, 0), (0, n - 1), (-1, 1), (n, 0)]:
        res = 0.0
        for k in points((n, n)):
            a, b = e[k], e[shift(k, q, (n, n))]
            if q[0] % n == q[1] % n == 0:
                res = res - f.delta(a / kT) / kT
            else:
                res = res + ((f(b / kT) - f(a / kT)) * (b - a)
                    / ((b - a) ** 2 + eta ** 2))
        ctx.eq(X(*wave((n, n), q)), 2.0 / n ** 2 * res, 'susceptibility')

@harness(bounds='2x2 mesh, any energies and coupling, 1..2 Matsubara '
    'frequencies')
def matsubara(ctx):
    """Sums over Matsubara frequencies."""
    np = ctx.np
    n = 2
    e = np.array([[ctx.real('e%d%d' % (i, j), -3, 3) for j in range(n)]
        for i in range(n)])
    kT = 0.25
    height = ctx.real('h', 0.0, 0.5)
    N = ctx.choice('frequencies', [1, 2])
    X = ctx.e.diagrams.susceptibility2(np.array(e), kT=kT, nmats=N,
        hyb_width=1.5, hyb_height=height)
    qs = [(0, 0), (1, 0), (1, 1)]
    g2 = ctx.reals('g', (len(qs), 1, n, n))
    Pi = ctx.e.diagrams.phonon_self_energy2(np.array([wave((n, n), q)
        for q in qs]), np.array(e), np.array(g2), kT=kT, nmats=N,
        hyb_width=1.5, hyb_height=height)
    for i, q in enumerate(qs):
        x = 0.0
        y = 0.0
        for k in points((n, n)):
            s = -2 / (4 * kT)
            c = 0.0
            for j in range(N):
                nu = (2 * j + 1) * np.pi * kT
                D = -2j * height * np.arctan(2 * 1.5 / nu)
                G1 = 1 / (1j * nu - e[k] - D)
                G2 = 1 / (1j * nu - e[shift(k, q, (n, n))] - D)
                c = c + 4 * kT * G1 * G2
                s = s + 4 * kT / nu ** 2
            x = x + (c + s) / n ** 2
            y = y + g2[(i, 0) + k] * (np.real(c) + s) / n ** 2
        ctx.eq(X(*wave((n, n), q)), x, 'susceptibility')
        ctx.eq(Pi[i, 0], y, 'self-energy')

@harness(bounds='meshes of 2..4 points in 1..3 dimensions, 1..2 bands, any '
    'energies, couplings, occupation function')
def fermi_surface(ctx):
    """Double average over Fermi surface."""
    np = ctx.np
    nk, nbnd, e, ids, f, kT = setting(ctx)
    qs = requests(nk)
    bare = ctx.choice('coupling', [False, True])
    g2 = ctx.reals('g', (len(qs), 2) + nk + (nbnd, nbnd))
    enum, deno = ctx.e.diagrams.double_fermi_surface_average(
        [wave(nk, q) for q in qs], np.array(e), None if bare
        else np.array(g2), kT=kT, occupations=f)
    for i, q in enumerate(qs):
        S = 0.0
        T = [0.0, 0.0]
        for k in points(nk):
            kq = shift(k, q, nk)
            for m in range(nbnd):
                for n in range(nbnd):
                    d = (f.delta(e[kq + (m,)] / kT) / kT
                        * f.delta(e[k + (n,)] / kT) / kT)
                    S = S + d
                    for nu in range(2):
                        T[nu] = T[nu] + d * g2[(i, nu) + k + (m, n)]
        ctx.eq(deno[i], S, 'denominator')
        if bare:
            for x in enum[i].reshape((-1,)):
                ctx.eq(x, S, 'enumerator without coupling')
        else:
            for nu in range(2):
                ctx.eq(enum[i, nu], T[nu], 'enumerator')

@harness(bounds='meshes of 2..3 points, 1..2 bands and modes, any energies, '
    'positive phonon energies, couplings, 2 complex frequencies')
def electrons(ctx):
    """Fan-Migdal self-energy."""
    np = ctx.np
    nk, nbnd, e, ids, f, kT = setting(ctx, [((2,), 1, (None,)),
        ((1, 2), 2, (None,)), ((3,), 1, (None,))])
    nmodes = ctx.choice('modes', [1, 2])
    kT = 0.5
    w = ctx.reals('w', nk + (nmodes,), 0.1, 1.0)
    ks = requests(nk)[:2]
    g2 = ctx.reals('g', nk + (nmodes, len(ks), nbnd, nbnd))
    om = [ctx.real('o%d' % i, -1, 1) + 1j * ctx.real('eta%d' % i, 0.1, 1)
        for i in range(2)]
    S = ctx.e.diagrams.fan_migdal_self_energy([wave(nk, k) for k in ks],
        np.array(e), np.array(w), np.array(g2), np.array(om), kT=kT,
        occupations=f)
    N = ctx.e.occupations.bose_einstein
    for i, k in enumerate(ks):
        for n in range(nbnd):
            for j in range(2):
                res = 0.0
                for q in points(nk):
                    kq = shift(k, q, nk)
                    for m in range(nbnd):
                        E = e[kq + (m,)]
                        F = f(E / kT)
                        for nu in range(nmodes):
                            W = w[q + (nu,)]
                            B = N(W / kT)
                            res = res + g2[q + (nu, i, m, n)] * (
                                (F + B) / (om[j] - E + W)
                                + (1 - F + B) / (om[j] - E - W))
                ctx.eq(S[i, n, j], res / len(points(nk)), 'self-energy')

@harness(bounds='1..2 points and bands, 3..5 frequencies, any velocities and '
    'spectral functions')
def conductivity(ctx):
    """Green-Kubo formula."""
    np = ctx.np
    nk, nbnd = ctx.choice('system', [((1,), 1), ((2,), 1), ((2,), 2)])
    ndim = ctx.choice('directions', [1, 2])
    om = np.array(ctx.choice('frequencies', [[-0.5, 0.0, 0.5],
        [-1.0, -0.5, 0.0, 0.5, 1.0], [0.0, 0.25, 0.5]]))
    f = Occupation(ctx)
    kT = ctx.real('kT', 0.05, 2.0)
    v = ctx.reals('v', nk + (nbnd, ndim))
    A = ctx.reals('A', nk + (nbnd, len(om)))
    dc = ctx.choice('dc_only', [False, True])
    sigma = ctx.e.diagrams.green_kubo_conductivity(np.array(v), np.array(A),
        om, kT=kT, occupations=f, dc_only=dc)
    n = len(om)
    zero = [i for i in range(n) if om[i] == 0][0]
    h = float(om[1] - om[0])
    P = len(points(nk))
    def product(i, j, x, y):
        res = 0.0
        for k in points(nk):
            for b in range(nbnd):
                res = res + (v[k + (b, x)] * v[k + (b, y)]
                    * A[k + (b, i)] * A[k + (b, j)])
        return res
    for x in range(ndim):
        for y in range(ndim):
            if dc:
                S = 0.0
                for i in range(n):
                    step = h / 2 if i in (0, n - 1) else h
                    S = S + (step * f.delta(om[i] / kT) / kT
                        * product(i, i, x, y))
                ctx.eq(sigma[x, y], 4 * np.pi / P * S, 'zero frequency')
                continue
            for i in range(n):
                m = i - zero
                S = 0.0
                for j in range(n):
                    if not 0 <= j + m < n:
                        continue
                    if m:
                        w = (f(om[j] / kT) - f(om[j + m] / kT)) / om[i]
                    else:
                        w = f.delta(om[j] / kT) / kT
                    S = S + w * product(j, j + m, x, y)
                ctx.eq(sigma[i, x, y], 4 * np.pi / P * h * S,
                    'conductivity')

@harness(bounds='2 systems, any energies of given sign')
def filled(ctx):
    """Empty or full bands do not respond."""
    np = ctx.np
    nk, nbnd = ctx.choice('system', [((3,), 1), ((2,), 2)])
    sign = ctx.choice('sign', [-1, 1])
    e = sign * np.array(ctx.reals('e', nk + (nbnd,), 0.1, 3.0))
    for i, x in enumerate(e.reshape(-1)):
        for y in e.reshape(-1)[:i]:
            ctx.assume(abs(x - y) > 0.01)
    qs = requests(nk)
    Pi = ctx.e.diagrams.phonon_self_energy([wave(nk, q) for q in qs], e,
        kT=0.02, occupations='heaviside')
    ctx.eq(Pi, np.zeros((len(qs), 1)), 'no response')
