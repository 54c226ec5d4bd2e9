"""Superconducting quantities."""

import itertools
import math

from symx.harness import harness

class Peak:
    """Positive broadened delta function."""

    def __init__(self, ctx):
        self.c = ctx.real('peak0', 0.5, 1.0), ctx.real('peak1', 0.0, 0.2)

    def delta(self, x):
        return self.c[0] + self.c[1] * x ** 2

KB = 8.61733e-5     # eV per kelvin (five digits)

def formula(ctx, lamda, wlog, mu, w2nd=None, correct=False):
    """Allen and Dynes, Eqs. (2) and (34)."""
    np = ctx.np
    kB = ctx.e.misc.kB
    T = wlog / (1.20 * kB) * np.exp(-1.04 * (1 + lamda)
        / (lamda - mu * (1 + 0.62 * lamda)))
    if correct:
        L1 = 2.46 * (1 + 3.8 * mu)
        T = T * (1 + (lamda / L1) ** 1.5) ** (1 / 3)
        if w2nd is not None:
            L2 = 1.82 * (1 + 6.3 * mu) * (w2nd / wlog)
            T = T * (1 + (w2nd / wlog - 1) * lamda ** 2
                / (lamda ** 2 + L2 ** 2))
    return T

@harness(bounds='coupling strength 0.5..3, phonon energy 1..100 meV, Coulomb '
    'parameter 0..0.2, second moment 1..2 times as large')
def temperature(ctx):
    np = ctx.np
    lamda = ctx.real('lambda', 0.5, 3.0)
    wlog = ctx.real('wlog', 0.001, 0.1)
    mu = ctx.real('mu', 0.0, 0.2)
    s = ctx.real('s', 1.0, 2.0)
    T = ctx.e.eliashberg.Tc
    ctx.true(abs(float(ctx.e.misc.kB) - KB) < 1e-9, 'Boltzmann constant')
    ctx.eq(T(lamda, wlog, mu), formula(ctx, lamda, wlog, mu), 'McMillan')
    ctx.eq(T(lamda, wlog), formula(ctx, lamda, wlog, 0.1), 'default')
    ctx.eq(T(lamda, wlog, mu, correct=True),
        formula(ctx, lamda, wlog, mu, correct=True), 'strong coupling')
    ctx.eq(T(lamda, wlog, mu, s * wlog, correct=True),
        formula(ctx, lamda, wlog, mu, s * wlog, correct=True), 'shape')
    # limits and units:
    ctx.eq(T(lamda, wlog, mu, s * wlog), T(lamda, wlog, mu), 'no correction')
    ctx.eq(T(lamda, wlog, mu, wlog, correct=True),
        T(lamda, wlog, mu, correct=True), 'no shape correction')
    ctx.eq(T(lamda, 3 * wlog, mu, 3 * s * wlog, correct=True),
        3 * T(lamda, wlog, mu, s * wlog, correct=True), 'energy unit')

@harness(bounds='coupling strength 0..3, Coulomb parameter 0..0.2')
def order(ctx):
    """More coupling and less repulsion never lower the temperature."""
    np = ctx.np
    lamda = ctx.real('lambda', 0.4, 2.0)
    more = ctx.real('more', 0.01, 1.0)
    mu = ctx.real('mu', 0.0, 0.1)
    add = ctx.real('add', 0.01, 0.1)
    T = ctx.e.eliashberg.Tc
    log = lambda x: np.log(x)
    ctx.true(log(T(lamda + more, 0.01, mu)) > log(T(lamda, 0.01, mu)),
        'increases with coupling')
    ctx.true(log(T(lamda, 0.01, mu + add)) < log(T(lamda, 0.01, mu)),
        'decreases with repulsion')

@harness(bounds='coupling strength 0..0.1, Coulomb parameter 0.1..0.2')
def weak(ctx):
    """Coupling weaker than repulsion: no superconductivity."""
    lamda = ctx.real('lambda', 0.0, 0.1)
    mu = ctx.real('mu', 0.1, 0.2)
    T = ctx.e.eliashberg.Tc(lamda, 0.05, mu)
    ctx.true(T >= 0, 'not negative')
    ctx.true(T < 1e-100, 'vanishes')

# -- electrons and phonons on meshes

def orbits(size):
    """Representatives and sizes of orbits of hexagonal mesh points."""
    done = {}
    out = []
    for start in itertools.product(range(size), repeat=2):
        if start in done:
            continue
        todo, star = [start], set()
        while todo:
            a, b = todo.pop()
            if (a, b) in star:
                continue
            star.add((a, b))
            todo.append(((-b) % size, (a + b) % size))
            todo.append((b, a))
        for x in star:
            done[x] = 1
        out.append((min(star), len(star)))
    return sorted(out)

def oracle(ctx, nq, e, w2, g2dd, dd, N0, mu, weights):
    """Parameters from Fermi-surface averages."""
    np = ctx.np
    top = log = second = norm = 0.0
    for i, m in enumerate(weights):
        norm = norm + m * dd[i]
        for v in range(len(w2[i])):
            x = m * g2dd[i][v] / w2[i][v]
            top = top + x
            log = log + x * np.log(w2[i][v]) / 2
            second = second + m * g2dd[i][v]
    return N0 * top / norm, log / top, second / top

CASES = [
    # q points, k points, bands, modes
    (1, 2, 1, 2),
    (2, 2, 1, 1),
    (2, 2, 2, 1),
    (3, 3, 1, 1),
    (2, 4, 1, 1),
    (1, 2, 2, 1),
]

def energies(nk, nel):
    """Some energies around the Fermi level."""
    return [[[0.3 * math.sin(1 + 3 * a + 7 * b + 5 * n) + 0.2 * n - 0.1
        for n in range(nel)] for b in range(nk)] for a in range(nk)]

@harness(bounds='1..3 q and 2..4 k points per dimension, 1..2 bands and '
    'modes; any couplings, phonon energies and distribution functions')
def smeared(ctx):
    np = ctx.np
    nq, nk, nel, nph = ctx.choice('case', CASES)
    Q = orbits(nq)
    e = np.array(energies(nk, nel))
    f = Peak(ctx)
    kT = 0.5
    w2 = ctx.reals('w', (len(Q), nph), 0.1, 1.0)
    g2 = ctx.reals('g', (len(Q), nph, nk, nk, nel, nel), 0.1, 1.0)
    dd, g2dd = [], []
    d = f.delta(e / kT) / kT
    ks = list(itertools.product(range(nk), repeat=2))
    for (q, _), i in zip(Q, itertools.count()):
        s, t = 0.0, [0.0] * nph
        for k in ks:
            p = tuple((a + b * nk // nq) % nk for a, b in zip(k, q))
            for m in range(nel):
                for n in range(nel):
                    x = d[p + (m,)] * d[k + (n,)]
                    s = s + x
                    for v in range(nph):
                        t[v] = t[v] + x * g2[(i, v) + k + (m, n)]
        dd.append(s)
        g2dd.append(t)
    N0 = d.sum() / len(ks)
    keep = w2.copy(), g2.copy(), e.copy()
    r = ctx.e.eliashberg.McMillan(nq, e, w2, g2, kT=kT, f=f, correct=True)
    lamda, wlog, T, w2nd = r
    L, log, sq = oracle(ctx, nq, e, w2, g2dd, dd, N0, 0.0,
        [m for _, m in Q])
    ctx.eq(lamda, L, 'coupling strength')
    ctx.eq(np.log(wlog), log, 'logarithmic average')
    ctx.eq(w2nd ** 2, sq, 'second moment')
    ctx.eq(w2, keep[0], 'phonon energies kept')
    ctx.eq(g2, keep[1], 'coupling kept')
    ctx.eq(e, keep[2], 'energies kept')

@harness(bounds='2x2 q points, 4x4 k points, any phonon energies and '
    'couplings constant for each mode')
def temperatures(ctx):
    """Returned temperature is that of returned parameters."""
    np = ctx.np
    e = np.array(energies(4, 1))
    w2 = ctx.reals('w', (2, 2), 1e-4, 1e-2)
    c = ctx.reals('g', (2, 2), 1e-4, 2e-4)
    g2 = np.ones((2, 2, 4, 4, 1, 1)) * c.reshape((2, 2, 1, 1, 1, 1))
    el = ctx.e.eliashberg
    a = el.McMillan(2, e, w2, g2, mustar=0.1, kT=0.3)
    ctx.eq(a[2], el.Tc(a[0], a[1], 0.1), 'temperature')
    ctx.true(len(a) == 3, 'number of results')
    a = el.McMillan(2, e, w2, g2, mustar=0.15, kT=0.3, correct=True)
    ctx.eq(a[2], el.Tc(a[0], a[1], 0.15, a[3], correct=True),
        'corrected temperature')

@harness(bounds='2x2 q points, 2x2 k points, any couplings; squared energies '
    'of first mode at first point -1..0.001')
def soft(ctx):
    """Modes of too low or imaginary energy are left out."""
    np = ctx.np
    e = np.array(energies(2, 1))
    w2 = ctx.reals('w', (2, 2), 0.1, 1.0)
    w2[0, 0] = ctx.real('low', -1.0, 0.0009)
    g2 = ctx.reals('g', (2, 2, 2, 2, 1, 1), 0.1, 1.0)
    g2[0, 0, 0, 0] = ctx.real('huge', 0.0, 1e6)
    el = ctx.e.eliashberg
    keep = w2.copy()
    a = el.McMillan(2, e, w2, g2, eps=1e-3, kT=0.3)
    ctx.eq(w2, keep, 'phonon energies kept')
    v2 = w2.copy()
    v2[0, 0] = 0.5
    h2 = g2.copy()
    h2[0, 0] = 0.0
    b = el.McMillan(2, e, v2, h2, eps=1e-3, kT=0.3)
    ctx.eq(a[0], b[0], 'coupling strength')
    ctx.eq(np.log(a[1]), np.log(b[1]), 'logarithmic average')

@harness(bounds='2x2 q points, 2x2 k points, 2 bands, any couplings, energies '
    'and distribution; common factor of energies 2')
def units(ctx):
    np = ctx.np
    e = np.array(energies(2, 2))
    w2 = ctx.reals('w', (2, 1), 0.1, 1.0)
    g2 = ctx.reals('g', (2, 1, 2, 2, 2, 2), 0.1, 1.0)
    el = ctx.e.eliashberg
    a = el.McMillan(2, e, w2, g2, kT=0.3, correct=True)
    b = el.McMillan(2, 2 * e, 4 * w2, 8 * g2, eps=4e-10, kT=0.6, correct=True)
    ctx.eq(a[0], b[0], 'coupling strength')
    ctx.eq(np.log(b[1]), np.log(a[1]) + math.log(2), 'logarithmic average')
    ctx.eq(b[3] ** 2, 4 * a[3] ** 2, 'second moment')

@harness(bounds='2x2 or 3x3 q points, 4x4 or 6x6 k points, 1..2 bands and '
    'modes of given energies; any couplings and phonon energies')
def triangles(ctx):
    """Band indices of initial and final states are not interchanged."""
    np = ctx.np
    nq, nk, nel, nph = ctx.choice('case', [(1, 4, 2, 2), (2, 4, 1, 2),
        (2, 4, 2, 1), (3, 6, 2, 1), (2, 2, 2, 1)])
    Q = orbits(nq)
    e = np.array(energies(nk, nel))
    w2 = ctx.reals('w', (len(Q), nph), 0.1, 1.0)
    g2 = ctx.reals('g', (len(Q), nph, nk, nk, nel, nel), 0.1, 1.0)
    dd, g2dd = [], []
    d = ctx.e.dos
    for i, (q, _) in enumerate(Q):
        q = [x * (nk // nq) for x in q]
        s, t = 0.0, [0.0] * nph
        for m in range(nel):
            for n in range(nel):
                E = np.empty((nk, nk))
                for a in range(nk):
                    for b in range(nk):
                        E[a, b] = e[(a + q[0]) % nk, (b + q[1]) % nk, m]
                s = s + sum(d.double_delta(e[:, :, n], E)(0).values())
                for v in range(nph):
                    t[v] = t[v] + sum(d.double_delta(e[:, :, n], E,
                        g2[i, v, :, :, m, n])(0).values())
        dd.append(s)
        g2dd.append(t)
    N0 = sum(d.hexDOS(e[:, :, n])(0) for n in range(nel))
    r = ctx.e.eliashberg.McMillan(nq, e, w2, g2, tetra=True, correct=True)
    L, log, sq = oracle(ctx, nq, e, w2, g2dd, dd, N0, 0.0,
        [m for _, m in Q])
    ctx.eq(r[0], L, 'coupling strength')
    ctx.eq(np.log(r[1]), log, 'logarithmic average')
    ctx.eq(r[3] ** 2, sq, 'second moment')
