"""Screening of electron-phonon coupling."""

from symx.harness import harness
from symx.bands import Occupation, levels, shift, points, divided

SYSTEMS = [
    ((3,), 1, (None,), 1),
    ((2,), 1, (1, 1), 2),
    ((2,), 2, (None,), 2),
    ((1, 2), 2, (1, 2, None, 1), 2),
    ((1, 1, 1), 2, (1, 1), 1),
]

def wave(nk, q):
    return tuple(2 * 3.141592653589793 * x / n for x, n in zip(q, nk))

def setting(ctx, systems=SYSTEMS, simple=False):
    nk, nbnd, pattern, norb = ctx.choice('system', systems)
    e, ids = levels(ctx, nk, nbnd, pattern)
    f = Occupation(ctx, 2)
    kT = 0.5 if simple else ctx.real('kT', 0.5, 2.0)
    U = ctx.cplxs('U', nk + (norb, nbnd))
    return nk, nbnd, norb, e, ids, f, kT, U

def wavevectors(nk):
    last = tuple(n - 1 for n in nk)
    return [tuple(0 for n in nk), last] if any(last) else [last]

def to_band(ctx, nk, nbnd, norb, U, g, q):
    """U* g U for one mode."""
    np = ctx.np
    res = {}
    for k in points(nk):
        kq = shift(k, q, nk)
        for m in range(nbnd):
            for n in range(nbnd):
                x = 0.0
                for a in range(norb):
                    for b in range(norb):
                        x = x + (np.conj(U[kq + (a, m)]) * g[k + (a, b)]
                            * U[k + (b, n)])
                res[k + (m, n)] = x
    return res

def bubble(ctx, nk, nbnd, norb, e, ids, f, kT, U, g, q):
    """Coupling times polarization in orbital basis (c, d)."""
    np = ctx.np
    res = {}
    for c in range(norb):
        for d in range(norb):
            x = 0.0
            for k in points(nk):
                kq = shift(k, q, nk)
                for m in range(nbnd):
                    for n in range(nbnd):
                        i, j = kq + (m,), k + (n,)
                        x = x + (U[kq + (c, m)] * np.conj(U[k + (d, n)])
                            * divided(f, kT, e[i], e[j], ids[i] == ids[j])
                            * g[k + (m, n)])
            res[c, d] = 2.0 / len(points(nk)) * x
    return res

def screen(ctx, W, B, norb, dd):
    res = {}
    for a in range(norb):
        for b in range(norb):
            x = 0.0
            for c in range(norb):
                if dd:
                    if a == b:
                        x = x + W[a, c] * B[c, c]
                else:
                    for d in range(norb):
                        x = x + W[a, b, c, d] * B[c, d]
            res[a, b] = x
    return res

@harness(bounds='5 systems of up to 4 states with up to 2 orbitals, 1..2 wave '
    'vectors, 2 modes, any coupling, interaction, eigenvectors, energies '
    '(exact degeneracies included), occupation function', budget=150)
def orbital(ctx):
    """Bare coupling plus interaction times polarization times coupling."""
    np = ctx.np
    nk, nbnd, norb, e, ids, f, kT, U = setting(ctx)
    dd = ctx.choice('density-density', [True, False])
    qs = wavevectors(nk)
    g = ctx.cplxs('g', (len(qs), 2) + nk + (norb, norb))
    W = ctx.cplxs('W', (len(qs),) + (norb,) * (2 if dd else 4))
    G = np.array(g)
    new = ctx.e.diagrams.renormalize_coupling_orbital([wave(nk, q)
        for q in qs], np.array(e), G, np.array(W), np.array(U), kT=kT,
        occupations=f, status=False)
    ctx.true(new.shape == g.shape, 'shape')
    for i, q in enumerate(qs):
        for nu in range(2):
            band = to_band(ctx, nk, nbnd, norb, U, g[i, nu], q)
            dg = screen(ctx, W[i], bubble(ctx, nk, nbnd, norb, e, ids, f, kT,
                U, band, q), norb, dd)
            for k in points(nk):
                for a in range(norb):
                    for b in range(norb):
                        x = (i, nu) + k + (a, b)
                        ctx.eq(new[x], g[x] + dg[a, b], 'screened coupling')
    ctx.eq(G, g, 'bare coupling unchanged')

@harness(bounds='as before in band basis, polarization restricted to first '
    'band or not', budget=150)
def band(ctx):
    np = ctx.np
    nk, nbnd, norb, e, ids, f, kT, U = setting(ctx)
    dd = ctx.choice('density-density', [True, False])
    sub = ctx.choice('bands', [None, 1] if nbnd > 1 else [None])
    qs = wavevectors(nk)
    g = ctx.cplxs('g', (len(qs), 1) + nk + (nbnd, nbnd))
    W = ctx.cplxs('W', (len(qs),) + (norb,) * (2 if dd else 4))
    G = np.array(g)
    new = ctx.e.diagrams.renormalize_coupling_band([wave(nk, q) for q in qs],
        np.array(e), G, np.array(W), np.array(U), kT=kT, occupations=f,
        nbnd_sub=sub, status=False)
    ctx.true(new.shape == g.shape, 'shape')
    for i, q in enumerate(qs):
        dg = screen(ctx, W[i], bubble(ctx, nk, sub or nbnd, norb, e, ids, f,
            kT, U, g[i, 0], q), norb, dd)
        full = {}
        for k in points(nk):
            for a in range(norb):
                for b in range(norb):
                    full[k + (a, b)] = dg[a, b]
        dg = to_band(ctx, nk, nbnd, norb, U, full, q)
        for k in points(nk):
            for m in range(nbnd):
                for n in range(nbnd):
                    x = (i, 0) + k + (m, n)
                    ctx.eq(new[x], g[x] + dg[k + (m, n)],
                        'screened coupling')
    ctx.eq(G, g, 'bare coupling unchanged')

@harness(bounds='2 systems, any coupling, interaction and eigenvectors')
def equivalent(ctx):
    """Both bases give the same coupling."""
    np = ctx.np
    nk, nbnd, norb, e, ids, f, kT, U = setting(ctx, SYSTEMS[1:3], True)
    dd = ctx.choice('density-density', [True, False])
    q = wavevectors(nk)[-1]
    g = ctx.reals('g', (1, 1) + nk + (norb, norb)) + 0j
    W = ctx.reals('W', (1,) + (norb,) * (2 if dd else 4)) + 0j
    kw = dict(kT=kT, occupations=f, status=False)
    h = np.empty((1, 1) + nk + (nbnd, nbnd), dtype=complex)
    t = to_band(ctx, nk, nbnd, norb, U, g[0, 0], q)
    for x in t:
        h[(0, 0) + x] = t[x]
    A = ctx.e.diagrams.renormalize_coupling_orbital([wave(nk, q)],
        np.array(e), np.array(g), np.array(W), np.array(U), **kw)
    B = ctx.e.diagrams.renormalize_coupling_band([wave(nk, q)], np.array(e),
        h, np.array(W), np.array(U), **kw)
    t = to_band(ctx, nk, nbnd, norb, U, A[0, 0], q)
    for x in t:
        ctx.eq(B[(0, 0) + x], t[x], 'same coupling')

@harness(bounds='2 systems, any coupling and eigenvectors')
def unscreened(ctx):
    """No interaction, no change; change is linear in the interaction."""
    np = ctx.np
    nk, nbnd, norb, e, ids, f, kT, U = setting(ctx, SYSTEMS[1:3], True)
    dd = ctx.choice('density-density', [True, False])
    basis = ctx.choice('basis', ['orbital', 'band'])
    n = norb if basis == 'orbital' else nbnd
    g = ctx.cplxs('g', (1, 1) + nk + (n, n))
    shape = (1,) + (norb,) * (2 if dd else 4)
    W = ctx.cplxs('W', shape)
    q = [wave(nk, wavevectors(nk)[-1])]
    def run(W):
        fun = getattr(ctx.e.diagrams, 'renormalize_coupling_' + basis)
        return fun(q, np.array(e), np.array(g), W, np.array(U), kT=kT,
            occupations=f, status=False)
    ctx.eq(run(np.zeros(shape)), g, 'without interaction')
    c = ctx.real('c', -2, 2)
    ctx.eq(run(c * np.array(W)) - g, c * (run(np.array(W)) - g), 'linear')

@harness(bounds='2 systems, FD statistics, default options')
def defaults(ctx):
    """Joined coupling and bubble with built-in occupations."""
    np = ctx.np
    nk, nbnd, norb, e, ids, f, kT, U = setting(ctx, SYSTEMS[:2])
    f = ctx.e.occupations.fermi_dirac
    dd = ctx.choice('density-density', [True, False])
    q = wavevectors(nk)[-1]
    g = ctx.cplxs('g', (1, 1) + nk + (norb, norb))
    P = ctx.e.diagrams.Pi_g([wave(nk, q)], np.array(e), np.array(g),
        np.array(U), kT=1.0, dd=dd)
    B = bubble(ctx, nk, nbnd, norb, e, ids, f, 1.0, U, to_band(ctx, nk, nbnd,
        norb, U, g[0, 0], q), q)
    for c in range(norb):
        for d in range(norb):
            if dd:
                if c == d:
                    ctx.eq(P[0, 0, c], B[c, c], 'density')
            else:
                ctx.eq(P[0, 0, c, d], B[c, d], 'density matrix')
