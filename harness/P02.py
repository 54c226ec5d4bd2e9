"""Results do not depend on the number of processes."""

import math

from symx.harness import harness
from symx.common import (Text, el_model, ph_model, elph_model, fourier,
    lattice)

class View:
    """Harness context seen from one process."""

    def __init__(self, ctx, e):
        self.e = e
        self.np = ctx.np

def same(ctx, P, fn, tol=1e-8, root=()):
    """Every process returns what the serial run returns."""
    ref, res = ctx.mpi(P, lambda e, rank: fn(View(ctx, e)))
    for rank in range(P):
        for name in ref:
            if name in root and rank:
                continue
            a, b = res[rank][name], ref[name]
            if isinstance(b, (bool, int, str, tuple, list)) or b is None:
                ctx.true(a == b, name)
            else:
                ctx.eq(a, b, name, tol=tol)
        ctx.true(set(ref) == set(res[rank]), 'same results')

PROCESSES = [2, 3]

def positive(ctx, name, shape):
    """Data away from zero, except for some that vanish."""
    d = ctx.reals(name, shape, 0.5, 1.0)
    d[1] = 0.0
    return d
SLOW = 60

def kq(n):
    return [2 * math.pi * i / n for i in range(n)]

K = [(0.3, -0.7, 1.1), (0.0, 0.0, 0.0)]

R0 = [(0, 0, 0), (1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0)]

@harness(bounds='2..3 processes, both schedules, all node layouts; 1D/2D '
    'meshes, hexagonal lattice, 2 orbitals, any matrices', mpi=True,
    budget=SLOW)
def el_from_mesh(ctx):
    P = ctx.choice('P', PROCESSES)
    nk = ctx.choice('mesh', [(2,), (2, 2)])
    H = ctx.cplxs('H', (*nk, 2, 2))

    def fn(v):
        np = v.np
        el = v.e.el.Model()
        v.e.el.k2r(el, np.array(H), lattice(v, 'hex'),
            np.array([[0.0, 0, 0], [0.0, 1 / 3 ** 0.5, 0.0]]))
        return dict(H0=el.H(*K[0]), n=len(el.R), size=el.size, nk=list(el.nk))

    same(ctx, P, fn)

@harness(bounds='2..3 processes, both schedules, all node layouts; 5 lattice '
    'vectors, 2 orbitals, any hopping, threshold', mpi=True, budget=SLOW)
def el_operations(ctx):
    P = ctx.choice('P', PROCESSES)
    R = [(0, 0, 0), (1, 0, 0), (0, 0, 0), (0, 1, 0), (-1, 0, 0)]
    data = positive(ctx, 't', (5, 2, 2))
    what = ctx.choice('operation', ['standardize', 'symmetrize', 'supercell',
        'rotated', 'sparse', 'unit_cell', 'order'])

    def fn(v):
        np = v.np
        d = np.array(data)
        if what == 'sparse':
            d = d.real + 0j
        el = el_model(v, np.array(R), d)
        el.cells = [(0, 0, 0)]
        el.N = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
        if what == 'standardize':
            el.standardize()
        elif what == 'symmetrize':
            el.symmetrize()
        elif what == 'supercell':
            el = el.supercell(1, 3, 1)
        elif what == 'rotated':
            el = el.supercell((1, 1, 0), (-1, 1, 0), 1)
        elif what == 'sparse':
            el = el.supercell(2, sparse=True)
            return dict(H=el.Hs.toarray(), size=el.size)
        elif what == 'unit_cell':
            el = el.supercell(2).unit_cell()
        elif what == 'order':
            el.order_orbitals(1, 0)
        return dict(H=el.H(*K[0]), R=np.array(el.R), data=np.array(el.data),
            size=el.size)

    same(ctx, P, fn)

@harness(bounds='2..3 processes, both schedules, all node layouts; 3 lattice '
    'vectors, 2 atoms, any force constants, masses', mpi=True, budget=SLOW)
def ph_operations(ctx):
    P = ctx.choice('P', PROCESSES)
    R = [(0, 0, 0), (1, 0, 0), (1, 0, 0)]
    data = ctx.reals('C', (3, 6, 6), 0.5, 1.0)
    M = ctx.reals('M', (2,), 1.0, 4.0)
    what = ctx.choice('operation', ['standardize', 'symmetrize', 'supercell',
        'rotated', 'sparse', 'unit_cell', 'order', 'asr'])

    def fn(v):
        np = v.np
        ph = ph_model(v, np.array(R), np.array(data), M=np.array(M),
            a=np.eye(3), r=np.array([[0.0, 0, 0], [0.2, 0.5, 0.1]]))
        if what == 'standardize':
            ph.standardize()
        elif what == 'symmetrize':
            ph.symmetrize()
        elif what == 'supercell':
            ph = ph.supercell(1, 2, 1)
        elif what == 'rotated':
            ph = ph.supercell((1, 1, 0), (-1, 1, 0), 1)
        elif what == 'sparse':
            ph = ph.supercell(2, sparse=True)
            return dict(D=ph.Ds.toarray(), M=np.array(ph.M), r=np.array(ph.r))
        elif what == 'unit_cell':
            ph = ph.supercell(2).unit_cell()
        elif what == 'order':
            ph.order_atoms(1, 0)
        elif what == 'asr':
            v.e.ph.sum_rule_correction(ph, asr=True, rsr=False, report=False)
        return dict(D=ph.D(*K[0]), R=np.array(ph.R), data=np.array(ph.data),
            M=np.array(ph.M), r=np.array(ph.r), a=np.array(ph.a),
            names=list(ph.atom_order))

    same(ctx, P, fn, tol=1e-7)

@harness(bounds='2..3 processes, both schedules, all node layouts; meshes of '
    '3 points (full) and 2x2 (irreducible wedge), one atom', mpi=True,
    budget=SLOW)
def ph_from_mesh(ctx):
    P = ctx.choice('P', PROCESSES)
    irr = ctx.choice('irreducible', [False, True])
    if irr:
        D = [ctx.hermitian('D%d' % i, 3) for i in range(2)]
        D = [x.real + 0j for x in D]
        q = [(0.0, 0.0), (0.0, math.pi)]
    else:
        h = ctx.hermitian('D1', 3)
        D = [ctx.hermitian('D0', 3).real + 0j, h, ctx.np.conj(h)]

    def fn(v):
        np = v.np
        ph = ph_model(v, np.zeros((1, 3), dtype=int), np.zeros((1, 3, 3)),
            a=lattice(v, 'hex'), r=np.zeros((1, 3)))
        if irr:
            v.e.ph.q2r(ph, np.array(D), q, nq=2)
        else:
            v.e.ph.q2r(ph, D_full=np.array(D))
        return dict(D=ph.D(*K[0]), n=len(ph.R))

    same(ctx, P, fn, tol=1e-7)

@harness(bounds='2..4 processes, both schedules, all node layouts; mesh of 2 '
    'q and 2 k points, 1 atom, 2 orbitals, any coupling, shared memory or not',
    mpi=True, budget=SLOW)
def elph_from_mesh(ctx):
    P = ctx.choice('P', [2, 3, 4])
    shared = ctx.choice('shared', [False, True])
    g = ctx.cplxs('g', (2, 3, 2, 2, 2))

    def fn(v):
        np = v.np
        el = v.e.el.Model()
        el.size = 2
        ph = ph_model(v, np.zeros((1, 3), dtype=int), np.zeros((1, 3, 3)))
        elph = v.e.elph.Model(el=el, ph=ph, divide_mass=True)
        v.e.elph.q2r(elph, (2,), (2,), np.array(g),
            np.array([[0.0, 0, 0], [0.3, 0.1, 0.0]]), shared_memory=shared)
        out = dict(g=elph.g(*K[0], *K[1]), g2=elph.g(0.2, 0.1, 0.7, -0.4))
        return out

    same(ctx, P, fn)

@harness(bounds='2..3 processes, both schedules, all node layouts; lists of '
    '2 and 3 lattice vectors, 1 orbital, any coupling', mpi=True, budget=SLOW)
def elph_operations(ctx):
    P = ctx.choice('P', PROCESSES)
    Rg = [(0, 0, 0), (1, 0, 0)]
    Rk = [(0, 0, 0), (0, 1, 0), (1, 0, 0)]
    data = positive(ctx, 'g', (2, 3, 3, 1, 1))
    what = ctx.choice('operation', ['standardize', 'symmetrize', 'supercell',
        'rotated', 'sparse', 'asr', 'shared', 'clear'])

    def fn(v):
        np = v.np
        d = np.array(data)
        if what == 'sparse':
            d = d.real + 0j
        el = el_model(v, np.zeros((1, 3), dtype=int), np.ones((1, 1, 1)))
        ph = ph_model(v, np.zeros((1, 3), dtype=int), np.ones((1, 3, 3)))
        elph, _ = elph_model(v, Rg, Rk, 1, 1, d, el=el, ph=ph)
        if what == 'standardize':
            elph.standardize()
        elif what == 'symmetrize':
            elph.symmetrize()
        elif what == 'supercell':
            elph = elph.supercell(2)
        elif what == 'shared':
            elph = elph.supercell(2, shared_memory=True)
        elif what == 'rotated':
            elph = elph.supercell((1, 1, 0), (-1, 1, 0), 1)
        elif what == 'asr':
            elph.asr(report=False)
        elif what == 'clear':
            elph.clear()
        elif what == 'sparse':
            elph = elph.supercell(2, sparse=True)
            return dict(g=np.array([x.toarray() for x in elph.gs]))
        g = elph.g(0.2, 0.1, 0.0, 0.7, -0.4, 0.1)
        if np.ndim(g) == 0:
            g = np.zeros(3) + g
        return dict(g=g, Rg=np.array(elph.Rg), Rk=np.array(elph.Rk),
            data=np.array(elph.data))

    same(ctx, P, fn)

@harness(bounds='2..4 processes, both schedules, all node layouts; 1..3 q '
    'points, 2 k points, 1..2 orbitals, any coupling, eigenvectors or none, '
    'shared memory or not, squared or not', mpi=True, budget=SLOW)
def elph_sample(ctx):
    P, nq = ctx.choice('P', [(2, 1), (2, 3), (3, 1), (3, 2), (3, 3), (4, 1),
        (4, 2), (4, 3)])
    shared, broadcast, kind = ctx.choice('mode', [(False, True, 'plain'),
        (False, False, 'squared'), (True, True, 'squared'),
        (True, True, 'rotated')])
    np = ctx.np
    data = ctx.reals('g', (2, 3, 2, 1, 1)) * (0.6 + 0.8j)
    U = np.array([0.6 + 0.8j, 1j]).reshape((2, 1, 1))
    u = np.arange(18).reshape((3, 3, 2)) * (0.1 - 0.2j)
    q = [(0.0, 0.0, 0.0), (math.pi, 0.0, 0.0), (0.0, 0.4, 0.0)][:nq]

    def fn(v):
        np = v.np
        el = el_model(v, np.zeros((1, 3), dtype=int), np.ones((1, 1, 1)))
        ph = ph_model(v, np.zeros((1, 3), dtype=int), np.ones((1, 3, 3)))
        elph, _ = elph_model(v, [(0, 0, 0), (1, 0, 0)], [(0, 0, 0),
            (0, 1, 0)], 1, 1, np.array(data), el=el, ph=ph)
        kw = {}
        if kind == 'rotated':
            kw = dict(U=np.array(U).reshape((2, 1, 1, 1, 1)),
                u=np.array(u)[:nq])
        else:
            kw = dict(nk=(2, 1, 1))
        return dict(g=np.array(elph.sample(q, squared=kind == 'squared',
            shared_memory=shared, broadcast=broadcast, **kw)))

    same(ctx, P, fn, root=() if broadcast else ('g',))

@harness(bounds='2..3 processes, both schedules, all node layouts; 1..2 q '
    'points, 2x2 k points, 1 orbital, any coupling', mpi=True, budget=SLOW)
def elph_transform(ctx):
    P = ctx.choice('P', PROCESSES)
    nq = ctx.choice('q points', [1, 2])
    shared = ctx.choice('shared', [False, True])
    squared = ctx.choice('squared', [False, True])
    g = ctx.cplxs('g', (nq, 2, 2, 2, 1, 1)) if nq > 1 \
        else ctx.cplxs('g', (1, 2, 2, 2, 1, 1))
    U = ctx.cplxs('U', (2, 2, 1, 1))
    q = [(0.0, math.pi), (math.pi, math.pi)][:nq]

    def fn(v):
        np = v.np
        return dict(g=np.array(v.e.elph.transform(np.array(g), q, 2,
            U=np.array(U), squared=squared, shared_memory=shared)))

    same(ctx, P, fn)

@harness(bounds='2..3 processes, both schedules, all node layouts; 2 lattice '
    'vectors, 2 orbitals, any interaction', mpi=True, budget=SLOW)
def coulomb(ctx):
    P = ctx.choice('P', PROCESSES)
    what = ctx.choice('operation', ['mesh', 'standardize', 'supercell'])
    data = positive(ctx, 'W', (3, 2, 2))

    def fn(v):
        np = v.np
        m = v.e.elel.Model()
        if what == 'mesh':
            v.e.elel.q2r(m, np.array(data)[:, np.newaxis], lattice(v, 'hex'),
                np.array([[0.0, 0, 0], [0.0, 1 / 3 ** 0.5, 0.0]]))
            return dict(W=m.W(*K[0]), n=len(m.R))
        m.R = np.array([(0, 0, 0), (1, 0, 0), (0, 0, 0)])
        m.data = np.array(data)
        m.size = 2
        if what == 'standardize':
            m.standardize()
        else:
            m = m.supercell(2)
        return dict(W=m.W(*K[0]), R=np.array(m.R), data=np.array(m.data))

    same(ctx, P, fn)

# ---------------------------------------------------------------------------
# sums over the Brillouin zone

E = [[-0.21, 0.34], [0.11, -0.02], [0.5, 0.11]]

def qpoints(nQ):
    return [(2 * math.pi * i / 3,) for i in range(nQ)]

@harness(bounds='2..4 processes, both schedules; 1..3 q points, 3 k points, '
    '2 bands, any coupling', mpi=True, budget=SLOW)
def self_energy(ctx):
    P = ctx.choice('P', [2, 3, 4])
    nQ = ctx.choice('q points', [1, 2, 3])
    kind = ctx.choice('kind', ['none', 'g2', 'g', 'gG', 'omega',
        'fluctuations', 'Delta'])
    shape = (3, 1, 3, 2, 2)
    g2 = ctx.reals('g2', shape)
    g = ctx.cplxs('g', shape)
    G = ctx.cplxs('G', shape)

    def fn(v):
        np = v.np
        q = qpoints(nQ)
        e = np.array(E)
        f = v.e.diagrams.phonon_self_energy
        if kind == 'none':
            return dict(Pi=f(q, e))
        if kind == 'g2':
            return dict(Pi=f(q, e, np.array(g2)[:nQ]))
        if kind == 'g':
            return dict(Pi=f(q, e, g=np.array(g)[:nQ]))
        if kind == 'gG':
            return dict(Pi=f(q, e, g=np.array(g)[:nQ], G=np.array(G)[:nQ],
                occupations='gauss', U=np.full((2, 2), 0.1)))
        if kind == 'omega':
            return dict(Pi=f(q, e, np.array(g2)[:nQ],
                omega=np.array([0.1 + 0.01j, 0.2 + 0.01j])))
        if kind == 'fluctuations':
            Pi, Pi_k = f(q, e, np.array(g2)[:nQ], fluctuations=True)
            return dict(Pi=Pi, Pi_k=Pi_k)
        return dict(Pi=f(q, e, np.array(g2)[:nQ], Delta=0.1, Delta_diff=True))

    same(ctx, P, fn)

@harness(bounds='2..3 processes, both schedules; 1..3 q points, 3 k points, '
    '2 bands, any coupling and interaction', mpi=True, budget=SLOW)
def renormalization(ctx):
    P = ctx.choice('P', PROCESSES)
    nQ = ctx.choice('q points', [1, 2, 3])
    kind = ctx.choice('kind', ['band', 'band full', 'Pi_g', 'Pi_g full'])
    g = ctx.cplxs('g', (3, 1, 3, 2, 2))
    W = ctx.reals('W', (2, 2))
    U = [[[0.6, 0.8j], [0.8j, 0.6]], [[1.0, 0.0], [0.0, 1j]],
        [[0.8, -0.6], [0.6, 0.8]]]

    def fn(v):
        np = v.np
        q = qpoints(nQ)
        e = np.array(E)
        w = np.array([np.array(W)] * nQ)
        w4 = np.array([[[np.array(W)] * 2] * 2] * nQ)
        d = v.e.diagrams
        gq = np.array(g)[:nQ]
        Uk = np.array(U)
        if kind == 'band':
            r = d.renormalize_coupling_band(q, e, gq, w, Uk, status=False)
        elif kind == 'band full':
            r = d.renormalize_coupling_band(q, e, gq, w4, Uk, nbnd_sub=1,
                status=False)
        elif kind == 'Pi_g':
            r = d.Pi_g(q, e, gq, Uk, status=False)
        else:
            r = d.Pi_g(q, e, gq, Uk, dd=False, status=False)
        return dict(g=r)

    same(ctx, P, fn)

@harness(bounds='2..4 processes, both schedules; 1..3 q points, 3 k points, '
    '2 bands, any coupling', mpi=True, budget=SLOW)
def averages(ctx):
    P = ctx.choice('P', [2, 3, 4])
    nQ = ctx.choice('q points', [1, 2, 3])
    kind = ctx.choice('kind', ['average', 'average none', 'fan', 'kubo',
        'self_energy2'])
    g2 = ctx.reals('g2', (3, 1, 3, 2, 2))
    h2 = ctx.reals('h2', (3, 1, 2, 2))
    A = ctx.reals('A', (3, 2, 5))
    vel = ctx.reals('v', (3, 2, 1))

    def fn(v):
        np = v.np
        q = qpoints(nQ)
        e = np.array(E)
        d = v.e.diagrams
        if kind == 'average':
            x, y = d.double_fermi_surface_average(q, e, np.array(g2)[:nQ])
            return dict(x=x, y=y)
        if kind == 'average none':
            x, y = d.double_fermi_surface_average(q, e)
            return dict(x=x, y=y)
        if kind == 'fan':
            w = np.array([[0.02], [0.03], [0.05]])
            G = np.array(g2)[:nQ].transpose((2, 1, 0, 3, 4))
            return dict(S=d.fan_migdal_self_energy(q, e, w, G,
                np.array([0.1, 0.2]) + 0.01j))
        if kind == 'kubo':
            return dict(s=d.green_kubo_conductivity(np.array(vel),
                np.array(A), np.arange(-2, 3) * 0.1))
        Q = np.array([(2 * math.pi * i / 2, 0.0) for i in range(nQ)])
        return dict(Pi=d.phonon_self_energy2(Q, np.array(E)[:2, :2],
            np.array(h2)[:nQ], nmats=2))

    same(ctx, P, fn)

# ---------------------------------------------------------------------------
# dispersion and sampling

@harness(bounds='2..4 processes, both schedules, all node layouts; 1..4 k '
    'points, 1 band, any hopping; with and without eigenvectors, order, '
    'shared memory, broadcast', mpi=True, budget=SLOW)
def bands(ctx):
    P, nk = ctx.choice('P', [(2, 1), (2, 2), (3, 1), (3, 2), (4, 2), (4, 4)])
    shared, broadcast = ctx.choice('mode', [(False, True), (False, False),
        (True, True)])
    kind = ctx.choice('kind', ['v', 'V', 'order', 'both', 'general'])
    t = ctx.reals('t', (5,), -0.5, 0.5)
    k = [(1.1 * i, -0.2, 0.1 * i) for i in range(nk)]
    two = kind in ('order', 'both', 'V')

    def fn(v):
        np = v.np
        kw = dict(shared_memory=shared, broadcast=broadcast)
        f = v.e.dispersion.dispersion
        data = np.zeros((5, 1 + two, 1 + two), dtype=complex)
        data[:, 0, 0] = np.array(t)
        if two:     # crossing bands
            data[0, 0, 0] = data[0, 0, 0] + 9.0
            data[1, 1, 1] = 10.0
            data[2, 1, 1] = 10.0
        el = el_model(v, np.array(R0), data)
        if kind == 'v':
            return dict(v=np.array(f(el.H, k, **kw)))
        if kind == 'general':
            return dict(v=np.array(f(el.H, k, hermitian=False, **kw)))
        if kind == 'V':
            v, V = f(el.H, k, vectors=True, **kw)
            return dict(v=np.array(v), V=np.array(V))
        if kind == 'order':
            v, o = f(el.H, k, order=True, **kw)
            return dict(v=np.array(v), o=np.array(o))
        v, V, o = f(el.H, k, vectors=True, order=True, **kw)
        return dict(v=np.array(v), V=np.array(V), o=np.array(o))

    same(ctx, P, fn, root=() if broadcast else ('v', 'V', 'o'))

@harness(bounds='2..3 processes, both schedules, all node layouts; 2x2 and '
    '3x3 meshes, 1 band, any hopping', mpi=True, budget=SLOW)
def bands_mesh(ctx):
    P = ctx.choice('P', PROCESSES)
    nk = ctx.choice('mesh', [2, 3])
    shared = ctx.choice('shared', [False, True])
    kind = ctx.choice('kind', ['full', 'vectors', 'order', 'nosym',
        'nosym order'])
    t = ctx.reals('t', (5,))

    def fn(v):
        np = v.np
        el = el_model(v, np.array(R0), np.array(t).reshape((5, 1, 1)) + 0j)
        d = v.e.dispersion
        kw = dict(shared_memory=shared)
        if kind == 'full':
            return dict(v=np.array(d.dispersion_full(el.H, nk, **kw)))
        if kind == 'vectors':
            r = d.dispersion_full(el.H, nk, vectors=True, **kw)
        elif kind == 'order':
            r = d.dispersion_full(el.H, nk, order=True, **kw)
        elif kind == 'nosym':
            r = d.dispersion_full_nosym(el.H, nk, vectors=True, **kw)
        else:
            if shared:
                r = d.dispersion_full_nosym(el.H, nk, **kw),
            else:
                r = d.dispersion_full_nosym(el.H, nk, vectors=True,
                    order=True)
        return dict((str(i), np.array(x)) for i, x in enumerate(r))

    same(ctx, P, fn)

@harness(bounds='2..4 processes, both schedules; 1..4 k points, 2 orbitals, '
    'any hopping and eigenvectors', mpi=True, budget=SLOW)
def sampling(ctx):
    P = ctx.choice('P', [2, 3, 4])
    nk = ctx.choice('k points', [1, 3, 4])
    kind = ctx.choice('kind', ['sample', 'unfold', 'spectral'])
    t = ctx.cplxs('t', (5, 2, 2))
    U0 = ctx.cplxs('U', (4, 2, 1))
    U = ctx.cplxs('V', (4, 4, 2))
    k = [(0.3 * i, -0.2, 0.1 * i) for i in range(nk)]

    def fn(v):
        np = v.np
        if kind == 'sample':
            el = el_model(v, np.array(R0), np.array(t))
            return dict(H=v.e.dispersion.sample(el.H, k))
        if kind == 'unfold':
            return dict(w=v.e.dispersion.unfolding_weights(np.array(k),
                [(0, 0, 0), (1, 0, 0)], np.array(U0)[:nk],
                np.array(U)[:nk]))
        D = np.array(t)[0, 0, 0].real * np.ones((1, 1, nk)) + 0j
        w = np.array([0.1 * (i + 1) for i in range(nk)])
        return dict(A=v.e.ph.spectral_function(D, w, 0.3))

    same(ctx, P, fn)

# ---------------------------------------------------------------------------
# meshes, files

@harness(bounds='2..4 processes, both schedules, all node layouts; 2x2 to 2x3 '
    'and 3x3 meshes, any data', mpi=True, budget=SLOW)
def resampling(ctx):
    P = ctx.choice('P', [2, 3, 4])
    new = ctx.choice('shape', [(4, 4), (1, 1), (3, 2)])
    data = ctx.reals('d', (2, 2))
    angle = ctx.choice('angle', [60, 90, 120])
    periodic = True

    def fn(v):
        np = v.np
        return dict(d=np.array(v.e.bravais.resize(np.array(data), new,
            angle=angle)))

    same(ctx, P, fn)

@harness(bounds='2..3 processes, both schedules, all node layouts; 4 '
    'geometries', mpi=True, budget=SLOW)
def geometry(ctx):
    P = ctx.choice('P', PROCESSES)
    kind = ctx.choice('kind', ['wigner', 'wigner3', 'short', 'grid',
        'supercell'])
    shared = ctx.choice('shared', [False, True])
    x = ctx.reals('x', (3,))
    data = ctx.cplxs('d', (3, 2, 2))

    def fn(v):
        np = v.np
        at = lattice(v, 'hex')
        tau = np.array([[0.0, 0, 0], [0.0, 1 / 3 ** 0.5, 0.0]])
        if kind in ('wigner', 'wigner3'):
            n = (3, 1, 1) if kind == 'wigner' else (2, 2, 2)
            irvec, ndegen, wslen = v.e.bravais.wigner(*n, at, tau)
            rows = sorted([tuple(int(y) for y in r)
                + tuple(int(y) for y in np.ravel(ndegen[:, :, i]
                    if np.shape(ndegen)[-1] == len(irvec) else ndegen[i]))
                for i, r in enumerate(irvec)])
            return dict(rows=rows)
        if kind == 'short':
            R, D, l = v.e.bravais.short_range_model(np.array(data)[:,
                np.newaxis, np.newaxis], at, tau)
            k = (0.3, 0.1, 0.7)
            return dict(D=fourier(v, R, D, k), n=len(R))
        if kind == 'supercell':
            N, M, B, cells = v.e.bravais.supercell((1, 1, 0), (-1, 2, 0), 1)
            return dict(N=int(N), M=[[int(y) for y in r] for r in M],
                cells=[tuple(int(y) for y in r) for r in cells])
        return dict(r=np.array(v.e.misc.real_space_grid((2, 3, 1),
            np.array(x), np.eye(3) * 2.0, shared_memory=shared)))

    same(ctx, P, fn)

@harness(bounds='2..4 processes, both schedules; 2x2 and 3x3 meshes of fixed '
    'energies, any couplings, any energy within one interval', mpi=True,
    budget=SLOW)
def densities(ctx):
    P = ctx.choice('P', [2, 3, 4])
    kind = ctx.choice('kind', ['dos', 'window', 'a2F', 'double', 'isoline'])
    N = ctx.choice('N', [2, 3])
    E = ctx.real('E', 0.12, 0.13)
    c = ctx.reals('c', (3, 3))
    e = [[0.1 * ((3 * i + 7 * j + i * j) % 10) for j in range(N)]
        for i in range(N)]
    f = [[0.1 * ((5 * i + 3 * j + 2) % 7) for j in range(N)]
        for i in range(N)]

    def fn(v):
        np = v.np
        d = v.e.dos
        x = np.array(e)
        if kind == 'dos':
            return dict(D=d.hexDOS(x)(E))
        if kind == 'window':
            return dict(D=d.hexDOS(x, minimum=0.15, maximum=0.3)(0.2))
        if kind == 'a2F':
            return dict(D=d.hexa2F(x, np.array(c)[:N, :N])(E))
        if kind == 'isoline':
            return dict(n=len(d.isoline(x)(0.125)))
        D = d.double_delta(x, np.array(f), np.array(c)[:N, :N])(0.125)
        keys = sorted(D)
        return dict(x=[tuple(round(float(t), 6) for t in k) for k in keys],
            y=np.array([D[k] for k in keys]))

    same(ctx, P, fn)

@harness(bounds='2..4 processes, both schedules, all node layouts; 1 atom, 1 '
    'orbital, 2 k and q points, any coupling', mpi=True, budget=SLOW)
def dynamics(ctx):
    P = ctx.choice('P', [2, 3, 4])
    t = [0.2, 0.3]
    g = ctx.reals('g', (2,), 0.3, 0.4)
    C = [6.0, 8.0, 7.0]

    def fn(v):
        np = v.np
        el = el_model(v, np.array([(0, 0, 0), (1, 0, 0), (-1, 0, 0)]),
            np.array([t[0], t[1], t[1]]).reshape((3, 1, 1)) + 0j)
        el.rydberg = True
        ph = ph_model(v, np.array([(0, 0, 0)]), np.diag(C)[None],
            divide_mass=False)
        data = np.zeros((2, 3, 1, 1, 1)) + 0j
        data[:, 0, 0, 0, 0] = g
        elph, _ = elph_model(v, [(0, 0, 0), (1, 0, 0)], [(0, 0, 0)], 1, 1,
            data=data, el=el, ph=ph, divide_mass=False)

        class Driver(v.e.md.Driver):
            def find_Fermi_level(self):
                self.mu = 0.3
                return self.mu

        d = Driver(elph, 0.7, Linear(), 1, nk=(2,), nq=(2,), unscreen=False)
        out = {'C': d.hessian(gamma_only=False)}
        names = 'lambda', 'wlog', 'w2nd', 'wmin'
        out.update(zip(names, d.superconductivity()))
        out['C again'] = d.hessian(gamma_only=False)
        return out

    same(ctx, P, fn)

class Linear:
    def __call__(self, x):
        return 0.5 - 0.3 * x + 0.1 * x * x

    def delta(self, x):
        return 0.3 - 0.2 * x

def write(ctx, name, text):
    with open(ctx.scratch(name), 'w', encoding='utf-8') as f:
        f.write(text)
    return ctx.scratch(name)

def reader(ctx, kind):
    """File with some unknown numbers and function that reads it."""
    np = ctx.np
    e = ctx.e
    num = lambda n: [ctx.format('%.6f', ctx.real('x%d' % i, 0.1, 9.0))
        for i in range(n)]
    if kind == 'hrdat':
        data = ctx.cplxs('t', (2, 2, 2), 9.0)
        e.el.write_hrdat(ctx.scratch('w'), np.array([(0, 0, 0), (1, 0, 0)]),
            np.array(data))
        if ctx.choice('vectors', [False, True]):
            text = '## shifts\n'
            for R in 0, 1:
                for a in 1, 2:
                    for b in 1, 2:
                        text += '%5d    0    0%5d%5d\n' % (R, a, b)
                        text += ('2\n 0 0 0\n -2 0 0\n' if R and a != b
                            else '1\n 0 0 0\n')
            write(ctx, 'w_wsvec.dat', text)

        def fn(v):
            el = v.e.el.Model(ctx.scratch('w'))
            return dict(H=el.H(*K[0]), n=len(el.R), size=el.size)
    elif kind == 'pwo':
        x = num(6)
        path = write(ctx, 'pwo', '     number of electrons       =        '
            '17.00\n     number of Kohn-Sham states=            2\n'
            '     number of k points=    2  smearing\n\n'
            '     End of self-consistent calculation\n'
            + ''.join('\n          k = 0.0000 0.0000 0.0000 (  2000 PWs)   '
                'bands (ev):\n\n  %s  %s\n' % (x[i], x[i + 1])
                for i in range(2))
            + '\n     the Fermi energy is  %s ev\n' % x[4]
            + '\n!    total energy              =    -%s Ry\n' % x[5])

        def fn(v):
            eps, Ne, E = v.e.el.read_pwo(path)
            return dict(mu=v.e.el.read_Fermi_level(path), e=eps, Ne=float(Ne),
                E=E)
    elif kind == 'bands':
        path = ctx.scratch('filband')
        e.el.write_bands(path, np.array([(0.0, 0, 0), (0.5, 0, 0)]),
            ctx.reals('e', (3, 2), -9.0, 9.0))

        def fn(v):
            k, x, e = v.e.el.read_bands(path)
            return dict(k=k, x=x, e=e)
    elif kind == 'proj':
        x = num(8)
        path = write(ctx, 'proj', '<?xml version="1.0"?>\n<HEADER '
            'NUMBER_OF_BANDS="2" NUMBER_OF_K-POINTS="1" '
            'NUMBER_OF_ATOMIC_WFC="1" FERMI_ENERGY="%s"/>\n<EIGENSTATES>\n'
            '<K-POINT>\n%s 0.1 0.2\n</K-POINT>\n<E>\n%s %s\n</E>\n<PROJS>\n'
            '<ATOMIC_WFC>\n%s %s\n%s %s\n</ATOMIC_WFC>\n</PROJS>\n'
            % tuple(x))

        def fn(v):
            x, k, e, w = v.e.el.read_atomic_projections(path, from_fermi=True,
                squared=True)
            return dict(k=k, x=x, e=e, w=w)
    elif kind == 'xsf':
        path = ctx.scratch('f.xsf')
        e.misc.write_xsf(path, ctx.reals('o', (3,), -9.0, 9.0),
            ctx.reals('a', (3, 3), -9.0, 9.0), ['Ta', 'S'],
            ctx.reals('t', (2, 3), -9.0, 9.0),
            np.array(ctx.reals('d', (2, 1, 3), -9.0, 9.0)))
        head = ctx.choice('header', [False, True])

        def fn(v):
            r0, a, X, tau, data = v.e.misc.read_xsf(path, only_header=head)
            if head:
                data = np.array([int(n) for n in data])
            return dict(r0=r0, a=a, X=[str(x) for x in X], tau=tau, data=data)
    elif kind == 'cube':
        x = num(9)
        path = write(ctx, 'cube', 'comment\ncomment\n 1 %s 0 1\n 2 %s 0 0\n'
            ' 1 0 %s 0\n 1 0 0 1\n 16 0.5 %s %s 0\n %s %s\n' % tuple(x[:7]))
        head = ctx.choice('header', [False, True])

        def fn(v):
            r0, a, X, tau, data = v.e.misc.read_cube(path, only_header=head)
            if head:
                data = np.array([int(n) for n in data])
            return dict(r0=r0, a=a, X=[int(x) for x in X], tau=tau, data=data)
    elif kind == 'orbital':
        x = num(2)
        path = write(ctx, 'UIJKL', '# comment\n0.5 0.0 0.0 1 1 2 2 %s %s\n'
            '0.0 0.0 0.0 1 1 2 2 %s %s\n' % (x[0], x[1], x[1], x[0]))

        def fn(v):
            U = v.e.elel.read_orbital_Coulomb_interaction(path, (2, 1, 1), 2,
                dd=True)
            return dict(U=U[:, 0, 0, 0, 1])
    elif kind == 'local':
        x = num(2)
        path = write(ctx, 'local', '# comment\n1 1 2 2 %s %s\n' % tuple(x))

        def fn(v):
            return dict(U=v.e.elel.read_local_Coulomb_tensor(path, 2,
                dd=True)[0, 1])
    elif kind == 'band':
        path = ctx.scratch('U')
        binary, share = ctx.choice('how', [(False, False), (True, True),
            (False, True), (True, False)])
        e.elel.write_band_Coulomb_interaction(path,
            np.array(ctx.cplxs('U', (2,) + (1,) * 4, 9.0)), binary=binary)

        def fn(v):
            U = v.e.elel.read_band_Coulomb_interaction(path, 2, 1,
                binary=binary, share=share)
            return {'U' if share else 'U on first process': U}
    elif kind == 'pwi':
        x = num(3)
        path = write(ctx, 'pwi', '&system\n ibrav=4 nat=1 ntyp=1 celldm(1)=%s\n'
            '/\nATOMIC_SPECIES\nTa 180.9 Ta.upf\nATOMIC_POSITIONS crystal\n'
            'Ta 0 %s %s\n' % tuple(x))

        def fn(v):
            s = v.e.bravais.read_pwi(path)
            return dict(r=s['r'], a=s['celldm'][0], at=s['at'],
                keys=sorted(s))
    elif kind == 'win':
        x = num(3)
        path = write(ctx, 'win', 'num_wann = 1\ndis_win_max = %s\n'
            'begin unit_cell_cart\n1 0 0\n0 1 0\n0 0 %s\nend unit_cell_cart\n'
            'begin atoms_frac\nTa 0 0 %s\nend atoms_frac\n' % tuple(x))

        def fn(v):
            s = v.e.bravais.read_win(path)
            return dict(a=np.array(s['unit_cell']), r=np.array(s['atoms']),
                E=s['dis_win_max'], keys=sorted(s))
    elif kind == 'matdyn':
        q = ctx.reals('q', (2, 4), -0.9, 0.9)
        path = ctx.scratch('matdyn')
        e.bravais.write_matdyn(path, dict(flfrc='ifc', asr='simple', nq=2,
            q=q))

        def fn(v):
            s = v.e.bravais.read_matdyn(path)
            return dict(q=np.array(s['q']), keys=sorted(s))
    elif kind == 'epw':
        path = ctx.scratch('epw')
        e.bravais.write_epw(path, dict(prefix='a', nbndsub=3, nk1=2,
            dis_win_max=ctx.real('x0', 0.1, 9.0), proj=['Ta:d']))

        def fn(v):
            s = v.e.bravais.read_epw(path)
            return dict(E=s['dis_win_max'], proj=s['proj'], n=s['nbndsub'])
    elif kind == 'xml':
        g = ctx.cplxs('g', (2, 2, 1, 1, 1, 1), 3.0)
        old = e.elph.comm
        e.elph.comm = e.MPI.I       # every process has its own folder here
        e.elph.write_xml_files(ctx.scratch('%d.%d.xml'), np.array(g))
        e.elph.comm = old

        def fn(v):
            return dict(g=v.e.elph.read_xml_files(ctx.scratch('%d.%d.xml'), 2,
                2, [0], 1, 1, squeeze=False, status=False, old=True))
    elif kind == 'array':
        txt = ctx.choice('text', [False, True])
        path = ctx.scratch('a.npy')
        a = ctx.reals('b', (2, 3), 1.0, 9.0)
        if txt:
            np.savetxt(path, a)
        else:
            np.save(path, a)
        share = ctx.choice('share', [True, False])

        def fn(v):
            return dict(a=v.e.MPI.load(path, share, txt) + 0.0,
                b=v.e.MPI.load(path + 'missing', share) + 0.0)
    elif kind == 'buffer':
        path = ctx.scratch('buffer')
        x = ctx.real('x0', 0.1, 9.0)

        def fn(v):
            b = v.e.MPI.Buffer(path + '%d' % v.e.MPI.comm.size)
            first = b.get()
            b.set({'x': x + v.e.MPI.comm.rank, 'y': 'text'})
            v.e.MPI.comm.barrier()
            obj = b.get()
            none = v.e.MPI.Buffer()
            none.set(3)
            return dict(x=obj['x'], y=obj['y'], none=none.get(), first=first)
    return fn

READERS = ['hrdat', 'pwo', 'bands', 'proj', 'xsf', 'cube', 'orbital', 'local',
    'band', 'pwi', 'win', 'matdyn', 'epw', 'xml', 'array', 'buffer']

@harness(bounds='16 kinds of files with any numbers; 2 processes, both '
    'schedules, both node layouts', mpi=True, budget=SLOW)
def files(ctx):
    """All processes know what has been read."""
    kind = ctx.choice('kind', READERS)
    same(ctx, 2, reader(ctx, kind), root=('U on first process',))

def output(ctx, kind):
    """Output of external program and function that reads it."""
    np, e = ctx.np, ctx.e
    T = lambda s: Text(ctx, s)
    if kind == 'projwfc':
        text = '     Atomic states used for projection\n     (read)\n\n'
        for i, (l, m) in enumerate([(2, 1), (2, 4), (1, 1)], 1):
            text += ('     state #%4d: atom %3d (Ta ), wfc  1 (l=%d m=%2d)\n'
                % (i, l, l, m))
        path = write(ctx, 'projwfc', text + '\n k =   0.0 0.0 0.0\n')
        other = ctx.choice('other', [True, False])
        p = ctx.reals('p', (2, 1, 4), 0.0, 1.0)

        def fn(v):
            names = v.e.el.read_projwfc_out(path, other=other)
            w = v.e.el.proj_sum(p, ['Ta-5s', 'Ta-5dz2', 'S1-3pz', 'S2-3px'],
                'Ta', 'S-pz, 5', 'S2-p', other=other)
            return dict(names=[str(x) for x in names], w=w)
    elif kind == 'old':
        x = ctx.reals('x', (8,), 0.1, 0.9)
        text = '<Root>\n'
        for key, n in [('BANDS', 2), ('K-POINTS', 1), ('SPIN_COMPONENTS', 1),
                ('ATOMIC_WFC', 1)]:
            text += '<NUMBER_OF_%s type="integer">\n%11d\n</NUMBER_OF_%s>\n' \
                % (key, n, key)
        text += T('<FERMI_ENERGY type="real">\n%.9f\n</FERMI_ENERGY>\n'
            '<K-POINTS type="real">\n%.9f 0.1 0.2\n</K-POINTS>\n<EIGENVALUES>\n'
            '<K-POINT.1>\n<EIG type="real">\n%.9f\n%.9f\n</EIG>\n'
            '</K-POINT.1>\n</EIGENVALUES>\n<PROJECTIONS>\n<K-POINT.1>\n'
            '<ATMWFC.1 type="complex">\n%.9f, %.9f\n%.9f, %.9f\n</ATMWFC.1>\n'
            '</K-POINT.1>\n</PROJECTIONS>\n</Root>\n') % tuple(x)
        path = write(ctx, 'old', text)

        def fn(v):
            x, k, e, w = v.e.el.read_atomic_projections_old(path)
            return dict(k=k, x=x, e=e, w=w)
    elif kind == 'energies':
        x = ctx.reals('c', (3,), -9.0, 9.0)
        path = write(ctx, 'scf', T('!    total energy              =%17.8f Ry\n'
            '     smearing contrib. (-TS)   =%17.8f Ry\n'
            '     hartree contribution      =%17.8f Ry\n') % tuple(x))

        def fn(v):
            E = v.e.el.read_energy_contributions_scf_out(path)
            return dict(E=np.array([ctx.parse(E[key]) for key in sorted(E)]),
                keys=sorted(E))
    elif kind == 'epw':
        g = ctx.reals('g', (2, 1, 4, 1, 1), 0.01, 99.0)
        text = '     EPW\n\n     L   0.25\n'
        for iq in range(2):
            text += '     iq = %7d   coord.:   %.4f 0.0000 0.0\n' % (iq + 1,
                iq / 2)
            for ik in range(4):
                text += '     ik = %7d   coord.:   %.4f %.4f 0.0\n' % (ik + 1,
                    ik // 2 / 2, ik % 2 / 2)
                text += '     ibnd     jbnd     imode   enk[eV]\n----\n'
                text += T('  1 1 1 0.5 0.25 10.0 %.9f\n----\n') % g[
                    iq, 0, ik, 0, 0]
        path = write(ctx, 'epw', text)
        nothing = write(ctx, 'nothing', 'nothing\n')
        how = ctx.choice('epf', [False, True])

        def fn(v):
            a = v.e.elph.read_EPW_output(path, [(1, 0), (0, 0)], 2, 1, 2,
                epf=how)
            w, b = v.e.elph.read_prtgkk(path, 2, 1, 4, 1)
            return dict(a=a, b=b, w=w, L=float(v.e.elph.read_L(path)),
                none=v.e.elph.read_L(nothing))
    elif kind == 'coupling':
        g = ctx.reals('g', (2, 4), 0.1, 9.0)
        points = [(1, 1), (1, 2), (2, 1), (2, 2)]
        for iq in range(2):
            text = ''
            for n, k in enumerate(points):
                text += T('%d %d 1 1 1 %.9f\n') % (*k, g[iq, n])
            write(ctx, 'elph.%d' % (iq + 1), text)
        full = ctx.choice('completion', [False, True])
        Q = ctx.choice('Q', [None, [2]])

        def fn(v):
            return dict(g=v.e.elph.coupling(ctx.scratch('elph.%d'), 2, 1, 2, 1,
                Q=None if Q is None else np.array(Q), completion=full))
    elif kind == 'xyz':
        u = ctx.reals('u', (2, 3), -0.1, 0.1)
        text = '2\n# comment\n'
        for X, x in zip(['A', 'B'], u):
            text += X + T(' %.9f %.9f %.9f\n') % tuple(x)
        path = write(ctx, 'xyz', text)

        def fn(v):
            class Driver(v.e.md.Driver):
                def __init__(self):
                    pass

            class Object:
                pass
            d = Driver()
            d.elph = Object()
            d.elph.ph = Object()
            d.elph.ph.nat = 2
            d.elph.ph.atom_order = ['A', 'B']
            d.elph.ph.r = np.array([(0.0, 0.0, 0.0), (1.0, 0.0, 0.0)])
            d.interactive = False
            d.u = np.zeros(6)
            d.from_xyz(path)
            return dict(u=d.u)
    return fn

OUTPUTS = ['projwfc', 'old', 'energies', 'epw', 'coupling', 'xyz']

@harness(bounds='6 kinds of output of Quantum ESPRESSO and EPW with any '
    'numbers; 2 processes, both schedules, both node layouts', mpi=True,
    budget=SLOW)
def outputs(ctx):
    """All processes know what external programs have found."""
    kind = ctx.choice('kind', OUTPUTS)
    same(ctx, 2, output(ctx, kind))

@harness(bounds='2..3 processes, both schedules, all node layouts; any data',
    mpi=True, budget=SLOW)
def shared_memory(ctx):
    np = ctx.np
    P = ctx.choice('P', PROCESSES)
    x = ctx.reals('x', (2, 2), 0.5, 1.0)

    def fn(v):
        MPI = v.e.MPI
        a = MPI.SharedArray((2, 2), shared_memory=ctx.choice('share',
            [True, False]))
        if MPI.comm.rank == 0:
            a[...] = x
        a.Bcast()
        node, images = MPI.shm_split()
        where = MPI.comm.allgather((node.rank, images.rank))
        return dict(a=np.array(a) + 0.0, first=where[0])

    same(ctx, P, fn)

@harness(bounds='2..3 processes, both schedules, all node layouts; 2 Wannier '
    'functions on grid of 4 points with any values; shared memory, buffered '
    'or not', mpi=True, budget=SLOW)
def wannier_functions(ctx):
    np, e = ctx.np, ctx.e
    P = ctx.choice('P', PROCESSES)
    shared = ctx.choice('shared', [False, True])
    norm = ctx.choice('normalized', [True, False])
    buf = ctx.choice('buffered', [False, True])
    data = ctx.reals('W', (2, 2, 1, 2), 1.0, 9.0)
    name = ctx.scratch('wf')
    e.el.write_hrdat(name, np.array([[0, 0, 0]]), np.eye(2).reshape((1, 2, 2))
        + 0j)
    for i in range(2):
        e.misc.write_xsf(name + '_%05d.xsf' % (i + 1),
            ctx.reals('o', (3,), -9.0, 9.0), np.array([[3.0, 0, 0],
                [0, 2.0, 0], [1.0, 0, 4.0]]), ['Ta'],
            ctx.reals('t', (1, 3), -9.0, 9.0), np.array(data[i]))

    def fn(v):
        path = v.e.MPI.comm.bcast(name) # same files for all
        if buf:
            v.e.el.Model(path, read_xsf=True, normalize_wf=norm,
                buffer_wf=True)
        el = v.e.el.Model(path, read_xsf=True, normalize_wf=norm,
            buffer_wf=buf, shared_memory=shared)
        v.e.MPI.comm.barrier()
        return dict(W=np.array(el.W) + 0.0, r=np.array(el.r) + 0.0, dV=el.dV,
            tau=el.tau, X=[str(x) for x in el.atom_order])

    same(ctx, P, fn)
