"""Acoustic, rotational and charge sum rules."""

import itertools

from symx.harness import harness
from symx.common import (fourier, herm_data, ph_model, elph_model, lattice,
    double_fourier)

GRIDS = [(1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 1, 2), (3, 2, 1)]

@harness(bounds='1..2 atoms, grids up to 3x2x1, any real force constants')
def simple(ctx):
    """Force on each atom vanishes, only self force constants change."""
    np = ctx.np
    grid = ctx.choice('grid', GRIDS)
    nat = ctx.choice('atoms', [1, 2])
    data = ctx.reals('C', (nat, nat) + grid + (3, 3))
    C = np.array(data)
    ctx.e.ph.asr(C)
    for n in range(nat):
        ctx.eq(C[n].sum(axis=(0, 1, 2, 3)), np.zeros((3, 3)), 'sum')
        for m in range(nat):
            for R in itertools.product(*map(range, grid)):
                if n != m or any(R):
                    ctx.eq(C[n, m][R], data[n, m][R], 'other constants')
    again = np.array(C)
    ctx.e.ph.asr(again)
    ctx.eq(again, C, 'valid force constants')

@harness(bounds='1..3 atoms, any real charges')
def charges(ctx):
    """Born charges add up to zero, differences are kept."""
    np = ctx.np
    nat = ctx.choice('atoms', [1, 2, 3])
    data = ctx.reals('Z', (nat, 3, 3), -5, 5)
    Z = np.array(data)
    ctx.e.ph.zasr(Z)
    ctx.eq(Z.sum(axis=0), np.zeros((3, 3)), 'total charge')
    for n in range(nat):
        ctx.eq(Z[n] - Z[0], data[n] - data[0], 'differences')
    again = np.array(Z)
    ctx.e.ph.zasr(again)
    ctx.eq(again, Z, 'neutral charges')

# geometries with exactly representable coordinates:

GEOMETRY = [
    ([(1, 0, 0)], 1, 'cubic'),
    ([(1, 0, 0), (0, 1, 0)], 1, 'tilted'),
    ([], 2, 'cubic'),
    ([(0, 1, 0)], 2, 'tilted'),
]

SITES = [(0, 0, 0), (0.25, 0.5, 0.125)]

def geometry(ctx, which):
    np = ctx.np
    half, nat, name = which
    a = np.eye(3)
    if name == 'tilted':
        a = np.array([[2.0, 0, 0], [-0.5, 1.5, 0], [0.25, 0, 3]])
    return half, nat, a, np.array(SITES[:nat], dtype=float)

def system(ctx, which, tag='C', divide_mass=True, masses=True):
    """Model with symmetric force constants, and these without masses."""
    np = ctx.np
    half, nat, a, r = geometry(ctx, which)
    R, C = herm_data(ctx, tag, half, 3 * nat, real=True)
    M = (np.array(ctx.reals('s', (nat,), 0.5, 3.0)) ** 2 if masses
        else np.array([4.0, 0.25][:nat]))
    D = np.array(C)
    if divide_mass:
        for i in range(nat):
            for j in range(nat):
                D[:, 3 * i:3 * i + 3, 3 * j:3 * j + 3] = (
                    C[:, 3 * i:3 * i + 3, 3 * j:3 * j + 3]
                    / np.sqrt(M[i] * M[j]))
    ph = ph_model(ctx, R, D, a=np.array(a), r=np.array(r), M=np.array(M),
        divide_mass=divide_mass)
    return ph, C, M, a, r

def constants(ctx, ph, M):
    """Force constants C[R, k, x, l, y] without masses."""
    np = ctx.np
    nat = len(M)
    C = np.array(ph.data).reshape((len(ph.R), nat, 3, nat, 3))
    if ph.divide_mass:
        C = C * np.sqrt(M).reshape((1, nat, 1, 1, 1))
        C = C * np.sqrt(M).reshape((1, 1, 1, nat, 1))
    return C

def rotation(ctx, ph, C, a, r, label):
    """Rigid rotations about coordinate axes displace no atom of home cell."""
    for y, z in [(0, 1), (0, 2), (1, 2)]:
        F = 0.0
        for n in range(len(ph.R)):
            for l in range(len(r)):
                p = [sum(int(ph.R[n][i]) * a[i][c] for i in range(3))
                    + r[l][c] for c in range(3)]
                F = F + C[n, :, :, l, y] * p[z] - C[n, :, :, l, z] * p[y]
        ctx.eq(F, 0 * F, label, tol=1e-6)

@harness(bounds='1..2 atoms, 1..5 cells, any symmetric force constants, '
    'any masses, with or without division by masses, both sum rules alone or '
    'together')
def optimal(ctx):
    """Sum rules hold after correction, and symmetry is kept."""
    np = ctx.np
    which = ctx.choice('geometry', GEOMETRY)
    asr, rsr = ctx.choice('rules', [(True, False), (True, True),
        (False, True)])
    div = ctx.choice('divide_mass', [True, False])
    ph, C0, M, a, r = system(ctx, which, divide_mass=div)
    report = ctx.choice('report', [False])
    ctx.e.ph.sum_rule_correction(ph, asr=asr, rsr=rsr, report=report)
    C = constants(ctx, ph, M)
    if asr:
        ctx.eq(C.sum(axis=(0, 3)), np.zeros((len(r), 3, 3)),
            'force upon translation', tol=1e-6)
    if rsr:
        rotation(ctx, ph, C, a, r, 'force upon rotation')
    n3 = 3 * len(r)
    C = C.reshape((len(ph.R), n3, n3))
    for n in range(len(ph.R)):
        m = [i for i in range(len(ph.R))
            if all(ph.R[i] == -ph.R[n])][0]
        ctx.eq(C[n], C[m].T, 'permutation symmetry', tol=1e-6)
    ctx.eq(ph.M, M, 'masses')
    ctx.eq(ph.r, r, 'positions')
    ctx.eq(ph.a, a, 'lattice vectors')

@harness(bounds='1..2 atoms, 1..5 cells, any symmetric force constants, both '
    'sum rules alone or together')
def projection(ctx):
    """Correction is the orthogonal projection onto allowed constants."""
    np = ctx.np
    which = ctx.choice('geometry', GEOMETRY[:1] + GEOMETRY[2:])
    asr, rsr = ctx.choice('rules', [(True, False), (True, True)])
    div = ctx.choice('divide_mass', [True, False])
    ph, C0, M, a, r = system(ctx, which, 'C', div, masses=False)
    fix = lambda: ctx.e.ph.sum_rule_correction(ph, asr=asr, rsr=rsr,
        report=False)
    fix()
    C = constants(ctx, ph, M)
    fix()
    ctx.eq(constants(ctx, ph, M), C, 'valid force constants', tol=1e-6)
    C0 = np.array(C0).reshape(C.shape)
    # direction of change does not overlap with allowed constants
    ph2, D0, M, a, r = system(ctx, which, 'D', div, masses=False)
    ctx.e.ph.sum_rule_correction(ph2, asr=asr, rsr=rsr, report=False)
    D = constants(ctx, ph2, M)
    ctx.eq(((C0 - C) * D).sum(), 0.0, 'smallest change', tol=1e-6)

TRIANGLE = [(0.0, 0.0, 0.0), (1.0, 0.5, 0.0), (-0.25, 1.0, 0.5)]

@harness(bounds='3 atoms at fixed positions, all force constants of '
    'potentials which depend on the three distances only')
def molecule(ctx):
    """Invariant energies satisfy all sum rules and are left unchanged."""
    np = ctx.np
    r = np.array(TRIANGLE)
    b = []
    for i, j in [(0, 1), (0, 2), (1, 2)]:
        v = np.zeros((3, 3))
        v[i] = r[i] - r[j]
        v[j] = r[j] - r[i]
        b.append(v.reshape(9))
    lamda = [ctx.reals('l%d' % i, (3,)) for i in range(3)]
    C = 0.0
    for i in range(3):
        for j in range(3):
            t = b[i].reshape((9, 1)) * b[j].reshape((1, 9))
            C = C + (lamda[i][j] + lamda[j][i]) * t
    asr, rsr = ctx.choice('rules', [(True, False), (True, True),
        (False, True)])
    ph = ph_model(ctx, np.array([(0, 0, 0)]), np.array(C).reshape((1, 9, 9)),
        a=10 * np.eye(3), r=np.array(r), divide_mass=False)
    ctx.e.ph.sum_rule_correction(ph, asr=asr, rsr=rsr, report=False)
    ctx.eq(ph.data[0], C, 'valid force constants', tol=1e-6)

@harness(bounds='1 atom, force constants and masses fixed, sums printed')
def reported(ctx):
    """Report does not change the outcome."""
    np = ctx.np
    ph, C0, M, a, r = system(ctx, GEOMETRY[0], masses=False)
    ph2, C0, M, a, r = system(ctx, GEOMETRY[0], masses=False)
    ctx.e.ph.sum_rule_correction(ph, report=False)
    ctx.e.ph.sum_rule_correction(ph2, report=True)
    ctx.eq(ph.data, ph2.data, 'with report')

def full_data(ctx, nq, nat):
    """Force constants on Born-von-Karman supercell with C(R) = C(-R)^T."""
    np = ctx.np
    n = 3 * nat
    seen = {}
    for R in itertools.product(*map(range, nq)):
        S = tuple(-x % N for x, N in zip(R, nq))
        c = ctx.reals('C' + ''.join(map(str, R)), (n, n))
        if S == R:
            seen[R] = c + c.T
        elif S in seen:
            seen[R] = seen[S].T
        else:
            seen[R] = c
    return seen

@harness(bounds='1..2 atoms, meshes of up to 4 points, any force constants '
    'and masses, cubic and hexagonal lattices, either kind of correction')
def mesh(ctx):
    """Corrections applied when Fourier-transforming dynamical matrices."""
    np = ctx.np
    nat = ctx.choice('atoms', [1, 2])
    nq = ctx.choice('mesh', [(1, 1, 1), (3, 1, 1), (2, 2, 1)])
    kind = ctx.choice('kind', ['simple', 'optimal'])
    name = ctx.choice('lattice', ['cubic', 'hex'])
    a = lattice(ctx, name)
    M = np.array(ctx.reals('s', (nat,), 0.5, 3.0)) ** 2
    div_in = ctx.choice('input', [True, False])
    div = ctx.choice('output', [True, False])
    C = full_data(ctx, nq, nat)
    n = 3 * nat
    w = np.array([M[x // 3] for x in range(n)])
    s = np.sqrt(w)
    D = np.empty(nq + (n, n), dtype=complex)
    for q in itertools.product(*map(range, nq)):
        Dq = 0.0
        for R, c in C.items():
            Dq = Dq + c * np.exp(-2j * np.pi * sum(q[i] * R[i] / nq[i]
                for i in range(3)))
        if div_in:
            Dq = Dq / s.reshape((n, 1)) / s.reshape((1, n))
        D[q] = Dq
    ph = ctx.e.ph.Model(amass=np.array(M), at=np.array(a),
        tau=np.array(SITES[:nat], dtype=float), atom_order=['A', 'B'][:nat],
        divide_mass=div)
    ctx.e.ph.q2r(ph, D_full=D, nq=nq, divide_mass=div_in,
        apply_asr_simple=kind == 'simple')
    if kind != 'simple':
        ctx.e.ph.sum_rule_correction(ph, asr=True, rsr=False, report=False)
    D0 = ph.D(0, 0, 0)
    for y in range(3):
        F = 0.0
        for l in range(nat):
            F = F + D0[:, 3 * l + y] * (s[3 * l] if div else 1)
        ctx.eq(F, 0 * F, 'force upon translation', tol=1e-6)

@harness(bounds='1..2 atoms, file with any force constants on grids of 1..3 '
    'cells', max_paths=4000)
def from_file(ctx):
    """Options of model read from file."""
    np = ctx.np
    nat = ctx.choice('atoms', [1, 2])
    nq = ctx.choice('mesh', [(1, 1, 1), (3, 1, 1)])
    kind = ctx.choice('kind', ['apply_asr_simple', 'apply_asr'])
    ph = ctx.e.ph
    half = [(1, 0, 0)] if nq[0] == 3 else []
    C = full_data(ctx, nq, nat)
    M = np.array([4.0, 2.25][:nat])
    a = np.eye(3) * 4.0
    phid = np.empty((nat, nat) + nq + (3, 3))
    for R, c in C.items():
        for i in range(nat):
            for j in range(nat):
                phid[(i, j) + R] = c[3 * i:3 * i + 3, 3 * j:3 * j + 3]
    ph.write_flfrc(ctx.scratch('ifc'), phid, M, a,
        np.array(SITES[:nat], dtype=float), ['Ta', 'S'][:nat], None, None,
        None)
    model = ph.Model(ctx.scratch('ifc'), **{kind: True})
    D0 = model.D(0, 0, 0)
    for y in range(3):
        F = 0.0
        for l in range(nat):
            F = F + D0[:, 3 * l + y] * np.sqrt(model.M[l])
        ctx.eq(F, 0 * F, 'force upon translation', tol=1e-6)

COUPLING = [([(0, 0, 0)], 1), ([(0, 0, 0), (1, 0, 0)], 1), ([(0, 0, 0)], 2),
    ([(0, 1, 0), (0, 0, 0)], 2)]

def coupling_system(ctx, div, masses, real=False):
    np = ctx.np
    Rg, nat = ctx.choice('cells', COUPLING)
    Rk = [(0, 0, 0), (1, 0, 0)] if len(Rg) * nat == 1 else [(0, 0, 0)]
    nel = 1
    M = (np.array(ctx.reals('s', (nat,), 0.5, 3.0)) ** 2 if masses
        else np.ones(nat))
    shape = (len(Rg), 3 * nat, len(Rk), nel, nel)
    g = ctx.reals('g', shape) + 0j if real else ctx.cplxs('g', shape)
    elph, g = elph_model(ctx, Rg, Rk, nat, nel, data=np.array(g), M=M,
        divide_mass=div)
    return elph, g, M, nat

@harness(bounds='1..2 atoms, 1..2 cells each, any complex coupling, couplings '
    'not divided by masses')
def coupling(ctx):
    """Rigid translations do not couple, zeros remain zero."""
    np = ctx.np
    elph, g, M, nat = coupling_system(ctx, False, False)
    elph.g(0.1, 0.2, 0.3)
    elph.asr(report=False)
    check_coupling(ctx, elph, nat, None)

def check_coupling(ctx, elph, nat, M):
    k = [ctx.angle('k%d' % i) for i in range(3)]
    g0 = elph.g(0, 0, 0, *k)
    for y in range(3):
        V = 0.0
        for l in range(nat):
            V = V + g0[3 * l + y] * (1.0 if M is None else ctx.np.sqrt(M[l]))
        ctx.eq(V, 0 * V, 'coupling to translation')

@harness(bounds='1..2 atoms, 1..2 cells each, any real coupling, any masses, '
    'couplings divided by their square root')
def coupling_mass(ctx):
    np = ctx.np
    elph, g, M, nat = coupling_system(ctx, True, True, real=True)
    elph.asr(report=False)
    check_coupling(ctx, elph, nat, M)

@harness(bounds='1..2 atoms, 1..2 cells each, any real coupling, with and '
    'without division by masses')
def coupling_unchanged(ctx):
    """Couplings which obey the rule are left as they are."""
    np = ctx.np
    Rg, nat = ctx.choice('cells', COUPLING[1:])
    nel = 1
    div = ctx.choice('divide_mass', [True, False])
    s = ctx.reals('s', (nat,), 0.5, 3.0)
    g = np.array(ctx.reals('g', (len(Rg), 3 * nat, 1, nel, nel))) + 0j
    for x in range(3):
        rest = 0.0
        for n in range(len(Rg)):
            for l in range(nat):
                if n or l:
                    rest = rest + g[n, 3 * l + x]
        g[0, x] = -rest
    data = np.array(g)
    if div:
        for x in range(3 * nat):
            data[:, x] = g[:, x] / s[x // 3]
    elph, data = elph_model(ctx, Rg, [(0, 0, 0)], nat, nel,
        data=np.array(data), M=np.array(s) ** 2, divide_mass=div)
    elph.asr(report=False)
    ctx.eq(elph.data, data, 'valid coupling')
