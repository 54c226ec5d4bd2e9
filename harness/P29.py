"""Output of electronic-structure programs is read faithfully."""

from symx.harness import harness
from symx.common import Text

def put(ctx, text, name='in'):
    path = ctx.scratch(name)
    with open(path, 'w') as f:
        f.write(text)
    return path

LABELS = [['s'], 'pz px py'.split(), 'dz2 dxz dyz dx2-y2 dxy'.split(),
    'fz3 fxz2 fyz2 fz(x2-y2) fxyz fx(x2-3y2) fy(3x2-y2)'.split()]

STATES = [
    [(1, 'Ta', 3, 0, 1)] + [(1, 'Ta', 4, 2, m) for m in range(1, 6)]
        + [(2, 'S', 2, 1, m) for m in (1, 2, 3)]
        + [(3, 'S', 2, 1, m) for m in (1, 2, 3)],
    [(10, 'O', 1, 0, 1), (11, 'C', 1, 0, 1)]
        + [(120, 'Ce', 12, 3, m) for m in range(1, 8)],
    [(1, 'Pt', 1, 0, None), (1, 'Pt', 1, 0, None)]
        + [(1, 'Pt', 2, 2, None)] * 4,
    [(1, 'Ta1', 3, 2, 4), (2, 'Ta2', 3, 2, 4), (3, 'Ta1', 3, 2, 4)]
        + [(4, 'Fe', 2, 3, 4)] * 2,
    ]

@harness(bounds='lists of atomic states with 1..4 atoms, s, p, d and f '
    'orbitals, with and without spin-orbit coupling, repeated atoms')
def states(ctx):
    el = ctx.e.el
    states = ctx.choice('states', STATES)
    other = ctx.choice('other', [True, False])
    text = '     Program PROJWFC\n\n'
    text += '     Atomic states used for projection\n'
    text += '     (read from pseudopotential files):\n\n'
    for i, (na, X, n, l, m) in enumerate(states, 1):
        # format 1000 of projwfc.x
        text += '     state #%4d: atom %3d (%-3s), wfc %2d' % (i, na, X, n)
        if m is None:
            text += ' (l=%d j=%.1f m_j=%4.1f)\n' % (l, l + 0.5, -0.5)
        else:
            text += ' (l=%d m=%2d)\n' % (l, m)
    text += '\n k =   0.0 0.0 0.0\n'
    names = el.read_projwfc_out(put(ctx, text), other=other)
    total = {}
    base = []
    for na, X, n, l, m in states:
        label = LABELS[l][m - 1] if m is not None else 'spdf'[l]
        base.append('%s-%d%s' % (X, n, label))
        total[base[-1]] = total.get(base[-1], 0) + 1
    seen = {}
    want = []
    for name in base:
        seen[name] = seen.get(name, 0) + 1
        want.append(name if total[name] == 1
            else name.replace('-', '%d-' % seen[name], 1))
    if other:
        want.append('X-x')
    ctx.true(names == want, 'names of orbitals')

ORBITALS = ['Ta-5s', 'Ta-5dz2', 'Ta-5dxz', 'Ta-5dx2-y2', 'S1-3pz', 'S1-3px',
    'S2-3pz', 'S2-3px', 'X-x']

GROUPS = [
    (['S-p', 'Ta-d{z2, x2-y2}'], [[4, 5, 6, 7], [1, 3]]),
    (['S1', 'S2-pz', 'd'], [[4, 5], [6], [1, 2, 3]]),
    (['Ta-5s, S-px', 'x'], [[0, 5, 7], [8]]),
    (['{S1, S2}-3pz', 'Ta, X', '5'], [[4, 6], [0, 1, 2, 3, 8], [0, 1, 2, 3]]),
    (['Ta-6s', 'S-pz, S1-p, S'], [[], [4, 5, 6, 7]]),
    (['-pz'], [[4, 6]]),
    ]

@harness(bounds='2 k points, 2 bands, 9 orbitals, any weights; groups by atom, '
    'number, shell and symmetry with and without braces')
def groups(ctx):
    np, el = ctx.np, ctx.e.el
    w = ctx.reals('w', (2, 2, 9), 0.0, 1.0)
    groups, members = ctx.choice('groups', GROUPS)
    other = ctx.choice('other', [False, True])
    got = el.proj_sum(w, ORBITALS, *groups, **(dict(other=True) if other
        else {}))
    ctx.true(np.shape(got) == (2, 2, len(groups) + other), 'shape')
    rest = 1.0
    for n, m in enumerate(members):
        want = sum((w[:, :, a] for a in m), np.zeros((2, 2)))
        ctx.eq(got[:, :, n], want, 'weight of group')
        rest = rest - want
    if other:
        ctx.eq(got[:, :, len(groups)], rest, 'remaining weight')

@harness(bounds='2 bands, 2 k points, 2 orbitals, any energies and complex '
    'projections, outdated XML format')
def old_projections(ctx):
    T = lambda s: Text(ctx, s)
    np, el = ctx.np, ctx.e.el
    nk, nb, no = ctx.choice('size', [(2, 2, 3), (1, 3, 1), (3, 1, 2)])
    tag = '%d%d%d' % (nk, nb, no)
    e = ctx.reals('e' + tag, (nk, nb), -9.0, 9.0)
    p = ctx.cplxs('p' + tag, (nk, nb, no), 0.99)
    mu = ctx.real('mu', -1.0, 1.0)
    k0 = ctx.reals('k', (3,), -0.9, 0.9)
    steps = [0.0, 0.5, 0.75]
    k = [k0 + np.array([0.0, 0.6 * s, 0.8 * s]) for s in steps[:nk]]
    text = '<?xml version="1.0"?>\n<Root>\n'
    for key, n in [('BANDS', nb), ('K-POINTS', nk), ('SPIN_COMPONENTS', 1),
            ('ATOMIC_WFC', no)]:
        text += '<NUMBER_OF_%s type="integer" size="1">\n%11d\n' \
            '</NUMBER_OF_%s>\n' % (key, n, key)
    text += '<FERMI_ENERGY type="real" size="1">\n%s\n</FERMI_ENERGY>\n' \
        % ctx.format('%.12E', mu)
    text += '<K-POINTS type="real" size="%d" columns="3">\n' % (3 * nk)
    for i in range(nk):
        text += T('%.9f %.9f %.9f\n') % tuple(k[i])
    text += '</K-POINTS>\n<EIGENVALUES>\n'
    for i in range(nk):
        text += '<K-POINT.%d>\n<EIG type="real" size="%d">\n' % (i + 1, nb)
        for n in range(nb):
            text += T(' %.9f\n') % e[i, n]
        text += '</EIG>\n</K-POINT.%d>\n' % (i + 1)
    text += '</EIGENVALUES>\n<PROJECTIONS>\n'
    for i in range(nk):
        text += '<K-POINT.%d>\n' % (i + 1)
        for a in range(no):
            text += '<ATMWFC.%d type="complex" size="%d">\n' % (a + 1, nb)
            for n in range(nb):
                text += T(' %.9f, %.9f\n') % (p[i, n, a].real, p[i, n, a].imag)
            text += '</ATMWFC.%d>\n' % (a + 1)
        text += '</K-POINT.%d>\n' % (i + 1)
    text += '</PROJECTIONS>\n</Root>\n'
    ff = ctx.choice('from Fermi', [True, False])
    x, k2, e2, w = el.read_atomic_projections_old(put(ctx, text),
        from_fermi=ff)
    ctx.true(np.shape(w) == (nk, nb, no), 'shape')
    for i in range(nk):
        ctx.eq(k2[i], k[i], 'k points', tol=1e-8)
        ctx.eq(x[i], steps[i], 'path', tol=1e-7)
    ctx.eq(e2, e - mu if ff else e, 'energies', tol=1e-8)
    ctx.eq(w, p.real ** 2 + p.imag ** 2, 'squared projections', tol=1e-7)

@harness(bounds='1, 2 or 9 bands, 1..2 k points, any energies, k points, '
    'weights, smearing (Fermi-Dirac) and Fermi level; subsets of bands')
def occupied_bands(ctx):
    T = lambda s: Text(ctx, s)
    np, el, m = ctx.np, ctx.e.el, ctx.e.misc
    nb, nk = ctx.choice('size', [(2, 2), (9, 1), (8, 2), (1, 1)])
    name, fn = ctx.choice('smearing', [
        ('Fermi-Dirac', ctx.e.occupations.fermi_dirac),
        ('Marzari-Vanderbilt', ctx.e.occupations.marzari_vanderbilt),
        ('gaussian', ctx.e.occupations.gauss)])
    few = [0] if nb == 1 else [1, 0] if nb == 2 else [nb - 1]
    subset = ctx.choice('subset', [None, few])
    e = np.array([[0.5 - 0.37 * n + 0.21 * i for n in range(nb)]
        for i in range(nk)])
    e = e + np.zeros((nk, nb))
    e[nk - 1, nb - 1] = ctx.real('e', -0.9, 0.9)
    mu = 0.125
    kT = 0.05
    w = ctx.reals('w%d' % nk, (nk,), 0.01, 0.99)
    k = ctx.reals('k%d' % nk, (nk, 3), -0.9, 0.9)
    text = '     number of electrons       =        17.00\n' \
        '     number of Kohn-Sham states=%13d\n\n' % nb
    text += '     number of k points=%6d  %s smearing, width (Ry)=%8.4f\n' \
        '                       cart. coord. in units 2pi/alat\n' \
        % (nk, name, kT)
    for i in range(nk):
        text += T('        k(%5d) = (%12.7f%12.7f%12.7f), wk =%12.7f\n') % (
            i + 1, k[i, 0], k[i, 1], k[i, 2], w[i])
    text += '\n     Self-consistent Calculation\n\n' \
        '     End of self-consistent calculation\n'
    for i in range(nk):
        text += '\n          k = 0.0000 0.0000 0.0000 (  2000 PWs)   bands ' \
            '(ev):\n\n'
        for n in range(nb):
            text += T('%14.9f') % e[i, n]
            if n % 8 == 7 or n == nb - 1:
                text += '\n'
    text += '\n     the Fermi energy is  %10.4f ev\n' % mu
    path = put(ctx, text)
    e2, k2, f2, name2, mu2, kT2 = el.read_eps_nk_from_qe_pwo(path)
    ctx.true(np.shape(e2) == (nk, nb) and np.shape(k2) == (nk, 4)
        and np.shape(f2) == (nk, nb), 'shape')
    ctx.eq(e2, e, 'energies', tol=1e-8)
    ctx.eq(k2[:, 3], w, 'weights', tol=1e-7)
    e = e2      # rounded
    w = k2[:, 3]
    ctx.eq(k2[:, :3], k, 'k points', tol=1e-7)
    ctx.true(name2 == name, 'type of smearing')
    ctx.eq(mu2, mu, 'Fermi level')
    ctx.eq(kT2, kT * m.Ry, 'smearing', tol=1e-9)
    total = entropy = 0.0
    for i in range(nk):
        for n in range(nb):
            x = (e[i, n] - mu) / (kT * m.Ry)
            f = fn(x)
            ctx.eq(f2[i, n], f, 'occupation')
            if subset is None or n in subset:
                total = total + w[i] * e[i, n] * f
                entropy = entropy - w[i] * kT * fn.entropy(x)
    ctx.eq(el.eband(path, subset), total / m.Ry, 'band energy', tol=1e-6)
    ctx.eq(el.demet_from_qe_pwo(path, subset), entropy, 'entropy term',
        tol=1e-6)

@harness(bounds='all energy contributions listed by PWscf, any values, one or '
    'two ionic steps')
def contributions(ctx):
    T = lambda s: Text(ctx, s)
    el = ctx.e.el
    steps = ctx.choice('steps', [1, 2])
    x = ctx.reals('x%d' % steps, (steps, 7), -99.0, 99.0)
    bands = ctx.choice('bands', [True, False])
    text = ''
    for i in range(steps):
        text += '     iteration #  1     ecut=    50.00 Ry\n' \
            '     total cpu time spent up to now is        3.4 secs\n' \
            '     total energy              =   -111.11 Ry\n'
        text += '\n     the Fermi energy is     1.2345 ev\n\n'
        text += T('!    total energy              =%17.8f Ry\n') % x[i, 6]
        text += '     estimated scf accuracy    <       0.00000001 Ry\n'
        text += T('     smearing contrib. (-TS)   =%17.8f Ry\n') % x[i, 5]
        text += '     internal energy E=F+TS    =     -44.5 Ry\n\n' \
            '     The total energy is F=E-TS. E is the sum of the following ' \
            'terms:\n'
        if bands:
            text += T('     sum bands                 =%17.8f Ry\n') % x[i, 0]
        text += T('     one-electron contribution =%17.8f Ry\n') % x[i, 1]
        text += T('     hartree contribution      =%17.8f Ry\n') % x[i, 2]
        text += T('     xc contribution           =%17.8f Ry\n') % x[i, 3]
        text += T('     ewald contribution        =%17.8f Ry\n') % x[i, 4]
    E = el.read_energy_contributions_scf_out(put(ctx, text))
    names = ['sum bands', 'one-electron', 'hartree', 'xc', 'ewald', 'smearing',
        'total']
    ctx.true(sorted(E) == sorted(names if bands else names[1:]), 'items')
    for j, key in enumerate(names):
        if key in E:
            ctx.eq(ctx.parse(E[key]), x[steps - 1, j], 'energy contribution',
                tol=1e-8)

@harness(bounds='Bravais lattices 1, 2, 4, 6 and 8, any densities on grids of '
    '5, 10, 8 or 12 points, 1..2 atoms')
def real_space_density(ctx):
    T = lambda s: Text(ctx, s)
    np, el = ctx.np, ctx.e.el
    n1, n2, n3, nat = ctx.choice('grid', [(5, 1, 1, 1), (1, 5, 2, 2),
        (2, 2, 2, 1), (3, 2, 2, 2)])
    ibrav, celldm, V = ctx.choice('lattice', [
        (4, [6.25, 0.0, 1.5, 0.0, 0.0, 0.0], 6.25 ** 3 * 1.5 * 0.75 ** 0.5),
        (1, [6.25, 0.0, 0.0, 0.0, 0.0, 0.0], 6.25 ** 3),
        (2, [6.25, 0.0, 0.0, 0.0, 0.0, 0.0], 6.25 ** 3 / 4),
        (6, [6.25, 0.0, 1.5, 0.0, 0.0, 0.0], 6.25 ** 3 * 1.5),
        (8, [6.25, 0.5, 1.5, 0.0, 0.0, 0.0], 6.25 ** 3 * 0.75)])
    N = n1 * n2 * n3
    rho = ctx.reals('rho%d' % N, (N,), 0.0, 9.0)
    text = ' \n' + '%8d' * 8 % (n1, n2, n3, n1, n2, n3, nat, 1) + '\n'
    text += '%6d  ' % ibrav + '%12.8f' * 6 % tuple(celldm) + '\n'
    text += '%20.10f%20.10f%20.10f%6d\n' % (155.6, 4.0, 50.0, 0)
    text += '   1   Ta    5.00\n'
    for na in range(nat):
        text += '%4d   %15.9f%15.9f%15.9f   %2d\n' % (na + 1, 0.0, 0.5 * na,
            0.25, 1)
    for i in range(N):
        text += T('%17.9E') % rho[i]
        if i % 5 == 4 or i == N - 1:
            text += '\n'
    got, charge = el.read_pp_density(put(ctx, text))
    ctx.true(np.shape(got) == (N,), 'shape')
    ctx.eq(got, rho, 'density', tol=1e-8)
    ctx.eq(charge, sum(rho) * (V / N), 'total charge', tol=1e-5)

@harness(bounds='2..3 reciprocal lattice vectors, any complex coefficients, '
    'any lattice constants; 3 Bravais lattices')
def reciprocal_density(ctx):
    np, el = ctx.np, ctx.e.el
    mill = ctx.choice('Miller indices', [[(0, 0, 0), (1, 0, -2)],
        [(0, 0, 0), (0, 1, 0), (-3, 2, 1)]])
    n = len(mill)
    ibrav = ctx.choice('ibrav', [1, 4, 2])
    rho = ctx.cplxs('rho%d' % n, (n,), 9.0)
    a = 2.5
    c = 4.0
    i4 = lambda *x: np.array(x, dtype=np.int32)
    b = np.eye(3)
    path = ctx.scratch('rho.dat')
    with open(path, 'wb') as f:
        i4(16).tofile(f)
        i4(0, n, 1).tofile(f)
        i4(16, 72).tofile(f)
        np.array([float(x) for row in b for x in row]).tofile(f)
        i4(72, 12 * n).tofile(f)
        i4(*[x for m in mill for x in m]).tofile(f)
        i4(12 * n, 16 * n).tofile(f)
        np.array(rho).tofile(f)
        i4(16 * n).tofile(f)
    got, G, ngm, V, m2 = el.read_rhoG_density(path, ibrav, a=a, c=c)
    ctx.eq(got, rho, 'density')
    ctx.true(ngm == n, 'number of lattice vectors')
    ctx.true([tuple(int(x) for x in row) for row in m2] == mill,
        'Miller indices')
    A = {1: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
        4: [[1, 0, 0], [-0.5, 0.75 ** 0.5, 0], [0, 0, c / a]],
        2: [[-0.5, 0, 0.5], [0, 0.5, 0.5], [-0.5, 0.5, 0]]}[ibrav]
    A = np.array(A, dtype=float)
    for i in range(n):
        for x in range(3):
            ctx.eq(sum(G[i, y] * A[x, y] for y in range(3)),
                float(mill[i][x]), 'reciprocal lattice vectors')
    vol = {1: 1.0, 4: 0.75 ** 0.5 * c / a, 2: 0.25}[ibrav]
    ctx.eq(V, vol * (a / ctx.e.misc.a0) ** 3, 'volume', tol=1e-6)

def geometry(ctx, T, nat, ibrav, at, tau, a, nq=None):
    X = ['Ta', 'S', 'Ta']
    names = ['Ta', 'S'][:min(nat, 2)]
    text = '<?xml version="1.0"?>\n<Root>\n  <GEOMETRY_INFO>\n'
    text += '    <NUMBER_OF_TYPES>%d</NUMBER_OF_TYPES>\n' % len(names)
    text += '    <NUMBER_OF_ATOMS>%d</NUMBER_OF_ATOMS>\n' % nat
    text += '    <BRAVAIS_LATTICE_INDEX>%d</BRAVAIS_LATTICE_INDEX>\n' % ibrav
    text += '    <CELL_DIMENSIONS>\n%.9f 0.0 2.5\n0.0 0.0 0.0\n' \
        '    </CELL_DIMENSIONS>\n' % a
    text += '    <AT>\n'
    for i in range(3):
        text += T('%.9f %.9f %.9f\n') % tuple(at[i])
    text += '    </AT>\n'
    for i, name in enumerate(names, 1):
        text += '    <TYPE_NAME.%d>%s</TYPE_NAME.%d>\n' % (i, name, i)
        text += '    <MASS.%d>%.9f</MASS.%d>\n' % (i, 20.0 / i, i)
    for na in range(nat):
        text += T('    <ATOM.%d SPECIES="%s" INDEX="%d" TAU="%.9f %.9f '
            '%.9f"/>\n') % (na + 1, X[na], names.index(X[na]) + 1,
            tau[na, 0], tau[na, 1], tau[na, 2])
    if nq is not None:
        text += '    <NUMBER_OF_Q>%d</NUMBER_OF_Q>\n' % nq
    return text + '  </GEOMETRY_INFO>\n'

def dielectric(ctx, T, nat, eps, Z):
    if eps is None:
        return '  <DIELECTRIC_PROPERTIES epsil="false" zstar="false"/>\n'
    text = '  <DIELECTRIC_PROPERTIES epsil="true" zstar="true">\n<EPSILON>\n'
    for i in range(3):
        text += T('%.9f %.9f %.9f\n') % tuple(eps[:, i])
    text += '</EPSILON>\n<ZSTAR>\n'
    for na in range(nat):
        text += '<Z_AT_.%d>\n' % (na + 1)
        for i in range(3):
            text += T('%.9f %.9f %.9f\n') % tuple(Z[na][i])
        text += '</Z_AT_.%d>\n' % (na + 1)
    return text + '</ZSTAR>\n  </DIELECTRIC_PROPERTIES>\n'

def symmetric(ctx, name, n=3, mag=3.0):
    d = ctx.reals(name, (n * (n + 1) // 2,), -mag, mag)
    a = ctx.np.zeros((n, n))
    m = 0
    for i in range(n):
        for j in range(i, n):
            a[i, j] = a[j, i] = d[m]
            m += 1
    return a

@harness(bounds='1..3 atoms, meshes up to 2x1x3, any force constants, any '
    'dynamical matrices at 1..2 q points, any cell and positions, with and '
    'without (symmetric) dielectric properties; complete and truncated XML')
def force_constants_xml(ctx):
    T = lambda s: Text(ctx, s)
    np, ph, m = ctx.np, ctx.e.ph, ctx.e.misc
    real = ctx.choice('space', [True, False])
    nat = ctx.choice('atoms', [2, 1, 3] if real else [2, 1])
    ibrav = ctx.choice('ibrav', [0, 4, 1])
    polar = ctx.choice('polar', [False, True])
    end = ctx.choice('end', ['</Root>', '</root>', ''])
    a = 5.5
    at = ctx.reals('at', (3, 3), -0.9, 0.9)
    tau = ctx.reals('tau%d' % nat, (nat, 3), -0.9, 0.9)
    eps = symmetric(ctx, 'eps') if polar else None
    Z = [symmetric(ctx, 'Z%d' % na) for na in range(nat)] if polar else None
    text = geometry(ctx, T, nat, ibrav, at, tau, a, None if real else 2)
    text += dielectric(ctx, T, nat, eps, Z)
    if real:
        nr = ctx.choice('mesh', [(2, 1, 3), (1, 2, 1)] if nat == 2
            else [(1, 2, 1)])
        C = ctx.reals('C%d%d' % (nat, nr[2]), (nat, nat, *nr, 3, 3),
            -3.0, 3.0)
        text += '  <INTERATOMIC_FORCE_CONSTANTS>\n'
        alph = ctx.choice('alpha', [None, 1.5])
        if alph is not None:
            text += '<alpha_ewald>%.9f</alpha_ewald>\n' % alph
        text += '<MESH_NQ1_NQ2_NQ3>%d %d %d</MESH_NQ1_NQ2_NQ3>\n' % nr
        for i in range(nat):
            for j in range(nat):
                for n3 in range(nr[2]):
                    for n2 in range(nr[1]):
                        for n1 in range(nr[0]):
                            tag = 's_s1_m1_m2_m3.%d.%d.%d.%d.%d' % (i + 1,
                                j + 1, n1 + 1, n2 + 1, n3 + 1)
                            text += '<%s>\n<IFC>\n' % tag
                            for y in range(3):
                                text += T('%.9f %.9f %.9f\n') % tuple(
                                    C[i, j, n1, n2, n3, :, y])
                            text += '</IFC>\n</%s>\n' % tag
        text += '  </INTERATOMIC_FORCE_CONSTANTS>\n'
    else:
        D = ctx.cplxs('D%d' % nat, (2, 3 * nat, 3 * nat), 3.0)
        q = ctx.reals('q', (2, 3), -0.9, 0.9)
        for iq in range(2):
            text += '  <DYNAMICAL_MAT_.%d>\n<Q_POINT>\n' % (iq + 1)
            text += T('%.9f %.9f %.9f\n') % tuple(q[iq])
            text += '</Q_POINT>\n'
            for i in range(nat):
                for j in range(nat):
                    text += '<PHI.%d.%d>\n' % (i + 1, j + 1)
                    for y in range(3):
                        for x in range(3):
                            z = D[iq, 3 * i + x, 3 * j + y]
                            text += T('%.9f %.9f\n') % (z.real, z.imag)
                    text += '</PHI.%d.%d>\n' % (i + 1, j + 1)
            text += '  </DYNAMICAL_MAT_.%d>\n' % (iq + 1)
    text += end + '\n'
    (data, M, at2, tau2, order, alph2, eps2, Z2) = ph.read_flfrc(
        put(ctx, text, 'f.xml'))
    if real:
        ctx.true(np.shape(data) == np.shape(C), 'shape')
        ctx.eq(data, C, 'force constants', tol=1e-8)
        ctx.true((alph is None) == (alph2 is None), 'Ewald parameter')
        if alph is not None:
            ctx.eq(alph2, alph, 'Ewald parameter')
    else:
        q2, D2 = data
        ctx.eq(np.array(q2), q * (2 * np.pi / a), 'q points', tol=1e-7)
        ctx.eq(np.array(D2), D, 'dynamical matrices', tol=1e-8)
    ctx.true(list(order) == ['Ta', 'S', 'Ta'][:nat], 'atoms')
    for na in range(nat):
        ctx.eq(M[na], [20.0, 10.0, 20.0][na] * m.uRy, 'masses', tol=1e-6)
    cell = {0: at * a, 1: a * np.eye(3), 4: a * np.array([[1.0, 0.0, 0.0],
        [-0.5, 0.75 ** 0.5, 0.0], [0.0, 0.0, 2.5]])}[ibrav]
    ctx.eq(np.array(at2), cell, 'cell', tol=1e-7)
    ctx.eq(np.array(tau2), tau * a, 'positions', tol=1e-7)
    ctx.true((eps2 is None) == (not polar) and (Z2 is None) == (not polar),
        'dielectric properties')
    if polar:
        ctx.eq(eps2, eps, 'dielectric tensor', tol=1e-8)
        ctx.eq(Z2, np.array(Z), 'Born charges', tol=1e-8)

def gkk(ctx, T, qs, ks, w, g, order, last=None):
    """Output of EPW with prtgkk."""

    text = '     EPW\n\n'
    for iq in order:
        text += '     iq = %7d   coord.: %12.7f%12.7f%12.7f\n' % (iq + 1,
            *qs[iq], 0.0)
        for ik in range(len(ks)):
            text += '     ik = %7d   coord.: %12.7f%12.7f%12.7f\n' % (ik + 1,
                *ks[ik], 0.0)
            text += '     ibnd     jbnd     imode   enk[eV]    enk+q[eV]  ' \
                'omega(q)[meV]   |g|[meV]\n' + 78 * '-' + '\n'
            for n in range(g.shape[4]):
                for mm in range(g.shape[3]):
                    for nu in range(g.shape[1]):
                        text += '%9d%9d%9d%12.4f%12.4f' % (n + 1, mm + 1,
                            nu + 1, 0.5, -0.25)
                        text += T('%20.10f%20.10E\n') % (w[iq, nu],
                            g[iq, nu, ik, mm, n])
            text += 78 * '-' + '\n'
    return text

@harness(bounds='1..2 modes, 1..2 bands, 2x2 or 3x3 k points, 1..3 of 1..4 q '
    'points in any of two orders, points off the mesh; any frequencies and '
    'coupling; all three kinds of coupling')
def epw_output(ctx):
    T = lambda s: Text(ctx, s)
    np, elph = ctx.np, ctx.e.elph
    nb, modes, nk = ctx.choice('size', [(2, 1, 2), (1, 2, 3)])
    nq = 4
    points = [(0, 0), (1, 3), (2, 1), (0, 3)]
    qs = [(0.0, 0.0), (0.25, -0.25), (0.125, 0.125), (1.5, 0.25), (0.0, 0.75)]
    where = {(0, 0): 0, (1, 3): 1, (2, 1): 3, (0, 3): 4}
    wish = ctx.choice('q', [[(0, 0), (2, 1)], [(0, 3), (1, 3), (0, 0)],
        [(2, 1)]])
    order = ctx.choice('order', [[0, 1, 2, 3, 4], [4, 2, 3, 0, 1]])
    kind = ctx.choice('kind', ['abs', 'epf', 'defpot'])
    squeeze = ctx.choice('squeeze', [False, True])
    ks = [(i / nk - (i == nk - 1), j / nk) for i in range(nk)
        for j in range(nk)]
    ks.insert(1, (0.123, 0.5))
    shape = len(qs), modes, len(ks), nb, nb
    g = ctx.reals('g%d' % nb, shape, 0.01, 99.0)
    w = np.array([[1.0 + iq + 8 * nu for nu in range(modes)]
        for iq in range(len(qs))])
    w[0, 0] = 4.5
    if kind == 'epf':
        w = ctx.reals('w%d' % nb, shape[:2], -9.0, 9.0)
    text = gkk(ctx, T, qs, ks, w, g, order)
    path = put(ctx, text)
    got = elph.read_EPW_output(path, wish, nq, modes, nk, nb, squeeze=squeeze,
        epf=kind == 'epf', defpot=kind == 'defpot')
    full = (len(wish), modes, nk, nk, nb, nb)
    ctx.true(np.shape(got) == (full[:4] if nb == 1 and squeeze else full),
        'shape')
    got = np.reshape(got, full)
    for iq, q in enumerate(wish):
        jq = where[q]
        for nu in range(modes):
            for i in range(nk):
                for j in range(nk):
                    ik = i * nk + j
                    ik += ik > 0
                    for a in range(nb):
                        for b in range(nb):
                            x = g[jq, nu, ik, a, b]
                            if kind == 'abs':
                                want = x * 1e-3
                            elif kind == 'epf':
                                want = (w[jq, nu] + 1j * x) * 1e-3 ** 1.5
                            else:
                                want = x * (2 * w[jq, nu] * 1e-3) ** 0.5 * 1e-3
                            ctx.eq(got[iq, nu, i, j, a, b], want, 'coupling',
                                tol=1e-6)
    if kind != 'epf':
        w2, g2 = elph.read_prtgkk(path, len(qs), modes, len(ks), nb)
        for i, iq in enumerate(order):
            ctx.eq(w2[i], w[iq], 'frequencies', tol=1e-8)
            ctx.eq(g2[i], g[iq], 'coupling in order of file', tol=1e-6)

@harness(bounds='any range-separation parameter, present or not; 1..3 '
    'displacement patterns of any values')
def small_files(ctx):
    T = lambda s: Text(ctx, s)
    np, elph = ctx.np, ctx.e.elph
    L = ctx.real('L', 0.1, 9.0)
    there = ctx.choice('there', [True, False])
    text = '     EPW\n\n     Length scale\n'
    if there:
        text += T('     L   %12.6f\n') % L
    text += '\n     End\n'
    got = elph.read_L(put(ctx, text))
    if there:
        ctx.eq(got, L, 'range-separation parameter', tol=1e-6)
    else:
        ctx.true(got is None, 'no range-separation parameter')
    q = ctx.choice('q', [2, [1], [1, 0]])
    n = ctx.choice('representations', [3, 1])
    u = ctx.reals('u%d' % n, (2, n, n), -1.0, 1.0)
    for iq in range(2):
        text = '<?xml version="1.0"?>\n<Root>\n<IRREPS_INFO>\n' \
            '<NUMBER_IRR_REP type="integer" size="1">\n%d\n' \
            '</NUMBER_IRR_REP>\n' % n
        for i in range(n):
            text += '<REPRESENTION.%d>\n<PERTURBATION.1>\n' \
                '<DISPLACEMENT_PATTERN type="complex" size="%d">\n' % (i + 1, n)
            for j in range(n):
                text += T(' %.9f, 0.000000000\n') % u[iq, i, j]
            text += '</DISPLACEMENT_PATTERN>\n</PERTURBATION.1>\n' \
                '</REPRESENTION.%d>\n' % (i + 1)
        put(ctx, text, 'patterns.%d.xml' % (iq + 1))
    U = elph.read_patterns(ctx.scratch('patterns.%d.xml'), q, n, status=False)
    qs = [0, 1] if q == 2 else q
    ctx.true(np.shape(U) == (len(qs), n, n), 'shape')
    for i, iq in enumerate(qs):
        ctx.eq(U[i], u[iq], 'displacement patterns', tol=1e-8)

@harness(bounds='1..2 q points, 1..2 modes, 2x2 k points, 1..2 of 3 bands '
    'with offset 0 or 1, any coupling and order of bands; modulus or complex')
def coupling_files(ctx):
    T = lambda s: Text(ctx, s)
    np, elph = ctx.np, ctx.e.elph
    bands, offset = ctx.choice('bands', [(2, 0), (2, 1), (1, 1), (1, 2)])
    phase = ctx.choice('phase', [False, True])
    Q = ctx.choice('Q', [None, [2, 1], [2]])
    up = ctx.choice('order', [True, False])
    squeeze = ctx.choice('squeeze', [False, True])
    g = ctx.cplxs('g', (2, 2, 2, 2, 3, 3), 3.0)
    label = range(3) if up else range(2, -1, -1)
    for iq in range(2):
        text = '# k1 k2 k3 energies jbnd ibnd nu\n'
        for k1 in range(2):
            for k2 in range(2):
                for j in label:
                    for i in label:
                        for nu in range(2):
                            z = g[iq, nu, k1, k2, i, j]
                            text += '%4d%4d' % (k1 + 1, k2 + 1)
                            text += '%4d%4d%4d' % (j + 1, i + 1, nu + 1)
                            if phase:
                                text += T(' %.9f %.9f\n') % (z.real, z.imag)
                            else:
                                text += T(' %.9f\n') % z.real
        put(ctx, text, 'elph.%d' % (iq + 1))
    got = elph.coupling(ctx.scratch('elph.%d'), 2, 2, 2, bands,
        Q=None if Q is None else np.array(Q), offset=offset, squeeze=squeeze,
        phase=phase, completion=False)
    qs = [1, 2] if Q is None else Q
    part = g[:, :, :, :, offset:offset + bands, offset:offset + bands]
    want = np.array([(part if phase else part.real)[iq - 1] for iq in qs])
    if bands == 1 and squeeze:
        want = want[..., 0, 0]
    ctx.eq(got, want, 'coupling', tol=1e-8)

@harness(bounds='3x3 k points of which 1 per orbit is given, 1 q point, 1 mode, '
    'any coupling')
def coupling_completion(ctx):
    T = lambda s: Text(ctx, s)
    np, elph = ctx.np, ctx.e.elph
    n = 3
    # orbits of sixfold rotation on the basis of reciprocal lattice vectors:
    rotate = lambda k: (-k[1] % n, (k[0] + k[1]) % n)
    mirror = lambda k: (k[1], k[0])
    orbits = []
    for k in [(i, j) for i in range(n) for j in range(n)]:
        if not any(k in orbit for orbit in orbits):
            orbit = {k}
            while True:
                more = orbit | {f(x) for f in (rotate, mirror) for x in orbit}
                if more == orbit:
                    break
                orbit = more
            orbits.append(sorted(orbit))
    g = ctx.reals('g', (2, len(orbits)), 0.1, 9.0)
    pick = ctx.choice('pick', [0, -1])
    for iq in range(2):
        text = ''
        for n_orbit, orbit in enumerate(orbits):
            k = orbit[pick]
            text += T('%d %d 1 1 1 %.9f\n') % (k[0] + 1, k[1] + 1,
                g[iq, n_orbit])
        put(ctx, text, 'elph.%d' % (iq + 1))
    got = elph.coupling(ctx.scratch('elph.%d'), 2, 1, n, 1, squeeze=True)
    ctx.true(np.shape(got) == (2, 1, n, n), 'shape')
    for iq in range(2):
        for n_orbit, orbit in enumerate(orbits):
            for k in orbit:
                ctx.eq(got[iq, 0, k[0], k[1]], g[iq, n_orbit],
                    'completed coupling', tol=1e-8)

@harness(bounds='1..2 atoms, any diagonal dynamical matrices at 1..2 q points, '
    'any q points')
def frequency_file(ctx):
    T = lambda s: Text(ctx, s)
    np, ph, m = ctx.np, ctx.e.ph, ctx.e.misc
    nat = ctx.choice('atoms', [1, 2])
    nq = ctx.choice('q points', [1, 2])
    n = 3 * nat
    q = ctx.reals('q%d' % nq, (nq, 3), -0.9, 0.9)
    w = ctx.reals('D%d%d' % (nq, n), (nq, n), 0.1, 0.9)
    for iq in range(nq):
        for i in range(1, n):
            ctx.assume(w[iq, i] > w[iq, i - 1] + 0.01)
    sign = ctx.choice('sign', [1.0, -1.0])
    w[0, 0] = w[0, 0] * sign
    M = [2e4, 3e4]
    text = '   %d %d   1\n   %d\n' % (nq, 1, nq)
    for iq in range(nq):
        text += T('%19.15f%19.15f%19.15f\n') % tuple(q[iq])
    prefix = ctx.scratch('dyn')
    put(ctx, text, 'dyn0')
    for iq in range(nq):
        text = 'Dynamical matrix file\n\n'
        text += '  %d    %d   1  5.5 0.0 0.0 0.0 0.0 0.0\n' % (nat, nat)
        for i in range(nat):
            text += "   %d  '%s '    %.9f\n" % (i + 1, 'XY'[i], M[i])
        for i in range(nat):
            text += '%5d%5d 0.0 0.0 %.9f\n' % (i + 1, i + 1, 0.1 * i)
        text += '\n     Dynamical  Matrix in cartesian axes\n\n'
        text += T('     q = ( %.9f %.9f %.9f )\n\n') % tuple(q[iq])
        for i in range(nat):
            for j in range(nat):
                text += '%5d%5d\n' % (i + 1, j + 1)
                for x in range(3):
                    for y in range(3):
                        if i == j and x == y:
                            # square of frequency in sorted order
                            v = w[iq, 3 * i + x]
                            text += T('%.12f 0.0 ') % (v * abs(v) * M[i])
                        else:
                            text += '0.0 0.0 '
                    text += '\n'
        put(ctx, text + '\n', 'dyn%d' % (iq + 1))
    ph.fildyn_freq(prefix)
    with open(ctx.scratch('dyn.freq')) as f:
        lines = f.read().split('\n')
    words = lines[0].replace('=', ' ').replace(',', ' ').split()
    ctx.true(words == ['&plot', 'nbnd', '%d' % n, 'nks', '%d' % nq, '/'],
        'header')
    words = ' '.join(lines[1:]).split()
    ctx.true(len(words) == nq * (3 + n), 'number of entries')
    for iq in range(nq):
        part = [ctx.parse(x) for x in words[iq * (3 + n):(iq + 1) * (3 + n)]]
        for i in range(3):
            ctx.eq(part[i], q[iq, i], 'q point', tol=6e-7)
        for i in range(n):
            ctx.eq(part[3 + i] * (m.cmm1 / m.Ry), w[iq, i],
                'frequency', tol=1e-7)
