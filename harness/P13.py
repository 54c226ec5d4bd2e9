"""Files written and read again."""

import os

from symx.harness import harness
from symx.common import (fourier, double_fourier, el_model, ph_model,
    elph_model, lattice, phase)

RY = 13.605693009
SCALES = [1e-3, 1.0, 900.0]
RSETS = [
    [(0, 0, 0)],
    [(0, 0, 0), (1, 0, 0), (-1, 0, 0)],
    [(10, -2, 0), (-10, 2, 0), (0, 0, 0), (0, 0, -123)],    # not sorted
]

def find(R, want):
    out = [i for i in range(len(R))
        if tuple(int(x) for x in R[i]) == tuple(want)]
    return out

@harness(bounds='1..3 orbitals, 3 lists of lattice vectors, any complex '
    'hopping up to 999 eV, eV and Ry, 3 magnitudes')
def hrdat(ctx):
    np = ctx.np
    el = ctx.e.el
    R = ctx.choice('list', RSETS)
    n = ctx.choice('orbitals', [2, 1, 3] if R is RSETS[1] else [2])
    s = ctx.choice('scale', SCALES)
    ryd = ctx.choice('rydberg', [False, True])
    data = ctx.cplxs('t%g' % s, (len(R), n, n), s)
    if ryd:
        data = data / ctx.e.misc.Ry
    model = el_model(ctx, np.array(R), np.array(data), rydberg=ryd)
    path = ctx.scratch('wannier')
    model.to_hrdat(path)
    back = el.Model(ctx.choice('name', [path, path + '_hr.dat']), rydberg=ryd)
    ctx.true(back.size == n and len(back.R) == len(R), 'dimensions')
    unit = RY if ryd else 1.0
    for i, r in enumerate(R):
        j = find(back.R, r)
        ctx.true(len(j) == 1, 'lattice vectors')
        ctx.eq(back.data[j[0]] * unit, data[i] * unit, 'Hamiltonian',
            tol=1.01e-6)
    ctx.eq(model.data, data, 'model not modified')

@harness(bounds='2 orbitals, lattice vectors with 1, 2 or 3 components, any '
    'data, degeneracies divided or not')
def hrdat_low(ctx):
    np = ctx.np
    el = ctx.e.el
    d = ctx.choice('components', [1, 2, 3])
    R = np.array([(0, 0, 0), (2, 1, -1), (-2, -1, 1), (1, 0, 0)])[:, :d]
    nd = ctx.choice('degeneracies', [None, [1, 2, 2, 3]])
    data = ctx.cplxs('t', (4, 2, 2), 90.0)
    divide = ctx.choice('divide', [False, True])
    el.write_hrdat(ctx.scratch('low'), R, np.array(data),
        **({} if nd is None else dict(ndegen=nd)))
    R2, H = el.read_hrdat(ctx.scratch('low'), divide_ndegen=divide)
    for i in range(4):
        j = find(R2, tuple(int(x) for x in R[i]) + (0,) * (3 - d))
        ctx.true(len(j) == 1, 'lattice vectors')
        f = nd[i] if divide and nd is not None else 1
        ctx.eq(H[j[0]] * f, data[i], 'Hamiltonian', tol=1.7e-6)

@harness(bounds='more than 15 lattice vectors, 1 orbital, any data')
def hrdat_many(ctx):
    np = ctx.np
    el = ctx.e.el
    n = ctx.choice('vectors', [14, 15, 16, 30, 31])
    R = np.array([((7 * i) % 11 - 5, i % 3, -(i % 2)) for i in range(n)])
    data = ctx.cplxs('t', (n, 1, 1), 90.0)
    nd = [1 + i % 4 for i in range(n)]
    el.write_hrdat(ctx.scratch('many'), R, np.array(data), ndegen=nd)
    R2, H = el.read_hrdat(ctx.scratch('many'))
    for i in range(n):
        j = find(R2, R[i])
        ctx.true(len(j) == 1, 'lattice vectors')
        ctx.eq(H[j[0]] * nd[i], data[i], 'Hamiltonian', tol=3e-6)

@harness(bounds='2 orbitals, 3 lattice vectors with degeneracies, any data')
def tb_dat(ctx):
    """Format of Wannier90: hopping after each lattice vector."""
    np = ctx.np
    R = [(0, 0, 0), (1, -1, 0), (-1, 1, 0)]
    nd = [1, 2, 4]
    data = ctx.cplxs('t', (3, 2, 2), 20.0)
    lines = [' written on  1Jan2020 at 00:00:00', '1.0 0.0 0.0',
        '0.0 1.0 0.0', '0.0 0.0 9.0', '2', '3', '1 2 4']
    for i in range(3):
        lines.append('')
        lines.append('%5d%5d%5d' % R[i])
        for b in range(2):
            for a in range(2):
                lines.append('%5d%5d   %s %s' % (a + 1, b + 1,
                    ctx.format('%.10f', np.real(data[i, a, b])),
                    ctx.format('%.10f', np.imag(data[i, a, b]))))
    for b in range(2):
        lines.append('')
        lines.append(' 0 0 0')
    with open(ctx.scratch('tb_tb.dat'), 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines) + '\n')
    model = ctx.e.el.Model(ctx.scratch('tb'))
    for i, r in enumerate(R):
        j = find(model.R, r)
        ctx.true(len(j) == 1, 'lattice vectors')
        ctx.eq(model.data[j[0]] * nd[i], data[i], 'Hamiltonian')

@harness(bounds='2 orbitals, 2 lattice vectors, supercell vectors given, any '
    'data, any k')
def wsvec(ctx):
    """Hopping equally distributed over equivalent bonds."""
    np = ctx.np
    R = [(0, 0, 0), (1, 0, 0)]
    data = ctx.cplxs('t', (2, 2, 2), 20.0)
    k = [ctx.angle('k%d' % i) for i in range(3)]
    T = {(0, 0, 0): [(0, 0, 0)], (1, 0, 0): [(0, 0, 0)]}
    with open(ctx.scratch('ws_wsvec.dat'), 'w') as f:
        f.write('## written for test\n')
        for i, r in enumerate(R):
            for b in range(2):
                for a in range(2):
                    t = shifts(i, a, b)
                    f.write('%5d%5d%5d%5d%5d\n' % (*r, a + 1, b + 1))
                    f.write('%5d\n' % len(t))
                    for x in t:
                        f.write('%5d%5d%5d\n' % x)
    ctx.e.el.write_hrdat(ctx.scratch('ws'), np.array(R), np.array(data))
    H = ctx.e.el.Model(ctx.scratch('ws')).H(*k)
    for a in range(2):
        for b in range(2):
            ref = 0.0
            for i, r in enumerate(R):
                t = shifts(i, a, b)
                for x in t:
                    ref = ref + data[i, a, b] / len(t) * phase(ctx,
                        tuple(p + q for p, q in zip(r, x)), k)
            ctx.eq(H[a, b], ref, 'Hamiltonian', tol=1e-5)

def shifts(i, a, b):
    if i == 1 and a != b:
        return [(0, 0, 0), (-2, 0, 0)]
    if i == 0 and a > b:
        return [(0, 0, 0), (0, 3, 0), (0, 3, -1)]
    if i == 1 and a == b == 1:
        return [(-2, 0, 0)]
    return [(0, 0, 0)]

@harness(bounds='1..3 orbitals, 3 lists of lattice vectors, any complex data, '
    '3 magnitudes')
def wmat(ctx):
    np = ctx.np
    R = ctx.choice('list', RSETS)
    n = ctx.choice('orbitals', [2, 1, 3] if R is RSETS[1] else [2])
    s = ctx.choice('scale', SCALES)
    data = ctx.cplxs('w%g' % s, (len(R), n, n), s)
    elel = ctx.e.elel.Model()
    elel.R = np.array(R)
    elel.data = np.array(data)
    elel.size = n
    elel.to_Wmat(ctx.scratch('dat.Wmat'))
    back = ctx.e.elel.Model(Wmat=ctx.scratch('dat.Wmat'))
    ctx.true(back.size == n and len(back.R) == len(R), 'dimensions')
    ctx.true(bool(np.all(back.R == np.array(R))), 'lattice vectors')
    ctx.eq(back.data, data, 'interaction', tol=1e-9)

@harness(bounds='meshes 2x2x1, 3x2x1, nq scalar, 1..2 orbitals at 2 '
    'positions, any data')
def wmat_mesh(ctx):
    """Model on Wigner-Seitz cell from file is the same on the mesh."""
    np = ctx.np
    nq = ctx.choice('nq', [(2, 2), (3, 2, 1), 3])
    n = ctx.choice('orbitals', [1, 2])
    full = (nq, nq, 1) if nq == 3 else (tuple(nq) + (1,))[:3]
    R = [(i, j - full[1] * (j > full[1] // 2), 0) for i in range(full[0])
        for j in range(full[1])]
    data = ctx.cplxs('w', (len(R), n, n), 5.0)
    elel = ctx.e.elel.Model()
    elel.R = np.array(R)
    elel.data = np.array(data)
    elel.size = n
    elel.to_Wmat(ctx.scratch('dat.Wmat'))
    a = lattice(ctx, 'hex')
    r = np.array([[0.0, 0, 0], [0.1, 0.5, 0.2]])[:n]
    back = ctx.e.elel.Model(Wmat=ctx.scratch('dat.Wmat'), nq=nq, a=a, r=r)
    for i in range(full[0]):
        for j in range(full[1]):
            q = [2 * np.pi * i / full[0], 2 * np.pi * j / full[1], 0.0]
            ctx.eq(back.W(*q), fourier(ctx, R, data, q), 'interaction',
                tol=1e-8)

@harness(bounds='1..2 orbitals, file of electronic Hamiltonian in the same '
    'format, any data')
def hmat(ctx):
    np = ctx.np
    n = ctx.choice('orbitals', [1, 2])
    N = (2, 2, 1)
    R = [(i, j, 0) for i in range(2) for j in range(2)]
    data = ctx.cplxs('h', (len(R), n, n), 5.0)
    elel = ctx.e.elel.Model()
    elel.R = np.array(R)
    elel.data = np.array(data)
    elel.size = n
    elel.to_Wmat(ctx.scratch('dat.h_mat_r'))
    el = ctx.e.el.Model(ctx.scratch('dat.h_mat_r'), N=N,
        a=lattice(ctx, 'hex'), r=np.array([[0.0, 0, 0], [0.3, 0.2, 0]])[:n])
    for i in range(2):
        for j in range(2):
            k = [np.pi * i, np.pi * j, 0.0]
            ctx.eq(el.H(*k), fourier(ctx, R, data, k), 'Hamiltonian',
                tol=1e-8)

@harness(bounds='any data, text and binary')
def band_coulomb(ctx):
    np = ctx.np
    binary = ctx.choice('binary', [False, True])
    U = ctx.cplxs('U', (2, 2, 2, 2, 2), 99.0)
    name = ctx.scratch('U')
    ctx.e.elel.write_band_Coulomb_interaction(name, np.array(U),
        binary=binary)
    back = ctx.e.elel.read_band_Coulomb_interaction(name, 2, 2,
        binary=binary)
    ctx.eq(back, U, 'interaction', tol=1e-8)
    back = ctx.e.elel.read_band_Coulomb_interaction(name, 2, 2,
        binary=binary, share=True)
    ctx.eq(back, U, 'interaction in shared memory', tol=1e-8)

@harness(bounds='2 orbitals, mesh 2x1x1, any data')
def orbital_coulomb(ctx):
    """Files of VASP: columns q, i, j, k, l, Re, Im."""
    np = ctx.np
    dd = ctx.choice('dd', [True, False])
    U = ctx.cplxs('U', (2, 2, 2, 2, 2), 50.0)
    with open(ctx.scratch('UIJKL'), 'w', encoding='utf-8') as f:
        f.write('# comment\n\n')
        for q in range(2):
            for i in range(16):
                a, b, c, d = i // 8, i // 4 % 2, i // 2 % 2, i % 2
                z = U[q, a, b, c, d]
                f.write('%9.5f 0.0 0.0 %d %d %d %d %s %s\n' % (q / 2, a + 1,
                    b + 1, c + 1, d + 1, ctx.format('%.10f', np.real(z)),
                    ctx.format('%.10f', np.imag(z))))
    out = ctx.e.elel.read_orbital_Coulomb_interaction(ctx.scratch('UIJKL'),
        (2, 1, 1), 2, dd=dd)
    for q in range(2):
        for i in range(16):
            a, b, c, d = i // 8, i // 4 % 2, i // 2 % 2, i % 2
            if dd:
                if a == b and c == d:
                    ctx.eq(out[q, 0, 0, a, c], U[q, a, b, c, d], 'density')
            else:
                ctx.eq(out[q, 0, 0, b, a, d, c], U[q, a, b, c, d],
                    'interaction')

@harness(bounds='2 orbitals, any data')
def local_coulomb(ctx):
    np = ctx.np
    dd = ctx.choice('dd', [True, False])
    U = ctx.cplxs('U', (2, 2, 2, 2), 50.0)
    with open(ctx.scratch('local'), 'w', encoding='utf-8') as f:
        f.write('# comment\n')
        for i in range(16):
            a, b, c, d = i // 8, i // 4 % 2, i // 2 % 2, i % 2
            z = U[a, b, c, d]
            f.write('%d %d %d %d %s %s\n' % (a + 1, b + 1, c + 1, d + 1,
                ctx.format('%.10f', np.real(z)), ctx.format('%.10f', np.imag(z))))
    out = ctx.e.elel.read_local_Coulomb_tensor(ctx.scratch('local'), 2, dd=dd)
    for a in range(2):
        for b in range(2):
            if dd:
                ctx.eq(out[a, b], U[a, a, b, b], 'density')
            else:
                ctx.eq(out[a, b], U[a, b], 'interaction')

# force constants

NAMES = [['Ta', 'S', 'S'], ['C', 'C', 'C'], ['S1a', 'S1b', 'H']]

def structure(ctx, nat, kind=None, names=None):
    """Cell, positions and masses with exactly printable values."""
    np = ctx.np
    if kind is None:
        kind = ctx.choice('cell', ['hex', 'tric', 'fcc'])
    a = lattice(ctx, kind) * {'hex': 6.0, 'tric': 5.0, 'fcc': 10.0}[kind]
    r = ctx.reals('r', (nat, 3), -20.0, 20.0)
    names = (ctx.choice('names', NAMES) if names is None
        else NAMES[names])[:nat]
    M = ctx.reals('M', (nat,), 900.0, 200000.0)
    for i in range(nat):
        for j in range(i):
            if names[i] == names[j]:
                M[i] = M[j]
    return a, r, M, names

def same_structure(ctx, at, tau, amass, atom_order, a, r, M, names):
    ctx.true([str(x) for x in atom_order] == list(names), 'species')
    ctx.eq(amass, M, 'masses', tol=1e-9)
    ctx.eq(at, a, 'lattice vectors', tol=1e-6)
    ctx.eq(tau, r, 'positions', tol=2e-6)

def polar_data(ctx, nat):
    Z = ctx.reals('Z', (nat, 3, 3), -9.0, 9.0)
    eps = ctx.reals('eps', (3, 3), -40.0, 40.0)
    return Z, eps

@harness(bounds='7 combinations of 1..3 atoms, 3 cells, 3 sets of labels (up to '
    '3 characters, repeated), meshes up to 3x2x2, any force constants (3 magnitudes), '
    'masses, positions, charges, dielectric tensor, Ewald parameter')
def flfrc_low(ctx):
    np = ctx.np
    ph = ctx.e.ph
    nat, nr, s, cell, names, polar = ctx.choice('case', [
        (2, (1, 2, 1), 1.0, 'hex', 0, 0),
        (2, (2, 1, 2), 1e4, 'tric', 1, 2),
        (1, (3, 2, 2), 1e-7, 'fcc', 0, 1),
        (3, (2, 1, 1), 1.0, 'tric', 2, 2),
        (3, (1, 1, 1), 1.0, 'fcc', 0, 1),
        (2, (1, 1, 1), 1e-7, 'hex', 2, 1),
        (1, (1, 2, 3), 1e4, 'tric', 1, 0),
        ])
    a, r, M, names = structure(ctx, nat, cell, names)
    C = ctx.reals('C%g' % s, (nat, nat) + nr + (3, 3), -s, s)
    kw = {}
    if polar:
        Z, eps = polar_data(ctx, nat)
        kw = dict(epsil=np.array(eps), zeu=np.array(Z))
        if polar == 2:
            kw['alph'] = ctx.real('alpha', 0.1, 9.0)
    ph.write_flfrc(ctx.scratch('ifc'), np.array(C), np.array(M), np.array(a),
        np.array(r), list(names), **kw)
    phid, amass, at, tau, order, alph, epsil, zeu = ph.read_flfrc(
        ctx.scratch('ifc'))
    same_structure(ctx, at, tau, amass, order, a, r, M, names)
    ctx.eq(phid, C, 'force constants', tol=1e-11 * s)
    if polar:
        ctx.eq(epsil, eps, 'dielectric tensor', tol=1e-11)
        ctx.eq(zeu, Z, 'Born charges', tol=1e-6)
        if polar == 2:
            ctx.eq(alph, kw['alph'], 'Ewald parameter', tol=1e-5)
        else:
            ctx.true(alph is None, 'no Ewald parameter')
    else:
        ctx.true(epsil is None and zeu is None and alph is None, 'not polar')

@harness(bounds='2 atoms, meshes up to 3x2x2, any force constants, with and '
    'without charges')
def flfrc_format(ctx):
    """Layout of file as written by q2r.x."""
    np = ctx.np
    nr = ctx.choice('mesh', [(1, 2, 1), (3, 2, 2)])
    polar = ctx.choice('polar', [False, True])
    a, r, M, names = structure(ctx, 2, 'hex', 0)
    C = ctx.reals('C', (2, 2) + nr + (3, 3), -1.0, 1.0)
    kw = {}
    if polar:
        Z, eps = polar_data(ctx, 2)
        kw = dict(epsil=np.array(eps), zeu=np.array(Z))
    ctx.e.ph.write_flfrc(ctx.scratch('ifc'), np.array(C), np.array(M),
        np.array(a), np.array(r), list(names), **kw)
    with open(ctx.scratch('ifc'), encoding='utf-8') as f:
        lines = [line.split() for line in f]
    head = lines.pop(0)
    ctx.true(head[1:3] == ['2', '0'], 'atoms and lattice index')
    alat = ctx.parse(head[3])
    ctx.true(all(float(x) == 0 for x in head[4:]) and len(head) == 9,
        'unused lattice parameters')
    for x in range(3):
        row = lines.pop(0)
        ctx.eq(np.array([ctx.parse(y) * alat for y in row]), a[x],
            'lattice vectors', tol=1e-6)
    kinds = []
    for n in range(int(head[0])):
        row = ' '.join(lines.pop(0)).replace("'", ' ').split()
        ctx.true(int(row[0]) == n + 1, 'index of species')
        kinds.append((row[1], ctx.parse(row[2])))
    for n in range(2):
        row = lines.pop(0)
        ctx.true(int(row[0]) == n + 1, 'index of atom')
        X, m = kinds[int(row[1]) - 1]
        ctx.true(X == names[n], 'species')
        ctx.eq(m, M[n], 'mass', tol=1e-9)
        ctx.eq(np.array([ctx.parse(y) * alat for y in row[2:]]), r[n],
            'position', tol=2e-6)
    ctx.true(lines.pop(0) == (['T'] if polar else ['F']), 'flag')
    if polar:
        for x in range(3):
            ctx.eq(np.array([ctx.parse(y) for y in lines.pop(0)]), eps[x],
                'dielectric tensor', tol=1e-11)
        for n in range(2):
            ctx.true(lines.pop(0) == ['%d' % (n + 1)], 'atom of charge')
            for x in range(3):
                ctx.eq(np.array([ctx.parse(y) for y in lines.pop(0)]),
                    Z[n, x], 'Born charges', tol=1e-6)
    ctx.true(lines.pop(0) == ['%d' % n for n in nr], 'mesh')
    seen = set()
    while lines:
        block = tuple(int(x) - 1 for x in lines.pop(0))
        ctx.true(len(block) == 4 and block not in seen, 'block')
        seen.add(block)
        x, y, i, j = block
        for k in range(nr[2]):
            for l in range(nr[1]):
                for m in range(nr[0]):
                    row = lines.pop(0)
                    ctx.true(row[:3] == ['%d' % (n + 1) for n in (m, l, k)],
                        'cell')
                    ctx.eq(ctx.parse(row[3]), C[i, j, m, l, k, x, y],
                        'force constant', tol=1e-10)
    ctx.true(len(seen) == 36, 'all blocks')

@harness(bounds='2 atoms of the same species with different masses')
def isotopes(ctx):
    np = ctx.np
    ph = ctx.e.ph
    C = ctx.reals('C', (2, 2, 1, 1, 1, 3, 3))
    r = ctx.reals('r', (2, 3), -20.0, 20.0)
    M = [1000.0, 2000.0]
    a = 5 * np.eye(3)
    dyn = ctx.choice('dyn', [False, True])
    D = ctx.cplxs('D', (1, 6, 6), 0.9)
    ph.write_flfrc(ctx.scratch('iso'), (np.zeros((1, 3)), np.array(D)) if dyn
        else np.array(C), np.array(M), a, np.array(r), ['H', 'H'])
    back = ph.read_flfrc(ctx.scratch('iso'))
    same_structure(ctx, back[2], back[3], back[1], back[4], a, r, M,
        ['H', 'H'])

@harness(bounds='1..2 atoms, 3 cells, 1..2 wave vectors, any dynamical '
    'matrices below 9.9, masses, positions, charges, dielectric tensor')
def dyn_low(ctx):
    np = ctx.np
    ph = ctx.e.ph
    nat = ctx.choice('atoms', [2, 1])
    a, r, M, names = structure(ctx, nat)
    nq = ctx.choice('points', [1, 2])
    q = ctx.reals('q', (nq, 3), -5.0, 5.0)
    D = ctx.cplxs('D', (nq, 3 * nat, 3 * nat), 9.9)
    kw = {}
    polar = ctx.choice('polar', [False, True])
    if polar:
        Z, eps = polar_data(ctx, nat)
        kw = dict(epsil=np.array(eps), zeu=np.array(Z))
    ph.write_flfrc(ctx.scratch('dyn'), (np.array(q), np.array(D)),
        np.array(M), np.array(a), np.array(r), list(names), **kw)
    (q2, D2), amass, at, tau, order, alph, epsil, zeu = ph.read_flfrc(
        ctx.scratch('dyn'))
    same_structure(ctx, at, tau, amass, order, a, r, M, names)
    ctx.eq(q2, q, 'wave vectors', tol=1e-6)
    ctx.eq(D2, D, 'dynamical matrices', tol=1e-7)
    if polar:
        ctx.eq(epsil, eps, 'dielectric tensor', tol=1e-11)
        ctx.eq(zeu, Z, 'Born charges', tol=1e-6)
    else:
        ctx.true(epsil is None and zeu is None, 'not polar')

@harness(bounds='1..2 atoms, meshes 2x1x1, 2x2x1, 1x1x3, any data on the '
    'mesh, any masses')
def flfrc_model(ctx):
    np = ctx.np
    nat = ctx.choice('atoms', [1, 2])
    nq = ctx.choice('mesh', [(2, 1, 1), (2, 2, 1), (1, 1, 3)]
        if nat == 1 else [(2, 1, 1)])
    div = ctx.choice('divide_mass', [True, False])
    R = [(i, -j, k) for i in range(nq[0]) for j in range(nq[1])
        for k in range(nq[2])]
    R.append((3, 4, -5))
    data = ctx.reals('D', (len(R), 3 * nat, 3 * nat))
    a = 6 * lattice(ctx, 'hex')
    r = np.array([[0.0, 0, 0], [1.5, 2.5, 0.25]])[:nat]
    M = ctx.reals('M', (nat,), 0.5, 9.0)
    ph = ph_model(ctx, np.array(R), np.array(data), a=a, r=r, M=np.array(M),
        names=['Ta', 'S'][:nat], divide_mass=div)
    ph.alpha = None
    given = ctx.choice('nq', ['argument', 'attribute'])
    if given == 'argument':
        ph.to_flfrc(ctx.scratch('ifc'), *nq)
    else:
        ph.nq = nq
        ph.to_flfrc(ctx.scratch('ifc'))
    back = ctx.e.ph.Model(ctx.scratch('ifc'), divide_mass=div)
    ctx.true(tuple(int(x) for x in back.nq) == nq, 'mesh')
    ctx.true(back.nat == nat and back.size == 3 * nat, 'sizes')
    ctx.eq(back.M, M, 'masses', tol=1e-9)
    for i in np.ndindex(*nq):
        q = [2 * np.pi * i[j] / nq[j] for j in range(3)]
        ctx.eq(back.D(*q), fourier(ctx, R, data, q), 'dynamical matrix',
            tol=1e-8)
    ctx.eq(ph.data, data, 'model not modified')

@harness(bounds='2 atoms with any Born charges, 2x1x1, 2 wave vectors')
def flfrc_model_polar(ctx):
    np = ctx.np
    Z = ctx.reals('Z', (2, 3, 3))
    R = [(0, 0, 0), (1, 0, 0)]
    data = ctx.reals('D', (2, 6, 6))
    r = np.array([[0.0, 0, 0], [1.75, 1.0, 0.5]])
    ph = ph_model(ctx, np.array(R), np.array(data), a=4.0 * np.eye(3), r=r,
        M=np.array([1.5, 2.5]), names=['A', 'B'], zeu=np.array(Z),
        epsil=np.diag([2.0, 2.5, 3.0]), alph=0.03, lr2d=False)
    ph.to_flfrc(ctx.scratch('ifc'), 2, 1, 1)
    back = ctx.e.ph.Model(ctx.scratch('ifc'), lr2d=False)
    ctx.true(back.lr and not back.lr2d, 'flags')
    ctx.eq(back.alpha, 0.03, 'Ewald parameter')
    ctx.eq(back.Z, Z, 'Born charges', tol=1e-6)
    for q in [(0.0, 0.0, 0.0), (np.pi, 0.0, 0.0)]:
        ctx.eq(back.D(*q), ph.D(*q), 'dynamical matrix', tol=1e-5)

@harness(bounds='1 atom, mesh 2x2x1 in 1..3 stars, any Hermitian data')
def dyn_model(ctx):
    """Dynamical matrices at stars of q points as written by ph.x."""
    np = ctx.np
    ph = ctx.e.ph
    nq = (2, 2, 1)
    a = 6 * lattice(ctx, 'hex')
    b = np.array(ctx.e.bravais.reciprocals(*a))
    M = ctx.real('M', 0.5, 9.0)
    div = ctx.choice('divide_mass', [True, False])
    stars = ctx.choice('stars', [
        [[(0, 0)], [(1, 0), (0, 1), (1, 1)]],
        [[(0, 0)], [(1, 1), (0, -1)], [(-1, 0)]],
        ])
    D = {}
    ph.write_q(ctx.scratch('dyn0'), [(0.0, 0.0)] * len(stars), 2)
    for n, star in enumerate(stars):
        q = []
        for i, j in star:
            q.append(2 * np.pi * (i * b[0] + j * b[1]) / 2)
            D[i % 2, j % 2] = ctx.reals('D%d%d' % (i % 2, j % 2), (3, 3))
        ph.write_flfrc(ctx.scratch('dyn%d' % (n + 1)), (np.array(q),
            np.array([D[i % 2, j % 2] + 0j for i, j in star])),
            [M], a, np.zeros((1, 3)), ['X'])
    back = ph.Model(ctx.scratch('dyn'), divide_mass=div)
    ctx.true(tuple(int(x) for x in back.nq) == nq, 'mesh')
    for i in range(2):
        for j in range(2):
            ctx.eq(back.D(np.pi * i, np.pi * j), D[i, j] / M if div
                else D[i, j], 'dynamical matrix', tol=1e-6)

@harness(bounds='1..2 atoms, any symmetric quadrupole tensors')
def quadrupoles(ctx):
    np = ctx.np
    nat = ctx.choice('atoms', [1, 2, 11])
    Q = ctx.reals('Q', (nat, 3, 3, 3), -9.0, 9.0)
    if ctx.choice('large', [False, True]):
        Q[0, 0, 0, 0] = ctx.real('large', -99.0, 9999.0)
        Q[0, 1, 2, 1] = Q[0, 1, 1, 2] = ctx.real('large2', -99.0, 99.0)
    for n in range(nat):
        for i in range(3):
            for x in range(3):
                for y in range(x):
                    Q[n, i, x, y] = Q[n, i, y, x]
    ctx.e.ph.write_quadrupole_fmt(ctx.scratch('Q'), np.array(Q))
    ctx.eq(ctx.e.ph.read_quadrupole_fmt(ctx.scratch('Q')), Q, 'quadrupoles',
        tol=1e-9)

@harness(bounds='any wave vectors')
def list_q(ctx):
    n = ctx.choice('points', [1, 3])
    nq = ctx.choice('nq', [1, 12])
    q = ctx.reals('q', (n, 2), -9.0, 9.0)
    ctx.e.ph.write_q(ctx.scratch('dyn0'), q, nq)
    N, back = ctx.e.ph.read_q(ctx.scratch('dyn0'))
    ctx.true(tuple(N) == (nq, nq, 1) and len(back) == n, 'dimensions')
    for i in range(n):
        ctx.true(len(back[i]) == 3, 'components')
        for x in range(2):
            ctx.eq(back[i][x], q[i, x], 'wave vector', tol=1e-12)
        ctx.eq(back[i][2], 0.0, 'third component')

# electron-phonon coupling

DEG = [
    (None, None),
    ('k', 'g'),
]

def degeneracies(np, Rk, Rg, nel, nat):
    """Different for all pairs, zero where bond is not allowed."""
    dk = np.array([[[(3 * i + 5 * j + 2 * n) % 4 for n in range(len(Rk))]
        for j in range(nel)] for i in range(nel)])
    dg = np.array([[[[(i + 2 * x + 3 * n) % 4 for n in range(len(Rg))]
        for x in range(nat)] for i in range(nel)]])
    return dk, dg

@harness(bounds='1..2 orbitals, 1..2 atoms, lists of up to 3 lattice vectors, '
    'any coupling and masses, degeneracies divided or not')
def epmatwp(ctx):
    np = ctx.np
    e = ctx.e
    nel, nat = ctx.choice('size', [(1, 1), (2, 1), (1, 2), (2, 2)])
    Rg, Rk = ctx.choice('lists', [
        ([(0, 0, 0)], [(0, 0, 0), (1, -1, 0), (-1, 1, 0)]),
        ([(0, 0, 2), (0, 0, 0), (-10, 0, 0)], [(0, 0, 0), (12, 3, -4)]),
        ])
    M = ctx.reals('M', (nat,), 0.5, 9.0)
    div = ctx.choice('divide_mass', [True, False])
    ndegen = ctx.choice('divide_ndegen', [True, False])
    if ndegen:
        dk = dg = None
    else:
        dk, dg = degeneracies(np, Rk, Rg, nel, nat)
    elph, data = elph_model(ctx, Rg, Rk, nat, nel, M=np.array(M), dk=dk,
        dg=dg, divide_mass=div)
    elph.divide_ndegen = ndegen
    elph.to_epmatwp(ctx.scratch('x'))
    back = e.elph.Model(ctx.scratch('x.epmatwp'), ctx.scratch('x.wigner'),
        elph.el, elph.ph, divide_mass=div, divide_ndegen=ndegen,
        **(dict(shared_memory=True) if nel == 2 else {}))
    ctx.true(bool(np.all(back.Rg == np.array(Rg))) and back.Rg.shape
        == (len(Rg), 3), 'lattice vectors R')
    ctx.true(bool(np.all(back.Rk == np.array(Rk))) and back.Rk.shape
        == (len(Rk), 3), "lattice vectors R'")
    ctx.eq(back.data, data, 'coupling')
    ctx.eq(elph.data, data, 'model not modified')
    if not ndegen:
        ctx.true(back.dk.shape == dk.shape and bool(np.all(back.dk == dk)),
            'degeneracies of hopping')
        ctx.true(back.dg.shape == dg.shape and bool(np.all(back.dg == dg)),
            'degeneracies of displacement')
        # division on reading
        back = e.elph.Model(ctx.scratch('x.epmatwp'), ctx.scratch('x.wigner'),
            elph.el, elph.ph, divide_mass=div, divide_ndegen=True)
        for g in range(len(Rg)):
            for x in range(3 * nat):
                for k in range(len(Rk)):
                    for m in range(nel):
                        for n in range(nel):
                            f = int(dk[n, m, k]) * int(dg[0, m, x // 3, g])
                            ctx.eq(back.data[g, x, k, m, n], data[g, x, k, m,
                                n] / f if f else 0.0, 'divided coupling')

@harness(bounds='Wigner-Seitz data written by EPW in three binary layouts '
    'and as text')
def wigner_file(ctx):
    import numpy
    np = ctx.np
    nk = ctx.choice('layout', ['6.8', 'before', 'old', 'text'])
    nel, nat = ctx.choice('size', [(1, 1), (1, 2), (2, 3)])
    Rk = [(0, 0, 0), (1, -1, 0), (-1, 1, 0)]
    Rg = [(0, 0, 2), (0, 0, 0), (-10, 0, 0), (1, 1, 1)]
    if nk == 'old':
        nel = 1
    dk, dg = degeneracies(numpy, Rk, Rg, nel, nat)
    i32 = numpy.int32
    name = ctx.scratch('wigner')
    if nk == 'text':
        with open(name, 'w') as f:
            f.write('%d %d %d %d %d\n' % (3, 2, 4, nel, nat))
            for i in range(3):
                f.write('%d %d %d\n' % Rk[i])
                for m in range(nel):
                    f.write(' '.join(str(dk[n, m, i]) for n in range(nel))
                        + '\n')
            for i in range(2):
                f.write('0 0 %d\n' % i)
                for x in range(nat):
                    f.write(' 1' * nat + '\n')
            for i in range(4):
                f.write('%d %d %d\n' % Rg[i])
                for m in range(nel):
                    f.write(' '.join(str(dg[0, m, x, i]) for x in range(nat))
                        + '\n')
    else:
        full = numpy.array([[dg[0, m] for m in range(nel)]
            for n in range(nel)])      # n, m, x, R
        with open(name, 'wb') as f:
            def w(x, t=i32):
                f.write(numpy.asarray(x, dtype=t).tobytes())
            if nk != 'old':
                w([nel, nat])
            w([3])
            w(Rk)
            w(dk)
            if nk == 'old':
                w([0.0, 1.0, 2.0], float)
                w([1])
                w([(0, 0, 0)])
                w(numpy.ones((nat, nat, 1)))
                w([0.0], float)
            w([4])
            w(Rg)
            if nk == '6.8':
                w(dg[0].transpose((1, 2, 0)))
            else:
                w(full)
            if nk == 'old':
                w([0.0, 1.0, 2.0, 3.0], float)
    irk, ndk, irg, ndg = ctx.e.bravais.read_wigner_file(name,
        old_ws=nk == 'old', nat=nat)
    ctx.eq(irk, numpy.array(Rk), "lattice vectors R'")
    ctx.eq(irg, numpy.array(Rg), 'lattice vectors R')
    for i in range(3):
        for n in range(nel):
            for m in range(nel):
                ctx.eq(ndk[n, m, i], dk[n, m, i], 'degeneracies of hopping')
    ctx.true(ndg.shape[1:] == (nel, nat, 4), 'shape')
    for i in range(4):
        for x in range(nat):
            for m in range(nel):
                ctx.eq(ndg[0, m, x, i], dg[0, m, x, i],
                    'degeneracies of displacement')

@harness(bounds='arrays of 1 to 3 dimensions, any real or complex data')
def array_file(ctx):
    np = ctx.np
    shape = ctx.choice('shape', [(3,), (2, 12), (2, 1, 3)])
    s = ctx.choice('scale', [1e-8, 1.0, 1e8])
    if ctx.choice('complex', [False, True]):
        data = ctx.cplxs('c%g' % s, shape, s)
    else:
        data = ctx.reals('r%g' % s, shape, -s, s)
    ctx.e.elph.write_data(ctx.scratch('data'), np.array(data))
    ctx.eq(ctx.e.elph.read_data(ctx.scratch('data')), data, 'data',
        tol=1e-9 * s)

@harness(bounds='1..2 modes, 1..3 bands, 1..2 q points, meshes up to 3x3, any '
    'coupling, both lattices')
def xml(ctx):
    np = ctx.np
    nQ, nph, nk, nb = ctx.choice('size', [(1, 1, 1, 1), (2, 1, 2, 1),
        (1, 2, 2, 2), (1, 1, 1, 3), (1, 1, 3, 1)])
    angle = ctx.choice('angle', [(120, 0), (60, 30), (90, 0), (60, -15)])
    g = ctx.cplxs('g', (nQ, nph, nk, nk, nb, nb), 3.0)
    ctx.e.elph.write_xml_files(ctx.scratch('%d.%d.xml'), np.array(g), *angle)
    kw = dict(squeeze=False) if nb == 1 else {}
    back = ctx.e.elph.read_xml_files(ctx.scratch('%d.%d.xml'), nQ, nph,
        range(nb), nb, nk, squeeze=False, status=False, angle=angle[0],
        angle0=angle[1], old=True)
    ctx.eq(back, g, 'coupling', tol=1e-13)

@harness(bounds='3 bands, subset of q points, modes and bands, any coupling')
def xml_subset(ctx):
    np = ctx.np
    g = ctx.cplxs('g', (2, 2, 1, 1, 3, 3), 3.0)
    ctx.e.elph.write_xml_files(ctx.scratch('%d.%d.xml'), np.array(g))
    q = ctx.choice('q', [[0], [1], [1, 0]])
    rep = ctx.choice('rep', [[0, 1], [1]])
    bands = ctx.choice('bands', [[0], [2], [0, 2], [1, 2]])
    back = ctx.e.elph.read_xml_files(ctx.scratch('%d.%d.xml'), q, rep,
        bands, 3, 1, squeeze=False, status=False, old=True)
    for i, a in enumerate(q):
        for j, b in enumerate(rep):
            for m in range(len(bands)):
                for n in range(len(bands)):
                    ctx.eq(back[i, j, 0, 0, m, n], g[a, b, 0, 0, bands[m],
                        bands[n]], 'coupling', tol=1e-13)
