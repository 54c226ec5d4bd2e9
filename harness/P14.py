"""Structure, input and output files written and read."""

import os

from symx.harness import harness
from symx.common import lattice, ph_model, Text

SPECIES = [
    [('Ta', 180.9, 'Ta.upf'), ('S', 32.06, 'S_pbe.UPF')],
    [('Fe1', 55.845, 'a/b.upf'), ('O', 15.9994, 'O.upf'),
        ('Fe2', 55.845, 'c.upf')],
    [('C', 12.011, 'C.upf')],
]

def put(ctx, text, name='in'):
    path = ctx.scratch(name)
    with open(path, 'w') as f:
        f.write(text)
    return path

def same(ctx, got, want, keys, what):
    for key in keys:
        ctx.true(key in got, '%s: %s kept' % (what, key))
        a, b = got[key], want[key]
        if isinstance(b, (list, tuple)):
            ctx.true(isinstance(a, list) and len(a) == len(b),
                '%s: length of %s' % (what, key))
            for x, y in zip(a, b):
                item(ctx, x, y, '%s: %s' % (what, key))
        else:
            item(ctx, a, b, '%s: %s' % (what, key))

def item(ctx, a, b, label):
    if b is None or isinstance(b, (str, bool)):
        ctx.true(type(a) is type(b) and a == b, label)
    elif isinstance(b, int):
        ctx.true(not isinstance(a, bool) and a == b, label)
    else:
        ctx.true(a is not None and not isinstance(a, (str, bool, list)), label)
        ctx.eq(a, b, label, tol=1e-9)

@harness(bounds='1..3 species, 1..4 atoms with any coordinates within 900, '
    'any masses, any units, any cell, any k points and weights')
def pwi_structure(ctx):
    np, b = ctx.np, ctx.e.bravais
    spec = ctx.choice('species', SPECIES)
    nat = ctx.choice('atoms', [3, 1, 4] if spec is SPECIES[1] else [2])
    s = dict(ntyp=len(spec), nat=nat, ibrav=0)
    s['at_species'] = [x[0] for x in spec]
    s['pp'] = [x[2] for x in spec]
    m = ctx.reals('m', (len(spec),), 1.0, 300.0)
    s['mass'] = [m[i] for i in range(len(spec))]
    s['at'] = [spec[(2 * i) % len(spec)][0] for i in range(nat)]
    s['coords'], units, kt, option = ctx.choice('variant', [
        ('alat', 'angstrom', 'automatic', 0), ('bohr', 'alat', 'crystal', 0),
        ('crystal', 'bohr', 'tpiba', 1), ('angstrom', 'alat', 'gamma', 0),
        ('crystal', 'angstrom', None, 0), ('alat', 'bohr', 'automatic', 1)])
    s['r'] = ctx.reals('r', (nat, 3), -9.9, 9.9)
    s['r'][nat - 1, 1] = ctx.real('far', 100.0, 900.0)
    s['cell_units'] = units
    s['r_cell'] = ctx.reals('cell', (3, 3), -0.99, 0.99)
    s['r_cell'][2, 2] = ctx.real('c', 10.0, 900.0)
    s['r_cell'][1, 0] = ctx.real('d', -90.0, -10.1)
    if kt is not None:
        s['ktyp'] = kt
    if kt == 'automatic':
        s['k_points'] = [(12, 1, 3, 0, 0, 0),
            (2, 4, 120, 1, 0, 1)][option]
    elif kt in {'crystal', 'tpiba'}:
        s['nks'] = 3
        s['k_points'] = np.zeros((3, 4))
        k = ctx.reals('k', (3, 3), -9.0, 9.0)
        w = bool(option)
        for i in range(3):
            s['k_points'][i, :3] = k[i]
            s['k_points'][i, 3] = 1.0 + 3 * i if w \
                else ctx.real('w%d' % i, 0.1 + i, 0.9 + i)
    path = ctx.scratch('scf.in')
    b.write_pwi(path, s)
    g = b.read_pwi(path)
    same(ctx, g, s, ['ntyp', 'nat', 'ibrav', 'at_species', 'pp', 'at',
        'coords', 'cell_units'], 'pwi')
    ctx.true(len(g['mass']) == len(spec), 'masses')
    for i in range(len(spec)):
        ctx.eq(g['mass'][i], m[i], 'masses', tol=1e-9)
    ctx.true(np.shape(g['r']) == (nat, 3), 'positions')
    ctx.eq(g['r'], s['r'], 'positions', tol=1e-9)
    ctx.eq(g['r_cell'], s['r_cell'], 'cell', tol=1e-9)
    if kt is None:
        ctx.true('k_points' not in g, 'no k points')
    else:
        ctx.true(g['ktyp'] == kt, 'type of k points')
    if kt == 'automatic':
        ctx.true(list(g['k_points']) == list(s['k_points']), 'k mesh')
    elif kt in {'crystal', 'tpiba'}:
        ctx.true(g['nks'] == 3 and np.shape(g['k_points']) == (3, 4), 'k list')
        ctx.eq(g['k_points'], s['k_points'], 'k points', tol=1e-9)

@harness(bounds='all namelist items PWscf input can carry, numbers with any '
    'value of magnitude 1e-9 .. 900, strings with spaces, slashes, equals '
    'and exclamation marks, both flags, lists with gaps; files read in any '
    'order')
def pwi_namelists(ctx):
    b = ctx.e.bravais
    calc, flag, n, sign, swap = ctx.choice('variant', [
        ('scf', True, 0, 1, True), ('vc-relax', False, 120, -1, False),
        ('md', False, 7, 1, True), ('relax', True, 1, -1, False)])
    title, values = ctx.choice('title and list', [('plain', 0),
        ('with space', 1), ('a!b', 2), ('x = 1, y', 3), ('true', 0), ('', 1),
        ('12', 2), ('&system /', 3)])
    big = ctx.real('big', 1.0, 900.0) * sign
    tiny = ctx.real('tiny', 1e-9, 1e-3) * sign
    s = dict(calculation=calc,
        title=title,
        prefix='TaS2', outdir='work/dir', pseudo_dir='../pp',
        tprnfor=flag, tstress=not flag, nstep=n, forc_conv_thr=tiny,
        ibrav=4, ntyp=1, nat=1, a=big, b=2 * big, c=3.5, cosbc=0.1,
        cosac=0.0, cosab=tiny,
        ecutwfc=big, ecutrho=400, nbnd=n, occupations='smearing',
        smearing='f-d', degauss=tiny, nosym=flag, noinv=flag, tot_charge=-tiny,
        assume_isolated='2D', nspin=2, noncolin=not flag, lspinorb=flag,
        tot_magnetization=-1, starting_magnetization=[
            [0.5, big], [None, tiny, -0.25], [True, False], [3, -n, 2]][values],
       
        space_group=n, uniqueb=flag, origin_choice=1, rhombohedral=flag,
        electron_maxstep=n, conv_thr=tiny, diagonalization='david',
        diago_full_acc=flag, mixing_beta=0.7, startingpot='file',
        startingwfc='atomic+random', scf_must_converge=flag,
        celldm=[big, None, 2.0])
    more = []
    if calc != 'scf':
        s.update(ion_dynamics='bfgs', upscale=big)
        more += ['ion_dynamics', 'upscale']
    if calc == 'vc-relax':
        s.update(cell_dynamics='damp-w', cell_dofree='2Dxy', press=tiny,
            press_conv_thr=0.5)
        more += ['cell_dynamics', 'cell_dofree', 'press', 'press_conv_thr']
    keys = [k for k in s]
    t = dict(s)
    t.update(at_species=['H'], mass=[1.0], pp=['H.upf'], coords='alat',
        at=['H'], r=[[0.0, 0.0, 0.0]])
    path = ctx.scratch('scf.in')
    b.write_pwi(path, t)
    other = put(ctx, "&control\n title = 'no', nstep = 5\n prefix='z' /\n"
        "&system celldm(3)=2, starting_magnetization=7 ntyp=0 nat=0 /\n",
        'other')
    if swap:
        b.read_pwi(other)
    g = b.read_pwi(path)
    same(ctx, g, s, keys, 'namelist')
    b.read_pwi(other)
    g2 = b.read_pwi(path)
    same(ctx, g2, s, keys, 'namelist again')
    for key in t:
        ctx.true(key in s or key in g, 'namelist: nothing lost')

@harness(bounds='hand-written PWscf input: upper and lower case, comments, '
    'units in braces or missing, any numbers')
def pwi_handwritten(ctx):
    np = ctx.np
    x = ctx.real('x', -900.0, 900.0)
    y = ctx.real('y', 0.5, 90.0)
    number = ctx.format('%.9f', x)
    cell = ctx.format('%.9f', y)
    style = ctx.choice('style', [0, 1, 2])
    unit = ['', '{alat}', 'Angstrom'][style]
    coords = ['', '{Crystal}', 'bohr'][style]
    kind = ['{automatic}', 'gamma', 'crystal'][style]
    mesh = ['4 3 2 0 1 0\n', '', '2\n 0 0 0 1 ! Gamma\n'
        ' %s 0.5 0 2.5 0 7\n' % cell][style]
    species = 'ATOMIC_SPECIES\n  Ta 180.9 Ta.upf\n S %s S.upf\n' % cell
    parts = [
        species.lower() if style == 1 else species,
        'ATOMIC_POSITIONS %s\n Ta %s 0 0.25\n S 0.5 -0.5 %s 0 0 1\n'
            % (coords, number, cell),
        'K_POINTS %s\n%s' % (kind, mesh),
        'Cell_Parameters %s\n %s 0 0\n 0 %s 0.5\n\n'.replace('\n\n', '\n')
            % (unit, number, cell) + ' 0 0 1\n',
    ]
    if style:
        parts = parts[::-1]
    text = ('&control\n  prefix = \'run\' ! comment\n/\n&SYSTEM\n ibrav=0, '
        'NAT = 2, ntyp=2\n celldm(1) = %s\n ecutwfc=40.0 /\n\n' % cell
        + '\n'.join(parts))
    g = ctx.e.bravais.read_pwi(put(ctx, text))
    ctx.true(g['prefix'] == 'run' and g['nat'] == 2 and g['ibrav'] == 0,
        'namelists')
    ctx.true(len(g['celldm']) == 1, 'lattice constant')
    ctx.eq(g['celldm'][0], y, 'lattice constant', tol=1e-8)
    name = (lambda x: x.lower()) if style == 1 else str
    ctx.true(g['at_species'] == [name('Ta'), name('S')], 'species')
    ctx.true(g['pp'] == [name('Ta.upf'), name('S.upf')], 'pseudopotentials')
    ctx.eq(g['mass'][0], 180.9, 'mass')
    ctx.eq(g['mass'][1], y, 'mass', tol=1e-8)
    ctx.true(g['at'] == ['Ta', 'S'], 'atoms')
    ctx.true(g['coords'] == ['alat', 'crystal', 'bohr'][style], 'coordinates')
    ctx.eq(g['r'], np.array([[x, 0.0, 0.25], [0.5, -0.5, y]]), 'positions',
        tol=1e-8)
    a = np.array([[x, 0.0, 0.0], [0.0, y, 0.5], [0.0, 0.0, 1.0]])
    ctx.eq(g['r_cell'], a, 'cell', tol=1e-8)
    ctx.true(g['cell_units'].lower().strip('{}')
        == ['bohr', 'alat', 'angstrom'][style], 'units of cell')
    a0 = 0.529177210903
    for bohr in False, True:
        got = ctx.e.bravais.primitives(bohr=bohr, **g)
        if style == 0:
            scale = 1.0 if bohr else a0
        elif style == 1:
            scale = y if bohr else y * a0
        else:
            scale = 1 / a0 if bohr else 1.0
        ctx.eq(got, a * scale, 'lattice vectors', tol=1e-5)
    if style == 0:
        ctx.true(g['ktyp'].strip('{}') == 'automatic'
            and g['k_points'] == [4, 3, 2, 0, 1, 0], 'k mesh')
    elif style == 1:
        ctx.true(g['ktyp'] == 'gamma' and 'k_points' not in g, 'Gamma')
    else:
        ctx.true(g['nks'] == 2, 'number of k points')
        ctx.eq(g['k_points'], np.array([[0.0, 0.0, 0.0, 1.0],
            [y, 0.5, 0.0, 2.5]]), 'k points', tol=1e-8)

@harness(bounds='Wyckoff letters, one cell parameter of any value')
def pwi_wyckoff(ctx):
    b = ctx.e.bravais
    a = ctx.real('a', 0.5, 90.0)
    s = dict(ntyp=1, nat=2, ibrav=0, space_group=191, celldm=[a],
        at_species=['Mg'], mass=[24.0], pp=['Mg.upf'], coords='crystal_sg',
        at=['Mg', 'B'], r=['1a', '2d'])
    path = ctx.scratch('sg.in')
    b.write_pwi(path, s)
    g = b.read_pwi(path)
    same(ctx, g, s, ['coords', 'at', 'r', 'space_group'], 'Wyckoff')
    ctx.true(len(g['celldm']) == 1, 'celldm')
    ctx.eq(g['celldm'][0], a, 'celldm', tol=1e-9)

@harness(bounds='hand-written namelists: any number in Fortran notations, '
    'comments, several items per line, upper case, indices')
def namelists(ctx):
    m = ctx.e.misc
    x = ctx.real('x', 0.001, 900.0) * ctx.choice('sign', [1, -1])
    style = ctx.choice('style', [
        "&a\n  u = %(e)s\n v=%(f)s\n s='q'\n l = .true.\n n=3\n/\n"
            "&B w(2) = %(f)s /\n",
        "junk\n &A U=%(d)s,V = %(f)s; S = \"q\" ! u = 5, 's'\n L=T N = 3 /\n"
            "&b\n! w(2) = 1\nW (2) = %(f)s\n/ trailing\n",
        "&a\tu=%(f)s v\n=\n%(e)s s='q', l=.TRUE., n=3,/&b w(2)=%(f)s, /",
    ])
    e = ctx.format('%.9e', x)
    f = ctx.format('%.9f', x)
    d = e.replace('e', ctx.choice('exponent', ['d', 'D', 'E'])) \
        if 'e' in e else e
    g = m.read_namelists(put(ctx, style % dict(e=e, f=f, d=d)))
    ctx.true(sorted(g) == ['a', 'b'], 'names of namelists')
    ctx.eq(g['a']['u'], x, 'exponential notation', tol=1e-6)
    ctx.eq(g['a']['v'], x, 'decimal notation', tol=1e-6)
    ctx.true(g['a']['s'] == 'q', 'string')
    ctx.true(g['a']['l'] is True, 'flag')
    ctx.true(g['a']['n'] == 3, 'integer')
    ctx.true(len(g['b']['w']) == 2 and g['b']['w'][0] is None, 'index')
    ctx.eq(g['b']['w'][1], x, 'indexed item', tol=1e-8)
    ctx.true(sorted(g['a']) == ['l', 'n', 's', 'u', 'v'], 'names of items')
    h = m.read_input_data(put(ctx, style % dict(e=e, f=f, d=d), 'in2'))
    ctx.true(sorted(h) == ['l', 'n', 's', 'u', 'v', 'w'], 'flat input data')

@harness(bounds='indexed items in any order, consecutive values after index, '
    'letters of exponents; any number')
def namelist_items(ctx):
    m = ctx.e.misc
    x = ctx.reals('x', (3,), 0.1, 900.0)
    f = [ctx.format('%.9f', y) for y in x]
    order = ctx.choice('order', [(0, 1, 2), (2, 0, 1), (1, 2, 0), (2, 1, 0)])
    sep = ctx.choice('separator', [' = ', '='])
    text = '&a\n' + '\n'.join('celldm(%d)%s%s' % (i + 1, sep, f[i])
        for i in order) + '\n'
    text += 'both(2)%s%s %s\nlist%s%s, %s %s\n' % (sep, f[0], f[1], sep, f[2],
        f[1], f[0])
    letter = ctx.choice('exponent', ['d', 'D', 'e', 'E'])
    text += 'z%s-2.5%s-03, w%s4%s+1\n/\n' % (sep, letter, sep, letter)
    g = m.read_namelists(put(ctx, text))['a']
    ctx.true(len(g['celldm']) == 3 and len(g['both']) == 3
        and len(g['list']) == 3, 'number of values')
    for i in range(3):
        ctx.eq(g['celldm'][i], x[i], 'indexed values', tol=1e-8)
        ctx.eq(g['list'][i], x[2 - i], 'list', tol=1e-8)
    ctx.true(g['both'][0] is None, 'missing value')
    ctx.eq(g['both'][1], x[0], 'first value', tol=1e-8)
    ctx.eq(g['both'][2], x[1], 'next value', tol=1e-8)
    ctx.eq(g['z'], -0.0025, 'exponent', tol=1e-12)
    ctx.eq(g['w'], 40.0, 'exponent', tol=1e-12)

@harness(bounds='2 or 3 atoms on any lattice of 4 families, any positions, '
    'masses, cell length; extra parameters')
def ph_to_pwi(ctx):
    np = ctx.np
    a = lattice(ctx, ctx.choice('lattice', ['cubic', 'hex', 'tric',
        'fcc']))
    nat = ctx.choice('atoms', [2, 3])
    s = ctx.real('s', 3.0, 12.0)
    x = ctx.reals('x', (nat, 3), -0.95, 0.95)
    a = np.array(a) * s
    r = np.dot(x, a)
    M = ctx.reals('M', (2,), 900.0, 90000.0)
    names = ['W', 'Se', 'Se'][:nat]
    mass = [M[0], M[1], M[1]][:nat]
    model = ph_model(ctx, np.array([[0, 0, 0]]), np.zeros((1, 3 * nat,
        3 * nat)), a=a, r=r, M=np.array(mass), names=names,
        divide_mass=False)
    path = ctx.scratch('ph.in')
    model.to_pwi(path, ecutwfc=80, pp=['W.x', 'Se.x'])
    g = ctx.e.bravais.read_pwi(path)
    ctx.true(g['ibrav'] == 0 and g['ntyp'] == 2 and g['nat'] == nat
        and g['ecutwfc'] == 80, 'parameters')
    ctx.true(g['at'] == names and g['at_species'] == ['W', 'Se']
        and g['pp'] == ['W.x', 'Se.x'], 'species')
    for i in range(2):
        ctx.eq(g['mass'][i] * ctx.e.misc.uRy, M[i], 'masses', tol=1e-5)
    ctx.true(g['coords'] == 'crystal' and g['cell_units'] == 'alat', 'units')
    ctx.eq(g['r'], x, 'positions', tol=1e-8)
    ctx.eq(g['r_cell'] * g['celldm'][0], a, 'cell', tol=1e-7)

class Stub:
    pass

def driver(ctx, nat, names, a, r, u, nk):
    np = ctx.np
    d = object.__new__(ctx.e.md.Driver)
    d.elph = Stub()
    d.elph.ph = ph_model(ctx, np.array([[0, 0, 0]]), np.zeros((1, 3 * nat,
        3 * nat)), a=a, r=r, M=np.array([1000.0 * (1 + names.index(n))
            for n in names]), names=names, divide_mass=False)
    d.u = u
    d.nk = np.array(nk)
    d.interactive = False
    return d

@harness(bounds='2 or 3 atoms, any cell and positions, any displacements '
    'within 0.9, single step or trajectory')
def md_xyz(ctx):
    np = ctx.np
    nat = ctx.choice('atoms', [2, 3])
    names = ['Ta', 'S', 'S'][:nat]
    a = ctx.reals('a', (3, 3), -90.0, 90.0)
    r = ctx.reals('r', (nat, 3), -900.0, 900.0)
    u = ctx.reals('u', (3 * nat,), -0.9, 0.9)
    v = ctx.reals('v', (3 * nat,), -0.9, 0.9)
    d = driver(ctx, nat, names, a, r, np.array(u), [2, 2, 1])
    path = ctx.scratch('pos.xyz')
    with open(path, 'w') as f:
        f.write('1\nold\nX 1 2 3\n')
    d.to_xyz(path)
    ctx.eq(d.u, u, 'writing does not move atoms')
    if ctx.choice('trajectory', [False, True]):
        d.u = np.array(v)
        d.to_xyz(path, append=True)
        want = v
    else:
        want = u
    with open(path) as f:
        lines = [line.split() for line in f]
    ctx.true(lines[0] == [str(nat)], 'number of atoms in file')
    for i in range(nat):
        ctx.true(lines[2 + i][0] == names[i], 'symbols in file')
        for x in range(3):
            ctx.eq(ctx.parse(lines[2 + i][1 + x]), r[i, x] + u[3 * i + x],
                'positions in file', tol=1e-8)
    e = driver(ctx, nat, names, a, r, np.zeros(3 * nat), [1, 1, 1])
    e.from_xyz(path)
    ctx.eq(e.u, want, 'displacements', tol=1e-8)
    other = driver(ctx, nat, ['Ta', 'Se', 'S'][:nat], a, r,
        np.zeros(3 * nat), [1, 1, 1])
    other.from_xyz(path)
    ctx.eq(other.u[3:6], np.zeros(3), 'other species ignored')
    ctx.eq(other.u[:3], want[:3], 'same species read', tol=1e-8)

@harness(bounds='2 atoms, 3 lattices, any cell length, positions and '
    'displacements; k meshes 1 and 4x2x1')
def md_to_pwi(ctx):
    np = ctx.np
    a = np.array(lattice(ctx, ctx.choice('lattice', ['cubic', 'hex',
        'tric']))) * ctx.real('s', 4.0, 9.0)
    x = ctx.reals('x', (2, 3), -0.9, 0.9)
    y = ctx.reals('y', (2, 3), -0.09, 0.09)
    nk = ctx.choice('mesh', [[1, 1, 1], [4, 2, 1]])
    d = driver(ctx, 2, ['Ta', 'S'], a, np.dot(x, a), np.dot(y, a).ravel(), nk)
    path = ctx.scratch('md.in')
    d.to_pwi(path, prefix='run')
    g = ctx.e.bravais.read_pwi(path)
    ctx.eq(g['r'], x + y, 'positions include displacements', tol=1e-8)
    ctx.eq(g['r_cell'] * g['celldm'][0], a, 'cell', tol=1e-7)
    ctx.true(g['at'] == ['Ta', 'S'] and g['prefix'] == 'run', 'parameters')
    if nk == [1, 1, 1]:
        ctx.true(g['ktyp'] == 'gamma', 'Gamma only')
    else:
        ctx.true(g['ktyp'] == 'automatic'
            and list(g['k_points']) == [4, 2, 1, 0, 0, 0], 'k mesh')

@harness(bounds='1..3 atoms, any cell, positions, energies, k points and '
    'weights; projections, path and meshes')
def win(ctx):
    np, b = ctx.np, ctx.e.bravais
    nat = ctx.choice('atoms', [1, 3])
    s = dict(num_bands=13, num_wann=3)
    for i, key in enumerate(['dis_win_min', 'dis_win_max', 'dis_froz_min',
            'dis_froz_max']):
        s[key] = ctx.real('e%d' % i, 0.1, 90.0) * (-1) ** i
    flag = ctx.choice('flag', [True, False])
    s.update(write_hr=flag, bands_plot=not flag, wannier_plot=flag,
        dis_num_iter=0, num_iter=1200, search_shells=48)
    full = ctx.choice('all blocks', [True, False])
    s['unit_cell'] = ctx.reals('cell', (3, 3), -0.99, 0.99)
    s['unit_cell'][0, 2] = ctx.real('big', 10.0, 90.0)
    s['atoms_coords'] = ctx.choice('coords', ['frac', 'cart'])
    s['at'] = ['Ta', 'S', 'Se'][:nat]
    s['atoms'] = ctx.reals('r', (nat, 3), -9.9, 9.9)
    s['atoms'][0, 1] = ctx.real('far', -90.0, -10.1)
    if full:
        s['proj'] = {'Ta': 'l=2,mr=1;l=2,mr=4', 'f=0.5,0,0': 's: z=0,0,1'}
        s['kpoint_path'] = ['G 0.0 0.0 0.0 M 0.5 0.0 0.0']
        s['mp_grid'] = np.array(ctx.choice('grid', [[2, 1, 1], [1, 3, 1]]))
        nk = max(int(n) for n in s['mp_grid'])
        s['kpoints'] = ctx.reals('k%d' % nk, (nk, 4), -0.99, 0.99)
    path = ctx.scratch('x.win')
    b.write_win(path, s)
    g = b.read_win(path)
    same(ctx, g, s, ['num_bands', 'num_wann', 'write_hr', 'bands_plot',
        'wannier_plot', 'dis_num_iter', 'num_iter', 'search_shells',
        'atoms_coords', 'at', 'dis_win_min', 'dis_win_max', 'dis_froz_min',
        'dis_froz_max'], 'win')
    ctx.eq(g['unit_cell'], s['unit_cell'], 'cell', tol=1e-9)
    ctx.true(np.shape(g['atoms']) == (nat, 3), 'positions')
    ctx.eq(g['atoms'], s['atoms'], 'positions', tol=1e-9)
    if full:
        ctx.true(g['proj'] == s['proj'], 'projections')
        ctx.true(g['kpoint_path'] == s['kpoint_path'], 'path')
        ctx.true([int(n) for n in g['mp_grid']] == [int(n) for n in
            s['mp_grid']], 'grid')
        ctx.true(np.shape(g['kpoints']) == np.shape(s['kpoints']), 'k points')
        ctx.eq(g['kpoints'], s['kpoints'], 'k points', tol=1e-9)

@harness(bounds='all items of ph.x, q2r.x, matdyn.x and epw.x input; any '
    'number, q points and weights; lists')
def phonon_inputs(ctx):
    np, b = ctx.np, ctx.e.bravais
    which = ctx.choice('program', ['ph', 'q2r', 'matdyn', 'epw'])
    x = ctx.real('x', 1e-14, 900.0) * ctx.choice('sign', [1, -1])
    flag = ctx.choice('flag', [True, False])
    path = ctx.scratch('in')
    if which == 'ph':
        s = dict(prefix='MoS2', outdir='w/d', fildyn='dyn', fildvscf='dv/s',
            ldisp=flag, nq1=12, nq2=12, nq3=1, tr2_ph=x, alpha_mix=
            ctx.choice('mix', [0.3, [0.1, None, 0.2]]), cdfpt=flag,
            subspace='a b', cdfpt_bnd=[1, 2, 13], cdfpt_orb=[4, 5])
        b.write_ph(path, s)
        g = b.read_ph(path)
    elif which == 'q2r':
        s = dict(fildyn='dir/dyn', flfrc='ifc', zasr=ctx.choice('zasr',
            ['crystal', 'simple', 'no']))
        b.write_q2r(path, s)
        g = b.read_q2r(path)
    elif which == 'epw':
        s = dict(prefix='a', outdir='b/c', dvscf_dir='../save', wannierize=flag,
            elph=not flag, epbwrite=flag, epwwrite=flag, epbread=not flag,
            epwread=flag, use_ws=flag, nbndsub=5, bands_skipped=
            'exclude_bands = 1:5', dis_win_min=x, dis_win_max=2 * x,
            dis_froz_min=-x, dis_froz_max=0.0, proj=ctx.choice('proj',
            [['Ta:l=2,mr=1'], ['Ta:dz2', 'S:p', 'f=0,0,0:s']]), num_iter=0,
            wdata=['bands_plot = T', 'begin kpoint_path'], nk1=6, nk2=6,
            nk3=1, nq1=3, nq2=3, nq3=1, nkf1=60, nkf2=60, nkf3=1, nqf1=1,
            nqf2=1, nqf3=1)
        b.write_epw(path, s)
        g = b.read_epw(path)
    else:
        s = dict(flfrc='work/dyn.ifc', flfrq='f', fldos='d', fleig='e',
            flvec='v', asr='simple', loto_2d=flag, q_in_band_form=flag,
            q_in_cryst_coord=not flag)
        n = ctx.choice('points', [1, 3])
        q = ctx.reals('q', (n, 4), -0.99, 0.99)
        q[0, 2] = ctx.real('far', -9.0, -1.1)
        q[0, 3] = ctx.real('weight', 100.0, 900.0)
        b.write_matdyn(path, dict(s, nq=n, q=q))
        g = b.read_matdyn(path)
        ctx.true(g['nq'] == n and np.shape(g['q']) == (n, 4), 'q points')
        ctx.eq(g['q'], q, 'q points', tol=1e-9)
    same(ctx, g, s, list(s), which)

@harness(bounds='1..12 bands at 1..3 k points, 2 formats, 1..10 columns, '
    'energies within 900 eV, k points within 90; path lengths along k points')
def bands_file(ctx):
    T = lambda s: Text(ctx, s)
    np, el = ctx.np, ctx.e.el
    nb, cols = ctx.choice('layout', [(3, 10), (3, 2), (4, 2), (1, 1),
        (12, 10), (2, 1)])
    nk = ctx.choice('points', [3, 1])
    fmt, tol = ctx.choice('format', [('%8.3f', 5.1e-4), ('%12.6f', 5.1e-7)])
    e = ctx.reals('e%d' % nb, (nb, nk), -99.0, 99.0)
    e[nb - 1, nk - 1] = ctx.real('high', 100.0, 900.0)
    k = np.zeros((nk, 3))
    k0 = ctx.reals('k', (3,), -9.0, 9.0)
    steps = np.array([(0.0, 0.0, 0.0), (0.5, 0.0, 0.0), (0.8, 0.4, 0.0)])
    for i in range(nk):
        k[i] = k0 + steps[i]
    path = ctx.scratch('filband')
    el.write_bands(path, k, e, fmt=fmt, cols=cols)
    k2, x, e2 = el.read_bands(path)
    ctx.true(np.shape(k2) == (nk, 3) and np.shape(e2) == (nb, nk), 'shapes')
    ctx.eq(k2, k, 'k points', tol=5.1e-7)
    ctx.eq(e2, e, 'energies', tol=tol)
    for i, want in enumerate([0.0, 0.5, 1.0][:nk]):
        ctx.eq(x[i], want, 'path', tol=1e-5)
    with open(path + '.gnu', 'w') as f:
        for n in range(nb):
            for i in range(nk):
                f.write(T('%10.4f%10.4f\n') % (x[i], e[n, i]))
            f.write('\n')
    if nk > 1:
        y, e3 = el.read_bands_plot(path + '.gnu', nb)
        ctx.true(np.shape(y) == (nk,) and np.shape(e3) == (nk, nb),
            'shapes of plotted bands')
        ctx.eq(e3, e.T, 'plotted bands', tol=5.1e-5)

@harness(bounds='1..3 atoms, grids up to 3x2x2, any origin, cell, positions '
    'and data of magnitude 1..900; header only')
def xsf(ctx):
    np, m = ctx.np, ctx.e.misc
    shape = ctx.choice('grid', [(3, 2, 2), (1, 2, 3), (2, 1, 1)])
    nat = ctx.choice('atoms', [1, 3])
    X = ['Ta', '16', 'Se'][:nat]
    r0 = ctx.reals('o', (3,), -90.0, 90.0)
    a = ctx.reals('a', (3, 3), -90.0, 90.0)
    tau = ctx.reals('t', (nat, 3), -90.0, 90.0)
    data = ctx.reals('d%d%d%d' % shape, shape, -900.0, 900.0)
    path = ctx.scratch('f.xsf')
    head = ctx.choice('header only', [False, True])
    if head:
        m.write_xsf(path, r0, a, X, tau, shape, only_header=True)
    else:
        m.write_xsf(path, r0, a, X, tau, np.array(data))
        h = m.read_xsf(path, only_header=True)
        ctx.true(tuple(int(n) for n in h[4]) == shape, 'shape')
    g = m.read_xsf(path, only_header=head)
    ctx.eq(g[0], r0, 'origin', tol=5.1e-7)
    ctx.eq(g[1], a, 'cell', tol=5.1e-8)
    ctx.true(list(g[2]) == X, 'atoms')
    ctx.eq(g[3], tau, 'positions', tol=5.1e-8)
    if head:
        ctx.true(tuple(int(n) for n in g[4]) == shape, 'shape')
    else:
        ctx.true(np.shape(g[4]) == shape, 'shape')
        ctx.eq(g[4], data, 'data', tol=6e-3)
        # x is the fastest index of the format:
        with open(path) as f:
            text = f.read().split('BEGIN_DATAGRID_3D_UNKNOWN')[1].split()
        n = 0
        for z in range(shape[2]):
            for y in range(shape[1]):
                for x in range(shape[0]):
                    ctx.eq(ctx.parse(text[15 + n]), data[x, y, z], 'order',
                        tol=6e-3)
                    n += 1

@harness(bounds='1..2 atoms, grids up to 2x3x2, any origin, voxels and data')
def cube(ctx):
    T = lambda s: Text(ctx, s)
    np, m = ctx.np, ctx.e.misc
    shape = ctx.choice('grid', [(2, 3, 2), (1, 1, 7)])
    nat = ctx.choice('atoms', [1, 2])
    r0 = ctx.reals('o', (3,), -90.0, 90.0)
    v = ctx.reals('v', (3, 3), -9.0, 9.0)
    tau = ctx.reals('t', (nat, 3), -90.0, 90.0)
    data = ctx.reals('d%d%d%d' % shape, shape, -900.0, 900.0)
    text = T('comment 1\ncomment 2\n%5d%12.6f%12.6f%12.6f\n') % (nat, r0[0],
        r0[1], r0[2])
    for i in range(3):
        text += T('%5d%12.6f%12.6f%12.6f\n') % (shape[i], v[i, 0], v[i, 1],
            v[i, 2])
    for i in range(nat):
        text += T('%5d%12.6f%12.6f%12.6f%12.6f\n') % (16 + i, 0.5, tau[i, 0],
            tau[i, 1], tau[i, 2])
    for x in range(shape[0]):
        for y in range(shape[1]):
            for z in range(shape[2]):
                text += T(' %13.5e') % data[x, y, z]
                if z % 6 == 5:
                    text += '\n'
            text += '\n'
    path = put(ctx, text)
    g = m.read_cube(path)
    ctx.eq(g[0], r0, 'origin', tol=5.1e-7)
    for i in range(3):
        ctx.eq(g[1][i], v[i] * shape[i], 'cell', tol=4e-6)
    ctx.true([int(n) for n in g[2]] == [16, 17][:nat], 'atoms')
    ctx.eq(g[3], tau, 'positions', tol=5.1e-7)
    ctx.true(np.shape(g[4]) == shape, 'shape')
    ctx.eq(g[4], data, 'data', tol=6e-3)
    h = m.read_cube(path, only_header=True)
    ctx.true(tuple(int(n) for n in h[4]) == shape, 'shape in header')

@harness(bounds='1..2 species, any cell, scale and positions; selective '
    'dynamics or not')
def poscar(ctx):
    T = lambda s: Text(ctx, s)
    np, b = ctx.np, ctx.e.bravais
    s = ctx.real('s', 0.1, 9.0)
    a = ctx.reals('a', (3, 3), -90.0, 90.0)
    num = ctx.choice('numbers', [[1, 2], [2], [2, 1]])
    r = ctx.reals('r', (3, 3), -0.99, 0.99)
    sel = ctx.choice('selective', [True, False])
    text = T('title\n%.9f\n') % s
    for i in range(3):
        text += T(' %15.9f %15.9f %15.9f\n') % (a[i, 0], a[i, 1], a[i, 2])
    el = ['Ta', 'S'][:len(num)]
    text += ' '.join(el) + '\n' + ' '.join(map(str, num)) + '\n'
    if sel:
        text += ctx.choice('word', ['Selective dynamics\n', 's\n'])
    text += 'Direct\n'
    for i in range(sum(num)):
        text += T(' %12.9f %12.9f %12.9f%s\n') % (r[i, 0], r[i, 1], r[i, 2],
            ' T T F' if sel else '')
    t1, t2, t3, atoms = b.readPOSCAR(put(ctx, text))
    for i, t in enumerate([t1, t2, t3]):
        ctx.eq(t, s * a[i], 'lattice', tol=2e-7)
    ctx.true(list(atoms) == el, 'species')
    i = 0
    for X, n in zip(el, num):
        ctx.true(np.shape(atoms[X]) == (n, 3), 'number of atoms')
        ctx.eq(atoms[X], r[i:i + n], 'positions', tol=1e-9)
        i += n

@harness(bounds='1..3 bands and k points, any energies; Fermi level given '
    'as such, as highest occupied level or between two levels')
def pw_output(ctx):
    T = lambda s: Text(ctx, s)
    np, el = ctx.np, ctx.e.el
    nb, nk = ctx.choice('size', [(3, 2), (9, 1), (8, 2)])
    e = ctx.reals('e%d' % nb, (nk, nb), -90.0, 90.0)
    E = ctx.real('E', 1.0, 900.0)
    mu = ctx.real('mu', -9.0, 9.0)
    gap = ctx.real('gap', 0.1, 5.0)
    kind = ctx.choice('kind', ['Fermi', 'levels', 'highest', 'steps'])
    text = ('     number of electrons       =        17.00\n'
        '     number of Kohn-Sham states=%13d\n'
        '     number of k points=%5d  Fermi-Dirac smearing\n\n'
        '     End of self-consistent calculation\n') % (nb, nk)
    for ik in range(nk):
        text += '\n          k = 0.0000 0.0000 0.0000 (  2000 PWs)   bands ' \
            '(ev):\n\n'
        for n in range(nb):
            text += T('%10.4f') % e[ik, n]
            if n % 8 == 7 or n == nb - 1:
                text += '\n'
    text += '\n'
    if kind == 'Fermi':
        text += T('     the Fermi energy is  %10.4f ev\n') % mu
    elif kind == 'levels':
        text += '     highest occupied, lowest unoccupied level (ev): ' \
            + T('%10.4f  %10.4f\n') % (mu - gap, mu + gap)
    else:
        if kind == 'steps':
            text += T('     highest occupied level (ev): %10.4f\n') % (mu + gap)
        text += T('     highest occupied level (ev): %10.4f\n') % mu
    text += T('\n!    total energy              =    %15.8f Ry\n') % -E
    path = put(ctx, text)
    eF = el.read_Fermi_level(path)
    if kind == 'levels':
        ctx.true(eF is None, 'no Fermi level')
    else:
        ctx.eq(eF, mu, 'Fermi level', tol=6e-5)
    e2, Ne, E2 = el.read_pwo(path)
    ctx.true(Ne == 17, 'electrons')
    ctx.eq(E2, -E * ctx.e.misc.Ry, 'total energy', tol=1e-6)
    ctx.true(np.shape(e2) == (nk, nb), 'shape')
    ctx.eq(e2, e - (0.0 if kind in ('highest', 'steps') else mu),
        'energies relative to Fermi level', tol=2.1e-4)

@harness(bounds='2 bands, 2 k points, 2 orbitals, any energies and complex '
    'projections; with and without other orbitals')
def projections(ctx):
    T = lambda s: Text(ctx, s)
    np, el = ctx.np, ctx.e.el
    e = ctx.reals('e', (2, 3), -9.0, 9.0)
    p = ctx.cplxs('p', (2, 3, 2), 0.99)
    mu = ctx.real('mu', -1.0, 1.0)
    k0 = ctx.reals('k', (3,), -0.9, 0.9)
    k = [k0, k0 + np.array([0.0, 0.3, 0.4])]
    text = '<?xml version="1.0"?>\n<HEADER NUMBER_OF_BANDS="3" ' \
        'NUMBER_OF_K-POINTS="2" NUMBER_OF_ATOMIC_WFC="2" FERMI_ENERGY=' \
        '"%s"/>\n<EIGENSTATES>\n' % ctx.format('%.9f', mu)
    for i in range(2):
        text += T('<K-POINT>\n%.9f %.9f %.9f\n</K-POINT>\n<E>\n') % tuple(k[i])
        text += T('%.9f %.9f\n%.9f\n') % tuple(e[i])
        text += '</E>\n<PROJS>\n'
        for a in range(2):
            text += '<ATOMIC_WFC>\n'
            for n in range(3):
                text += T('%.9f %.9f\n') % (p[i, n, a].real, p[i, n, a].imag)
            text += '</ATOMIC_WFC>\n'
        text += '</PROJS>\n'
    path = put(ctx, text)
    ff = ctx.choice('from Fermi', [True, False])
    sq = ctx.choice('squared', [True, False])
    other = ctx.choice('other', [True, False]) and sq
    x, k2, e2, w = el.read_atomic_projections(path, from_fermi=ff, squared=sq,
        other=other)
    for i in range(2):
        ctx.eq(k2[i], k[i], 'k points', tol=1e-8)
    ctx.eq(x[0], 0.0, 'path')
    ctx.eq(x[1], 0.5, 'path', tol=1e-7)
    ctx.eq(e2, e - mu if ff else e, 'energies', tol=1e-8)
    ctx.true(np.shape(w) == (2, 3, 3 if other else 2), 'shape')
    if sq:
        want = p.real ** 2 + p.imag ** 2
        ctx.eq(w[:, :, :2], want, 'squared projections', tol=1e-7)
        if other:
            ctx.eq(w[:, :, 2], 1.0 - want[:, :, 0] - want[:, :, 1],
                'other orbitals', tol=1e-7)
    else:
        ctx.eq(w, p, 'projections', tol=1e-8)

@harness(bounds='3 bands of fixed character in 2 sequences, 3 k points, 2..3 '
    'orbitals, any energies and phases')
def projections_ordered(ctx):
    T = lambda s: Text(ctx, s)
    np, el = ctx.np, ctx.e.el
    no = ctx.choice('orbitals', [3, 4])
    turns = ctx.choice('sequence', [[(0, 1, 2), (1, 0, 2), (2, 0, 1)],
        [(0, 1, 2), (1, 2, 0), (0, 2, 1)]])
    e = ctx.reals('e', (3, 3), -9.0, 9.0)
    V = [[0.8, 0.0, 0.6, 0.0], [0.0, 1.0, 0.0, 0.0], [-0.6, 0.0, 0.8, 0.0]]
    sign = [1.0, -1.0, 1j]
    text = '<?xml version="1.0"?>\n<HEADER NUMBER_OF_BANDS="3" ' \
        'NUMBER_OF_K-POINTS="3" NUMBER_OF_ATOMIC_WFC="%d" ' \
        'FERMI_ENERGY="0.5"/>\n<EIGENSTATES>\n' % no
    for i in range(3):
        text += '<K-POINT>\n%.1f 0.0 0.0\n</K-POINT>\n<E>\n' % i
        text += T('%.9f %.9f %.9f\n</E>\n<PROJS>\n') % tuple(e[i, c]
            for c in turns[i])
        for a in range(no):
            text += '<ATOMIC_WFC>\n'
            for c in turns[i]:
                z = V[c][a] * sign[i]
                text += '%.9f %.9f\n' % (z.real, z.imag)
            text += '</ATOMIC_WFC>\n'
        text += '</PROJS>\n'
    sq = ctx.choice('squared', [True, False])
    x, k, e2, w = el.read_atomic_projections(put(ctx, text), order=True,
        from_fermi=False, squared=sq, by_mean=False)
    ctx.true(np.shape(w) == (3, 3, no), 'shape')
    for i in range(3):
        ctx.eq(k[i], [float(i), 0.0, 0.0], 'k points')
        ctx.eq(e2[i], e[i], 'same band throughout', tol=1e-8)
        for c in range(3):
            z = np.array(V[c][:no]) * sign[i]
            ctx.eq(w[i, c], abs(z) ** 2 if sq else z, 'projections')

@harness(bounds='RESPACK files with 1..2 Wannier functions, 1..2 lattice '
    'vectors; eigenvalue files with 2 bands and 3 k points; decay files; '
    'lists of symmetry points')
def tables(ctx):
    T = lambda s: Text(ctx, s)
    np, el, m = ctx.np, ctx.e.el, ctx.e.misc
    n, nR = ctx.choice('size', [(2, 2), (1, 2), (2, 1)])
    W = ctx.cplxs('W%d%d' % (n, nR), (nR, n, n), 9.0)
    R = [(0, -1, 2), (-10, 3, 0)][:nR]
    text = 'a\nb\nc\n'
    for i in range(nR):
        text += ctx.choice('vectors', ['%5d %5d %5d\n', '%d %d %d\n']) % R[i]
        for a in range(n):
            for b in range(n):
                text += T('%5d %5d %.9f %.9f\n') % (a + 1, b + 1,
                    W[i, a, b].real, W[i, a, b].imag)
        text += '\n'
    R2, W2 = m.read_dat_mat(put(ctx, text))
    ctx.true([tuple(int(x) for x in r) for r in R2] == R, 'lattice vectors')
    ctx.true(np.shape(W2) == (nR, n, n), 'shape')
    ctx.eq(W2, W, 'matrix elements', tol=1e-8)

    e = ctx.reals('e', (2, 3), -90.0, 90.0)
    text = ''
    for ik in range(3):
        for b in range(2):
            text += T('%5d %5d %18.12f\n') % (b + 1, ik + 1, e[b, ik])
    path = put(ctx, text, 'w.eig')
    ctx.eq(el.read_wannier90_eig_file(path[:-4], 2, 3), e, 'eigenvalues',
        tol=1e-8)

    x = ctx.reals('x', (3,), 0.0, 9.0)
    text = ''.join('     high-symmetry point:  0.0 0.0 0.0   x coordinate '
        + T('%9.4f\n') % x[i] for i in range(3))
    p = el.read_symmetry_points(put(ctx, 'bands\n' + text, 'out'))
    ctx.true(len(p) == 3, 'number of symmetry points')
    for i in range(3):
        ctx.eq(p[i], x[i], 'symmetry points', tol=5.1e-5)

    text = '  # R_e [Ang]   max_{n,m} H(n,m) [Ry]\n'
    text += ''.join(T('%18.12f %18.12f\n') % (x[i], e[0, i]) for i in range(3))
    d, H = el.read_decayH(put(ctx, text, 'decay.H'))
    for i in range(3):
        ctx.eq(d[i], x[i], 'distances', tol=1e-9)
        ctx.eq(H[i], e[0, i], 'magnitudes', tol=1e-9)

@harness(bounds='all nested and repeated lists up to 3 levels over 4 '
    'expressions (concrete text)')
def split(ctx):
    m = ctx.e.misc
    expr, want = ctx.choice('expression', [
        ('S-p{x, y, z}', ['S-px', 'S-py', 'S-pz']),
        ('a', ['a']),
        ('a, b{c,d{e,f}}g', ['a', 'bcg', 'bdeg', 'bdfg']),
        ('{a,b}{1,2}', ['a1', 'a2', 'b1', 'b2']),
        (','.join(x + '{x,y}' for x in 'abcdefghijkl'),
            [x + y for x in 'abcdefghijkl' for y in 'xy']),
    ])
    ctx.true(sorted(m.split(expr)) == sorted(want), 'expansion')
    sd, od, cd = ctx.choice('delimiters', [(';', '(', ')'), ('/', '[', ']')])
    other = expr.replace(',', sd).replace('{', od).replace('}', cd)
    ctx.true(sorted(m.split(other, sd, od, cd)) == sorted(want),
        'other delimiters')

@harness(bounds='1..2 Wannier functions on grids of up to 12 points, any '
    'values, origin and cell of either handedness, normalized or not, buffered '
    'or not', points=1)
def wannier_functions(ctx):
    np, e = ctx.np, ctx.e
    shape = ctx.choice('grid', [(3, 2, 2), (2, 2, 1)])
    n = ctx.choice('functions', [1, 2])
    r0 = ctx.reals('o', (3,), -9.0, 9.0)
    a = ctx.choice('cell', [[[3.0, 0, 0], [0, 2.5, 0], [0.5, 0, 4.0]],
        [[0, 3.0, 0], [2.5, 0, 0], [0.5, 0, 4.0]]])
    norm = ctx.choice('normalized', [False, True])
    buf = ctx.choice('buffered', [False, True])
    tau = ctx.reals('t', (1, 3), -9.0, 9.0)
    t = ctx.reals('h', (1, n, n), -9.0, 9.0)
    W = ctx.reals('W%d%d' % (n, shape[2]), (n, *shape), 1.0, 9.0)
    name = ctx.scratch('w')
    e.el.write_hrdat(name, np.array([[0, 0, 0]]), np.array(t) + 0j)
    for i in range(n):
        e.misc.write_xsf(name + '_%05d.xsf' % (i + 1), r0, np.array(a), ['Ta'],
            tau, np.array(W[i]))
    V = abs(float(np.dot(np.cross(np.array(a[0]), np.array(a[1])),
        np.array(a[2]))))
    dV = V / (shape[0] * shape[1] * shape[2])
    models = [e.el.Model(name, read_xsf=True, normalize_wf=norm,
        buffer_wf=buf)]
    if buf:
        models.append(e.el.Model(name, read_xsf=True, buffer_wf=True))
        # incomplete buffer:
        os.remove(name + ctx.choice('removed', ['_xyz.npy', '_wf.npy']))
        models.append(e.el.Model(name, read_xsf=True, normalize_wf=norm,
            buffer_wf=True))
    for model in models:
        ctx.true(list(model.atom_order) == ['Ta'], 'atoms')
        ctx.eq(model.tau, tau, 'positions', tol=5.1e-7)
        ctx.eq(model.dV, dV, 'volume element', tol=1e-6)
        ctx.true(np.shape(model.W) == (n, *shape), 'shape')
        ctx.true(np.shape(model.r) == (*shape, 3), 'shape of grid')
        for i in range(n):
            if norm:
                s = (model.W[i] ** 2).sum()
                ctx.eq(s * dV, 1.0, 'normalized', tol=1e-5)
                # sign and shape:
                ctx.eq(model.W[i] * W[i, 0, 0, 0], model.W[i, 0, 0, 0] * W[i],
                    'proportional', tol=0.1)
                ctx.true(model.W[i, 0, 0, 0] > 0, 'sign')
            else:
                ctx.eq(model.W[i], W[i], 'Wannier function', tol=6e-3)
        for x in range(shape[0]):
            for y in range(shape[1]):
                for z in range(shape[2]):
                    f = [i / max(m - 1, 1)
                        for i, m in zip((x, y, z), shape)]
                    for u in range(3):
                        ctx.eq(model.r[x, y, z, u], r0[u] + sum(f[v] * a[v][u]
                            for v in range(3)), 'grid', tol=2e-6)
