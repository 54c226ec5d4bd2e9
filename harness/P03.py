"""Lattice geometry."""

import math

from symx.harness import harness

# Bravais-lattice index: (conventional cell, centring of primitive vectors)
# from the Quantum ESPRESSO documentation of "ibrav"
P = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
h = 0.5
LATTICES = {
    1: ('cubic', P),
    2: ('cubic', [[-h, 0, h], [0, h, h], [-h, h, 0]]),
    3: ('cubic', [[h, h, h], [-h, h, h], [-h, -h, h]]),
    -3: ('cubic', [[-h, h, h], [h, -h, h], [h, h, -h]]),
    4: ('hexagonal', P),
    6: ('tetragonal', P),
    7: ('tetragonal', [[h, -h, h], [h, h, h], [-h, -h, h]]),
    8: ('orthorhombic', P),
    9: ('orthorhombic', [[h, h, 0], [-h, h, 0], [0, 0, 1]]),
    -9: ('orthorhombic', [[h, -h, 0], [h, h, 0], [0, 0, 1]]),
    91: ('orthorhombic', [[1, 0, 0], [0, h, -h], [0, h, h]]),
    10: ('orthorhombic', [[h, 0, h], [h, h, 0], [0, h, h]]),
    11: ('orthorhombic', [[h, h, h], [-h, h, h], [-h, -h, h]]),
    12: ('monoclinic c', P),
    -12: ('monoclinic b', P),
    13: ('monoclinic c', [[h, 0, -h], [0, 1, 0], [h, 0, h]]),
    -13: ('monoclinic b', [[h, h, 0], [-h, h, 0], [0, 0, 1]]),
}

A0 = 0.529177

def constants(ctx):
    a = ctx.real('a', 0.5, 9.0)
    b = ctx.real('b', 0.5, 9.0)
    c = ctx.real('c', 0.5, 9.0)
    return a, b, c

def call(ctx, ibrav, a, b, c, cosbc, cosac, cosab, **kw):
    """The same lattice via the two ways to specify it (lengths are in
    angstrom or via the first constant in bohr)."""
    bravais = ctx.e.bravais
    bohr = ctx.choice('bohr', [False, True])
    a0 = ctx.e.misc.a0
    if ctx.choice('input', ['abc', 'celldm']) == 'abc':
        v = bravais.primitives(ibrav=ibrav, a=a, b=b, c=c, cosbc=cosbc,
            cosac=cosac, cosab=cosab, bohr=bohr, **kw)
        unit = 1 / a0 if bohr else 1.0
    else:
        celldm = [a, b / a, c / a, 0.0, 0.0, 0.0]
        if ibrav == 14:
            celldm[3:] = [cosbc, cosac, cosab]
        elif ibrav in (-12, -13):
            celldm[4] = cosac
        else:
            celldm[3] = cosab
        kind = ctx.choice('type', ['list', 'array'])
        arg = list(celldm) if kind == 'list' else ctx.np.array(celldm)
        v = bravais.primitives(ibrav=ibrav, celldm=arg, bohr=bohr, **kw)
        again = bravais.primitives(ibrav=ibrav, celldm=arg, bohr=bohr, **kw)
        for i in range(6):
            ctx.eq(arg[i], celldm[i], 'celldm unchanged')
        ctx.eq(again, v, 'same vectors again')
        unit = 1.0 if bohr else a0
    return v, unit

@harness(bounds='all lattices with fixed angles, lengths in 0.5..9, given as '
    'a, b, c or celldm (list or array), in bohr or angstrom')
def orthogonal(ctx):
    np = ctx.np
    a, b, c = constants(ctx)
    ibrav = ctx.choice('ibrav', [i for i in LATTICES if LATTICES[i][0] in
        ('cubic', 'hexagonal', 'tetragonal', 'orthorhombic')])
    kind, centring = LATTICES[ibrav]
    v, unit = call(ctx, ibrav, a, b, c, 0.0, 0.0, 0.0)
    if kind == 'cubic':
        b = c = a
    if kind in ('tetragonal', 'hexagonal'):
        b = a
    conv = [[a, 0.0, 0.0], [0.0, b, 0.0], [0.0, 0.0, c]]
    if kind == 'hexagonal':
        conv[1] = [-0.5 * a, 3 ** 0.5 / 2 * a, 0.0]
    compare(ctx, v, conv, centring, unit)

def compare(ctx, v, conv, centring, unit):
    for i in range(3):
        for x in range(3):
            e = 0.0
            for j in range(3):
                e = e + centring[i][j] * conv[j][x]
            ctx.eq(v[i, x], e * unit, 'primitive vectors', tol=1e-7)

@harness(bounds='monoclinic lattices, cosine in -0.95..0.95')
def monoclinic(ctx):
    np = ctx.np
    a, b, c = constants(ctx)
    ibrav = ctx.choice('ibrav', [12, -12, 13, -13])
    kind, centring = LATTICES[ibrav]
    cos = ctx.real('cos', -0.95, 0.95)
    sin = np.sqrt(1 - cos * cos)
    other = ctx.real('ignored', -0.9, 0.9)
    if ibrav > 0:
        v, unit = call(ctx, ibrav, a, b, c, other, other, cos)
        conv = [[a, 0.0, 0.0], [b * cos, b * sin, 0.0], [0.0, 0.0, c]]
    else:
        v, unit = call(ctx, ibrav, a, b, c, other, cos, other)
        conv = [[a, 0.0, 0.0], [0.0, b, 0.0], [c * cos, 0.0, c * sin]]
    compare(ctx, v, conv, centring, unit)

@harness(bounds='trigonal lattices, cosine in -0.45..0.95')
def trigonal(ctx):
    np = ctx.np
    a, b, c = constants(ctx)
    ibrav = ctx.choice('ibrav', [5, -5])
    cos = ctx.real('cos', -0.45, 0.95)
    v, unit = call(ctx, ibrav, a, b, c, 0.0, 0.0, cos)
    g = a * a * (unit * unit)
    for i in range(3):
        for j in range(i + 1):
            ctx.eq(np.dot(v[i], v[j]) / g, 1.0 if i == j else cos,
                'lengths and angles', tol=1e-7)
    s = v[0] + v[1] + v[2]
    if ibrav == 5:
        ctx.eq(s[0], 0.0, 'threefold axis along z', tol=1e-7)
        ctx.eq(s[1], 0.0, 'threefold axis along z', tol=1e-7)
        ctx.true(s[2] > 0, 'threefold axis along z')
        ctx.eq(v[1][0], 0.0, 'second vector in yz plane')
        ctx.true(v[0][0] > 0, 'right-handed')
    else:
        ctx.eq(s[0], s[1], 'threefold axis along 111', tol=1e-7)
        ctx.eq(s[0], s[2], 'threefold axis along 111', tol=1e-7)
        ctx.true(s[0] > 0, 'threefold axis along 111')

@harness(bounds='triclinic lattice, cosines in -0.4..0.4')
def triclinic(ctx):
    np = ctx.np
    a, b, c = constants(ctx)
    ca = ctx.real('cosbc', -0.4, 0.4)
    cb = ctx.real('cosac', -0.4, 0.4)
    cc = ctx.real('cosab', -0.4, 0.4)
    v, unit = call(ctx, 14, a, b, c, ca, cb, cc)
    l = [a * unit, b * unit, c * unit]
    cos = [[1.0, cc, cb], [cc, 1.0, ca], [cb, ca, 1.0]]
    for i in range(3):
        for j in range(i + 1):
            ctx.eq(np.dot(v[i], v[j]), l[i] * l[j] * cos[i][j],
                'lengths and angles', tol=1e-6)
    ctx.eq(v[0][1], 0.0, 'first vector along x')
    ctx.eq(v[0][2], 0.0, 'first vector along x')
    ctx.eq(v[1][2], 0.0, 'second vector in xy plane')
    ctx.true(np.logical_and(v[0][0] > 0, np.logical_and(v[1][1] > 0,
        v[2][2] > 0)), 'right-handed')

@harness(bounds='any cell, all three units, case of keyword')
def free(ctx):
    np = ctx.np
    a = ctx.real('a', 0.5, 9.0)
    r = ctx.reals('r', (3, 3), -5, 5)
    bohr = ctx.choice('bohr', [False, True])
    units = ctx.choice('units', ['alat', 'Angstrom', 'angstrom', 'bohr',
        '(alat)'])
    a0 = ctx.e.misc.a0
    arg = np.array(r)
    if ctx.choice('input', ['abc', 'celldm']) == 'abc':
        v = ctx.e.bravais.primitives(ibrav=0, a=a, r_cell=arg,
            cell_units=units, bohr=bohr, nonsense=1)
        alat = a / a0 if bohr else a
    else:
        v = ctx.e.bravais.primitives(ibrav=0, celldm=[a], r_cell=arg,
            cell_units=units, bohr=bohr, nonsense=1)
        alat = a if bohr else a * a0
    if 'alat' in units:
        f = alat
    elif units == 'bohr':
        f = 1.0 if bohr else a0
    else:
        f = 1 / a0 if bohr else 1.0
    ctx.eq(v, r * f, 'cell', tol=1e-7)
    ctx.eq(arg, r, 'cell argument unchanged')

@harness(bounds='unknown lattice index')
def unknown(ctx):
    i = ctx.choice('ibrav', [15, -1, -2, 92, -10])
    ctx.true(ctx.exits(lambda: ctx.e.bravais.primitives(ibrav=i)),
        'unknown lattice rejected')

@harness(bounds='any three (two) linearly independent vectors')
def reciprocal(ctx):
    np = ctx.np
    n = ctx.choice('dimensions', [2, 3])
    a = ctx.reals('a', (n, n), -3, 3)
    if n == 2:
        V = a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    else:
        V = (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1])
            - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
            + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))
    if ctx.choice('handedness', [0, 1]):
        ctx.assume(V > 0.2)
    else:
        ctx.assume(V < -0.2)
    args = [np.array(x) for x in a]
    b = ctx.e.bravais.reciprocals(*args)
    for i in range(n):
        for j in range(n):
            ctx.eq(np.dot(a[i], b[j]), 1.0 if i == j else 0.0, 'duality')
        ctx.eq(args[i], a[i], 'arguments unchanged')
    vol = ctx.e.bravais.volume(*args)
    ctx.eq(vol * vol, V * V, 'volume')
    ctx.true(vol > 0, 'volume is positive')

@harness(bounds='any vector and angle, 2D and 3D')
def rotation(ctx):
    np = ctx.np
    t = ctx.angle('t')
    s = ctx.angle('s')
    rotate = ctx.e.bravais.rotate
    two = ctx.choice('2D', [True, False])
    n = 2 if two else 3
    v = ctx.reals('v', (n,), -3, 3)
    w = ctx.reals('w', (n,), -3, 3)
    V = rotate(np.array(v), t, two_dimensional=two)
    W = rotate(np.array(w), t, two_dimensional=two)
    ctx.eq(np.dot(V, W), np.dot(v, w), 'scalar product kept')
    ctx.eq(V[0] * W[1] - V[1] * W[0], v[0] * w[1] - v[1] * w[0],
        'orientation kept')
    ctx.eq(v[0] * V[0] + v[1] * V[1],
        (v[0] * v[0] + v[1] * v[1]) * np.cos(t), 'angle')
    ctx.eq(v[0] * V[1] - v[1] * V[0],
        (v[0] * v[0] + v[1] * v[1]) * np.sin(t), 'anti-clockwise')
    if not two:
        ctx.eq(V[2], v[2], 'z component kept')
    ctx.eq(rotate(rotate(np.array(v), t, two_dimensional=two), s,
        two_dimensional=two), rotate(np.array(v), s + t,
        two_dimensional=two), 'rotations add up')
    ctx.eq(rotate(V, -t, two_dimensional=two), v, 'rotation undone')

@harness(bounds='any angles')
def translation(ctx):
    np = ctx.np
    d = math.pi / 180
    t = ctx.angle('angle') / d
    t0 = ctx.angle('angle0') / d
    two = ctx.choice('2D', [True, False])
    a1, a2 = ctx.e.bravais.translations(t, t0, two_dimensional=two)
    ctx.eq(np.dot(a1, a1), 1.0, 'unit length')
    ctx.eq(np.dot(a2, a2), 1.0, 'unit length')
    ctx.eq(np.dot(a1, a2), np.cos(t * d), 'enclosed angle')
    ctx.eq(a1[0] * a2[1] - a1[1] * a2[0], np.sin(t * d), 'enclosed angle')
    ctx.eq(a1[0], np.cos(t0 * d), 'direction')
    ctx.eq(a1[1], np.sin(t0 * d), 'direction')
    ctx.true(len(a1) == (2 if two else 3), 'dimensions')

@harness(bounds='any lattice vectors, 2 points')
def coordinates(ctx):
    np = ctx.np
    a = ctx.reals('a', (3, 3), -3, 3)
    V = (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1])
        - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
        + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))
    ctx.assume(V * V > 0.04)
    r = ctx.reals('r', (2, 3), -2, 2)
    c2c = ctx.e.bravais.crystal_to_cartesian
    b = [np.array(x) for x in a]
    R = c2c(np.array(r), *b)
    for i in range(2):
        for x in range(3):
            ctx.eq(R[i, x], r[i, 0] * a[0, x] + r[i, 1] * a[1, x]
                + r[i, 2] * a[2, x], 'Cartesian coordinates')
    ctx.eq(ctx.e.bravais.cartesian_to_crystal(R, *b), r,
        'crystal coordinates restored', tol=1e-7)
    q = ctx.reals('q', (2, 2), -2, 2)
    Q = c2c(np.array(q), b[0][:2], b[1][:2])
    for i in range(2):
        for x in range(2):
            ctx.eq(Q[i, x], q[i, 0] * a[0, x] + q[i, 1] * a[1, x],
                'Cartesian coordinates in 2D')

@harness(bounds='any segment with integer corners in -2..2, any point on its '
    'straight line and beside it')
def segment(ctx):
    np = ctx.np
    A = ctx.choice('A', [(0, 0, 0), (1, -2, 1)])
    d = ctx.choice('AB', [(1, 0, 0), (0, 0, 2), (1, 1, 0), (-2, 1, 1)])
    t = ctx.real('t', -3, 3)
    p = ctx.e.bravais.point_on_path
    A = np.array([float(x) for x in A])
    d = np.array([float(x) for x in d])
    inside = p(A + t * d, A, A + d, eps=1e-9)
    if inside:
        ctx.true(np.logical_and(t >= -1e-6, t <= 1 + 1e-6), 'inside')
    else:
        ctx.true(np.logical_or(t <= 1e-6, t >= 1 - 1e-6), 'outside')
    e = ctx.real('e', 0.01, 3)
    n = np.cross(d, np.array([0.3, 0.7, -0.2]))
    ctx.true(not p(A + t * d + e * n, A, A + d, eps=1e-9), 'beside')

@harness(bounds='60, 90, 120 degrees, any orientation')
def zone(ctx):
    """Brillouin-zone corners have minimal distance to origin and >= 2
    lattice points."""
    np = ctx.np
    angle = ctx.choice('angle', [60, 90, 120])
    t0 = ctx.angle('angle0') * 180 / math.pi
    a = ctx.e.bravais.translations(angle, t0)
    b = ctx.e.bravais.reciprocals(*a)
    K = ctx.e.bravais.BZ(angle, t0)
    ctx.true(len(K) == (5 if angle == 90 else 7), 'corners')
    ctx.eq(K[0], K[-1], 'closed')
    for k in K[:-1]:
        d0 = np.dot(k, k)
        count = 0
        for i in range(-2, 3):
            for j in range(-2, 3):
                g = k - i * b[0] - j * b[1]
                d = np.dot(g, g)
                ctx.true(d >= d0 - 1e-8, 'corner in zone')
                same = abs(d - d0) < 1e-6
                count += 1 if bool(same) else 0
        ctx.true(count == (4 if angle == 90 else 3), 'corner of zone')
    for i in range(len(K) - 1):
        x = K[i][0] * K[i + 1][1] - K[i][1] * K[i + 1][0]
        ctx.true(x > 0, 'anti-clockwise')
