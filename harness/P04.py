"""Supercells tile the crystal exactly once."""

import itertools

from symx.harness import harness
from symx.common import SUPERCELLS, N3 as rows

def det(M):
    return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1])
        - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
        + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))

MATRICES = SUPERCELLS + [
    (3, -2, 2),
    (5, 1, 1),
    (1, 1, -4),
    ((2, 1, 0), (-1, 2, 0), 1),
    ((1, 2, 0), (2, -1, 0), 1),
    ((-1, 0, 0), (0, -1, 0), -1),
    ((0, 0, 1), (1, 0, 0), (0, 1, 0)),
    ((3, 1, 0), (-1, 2, 0), 1),
    ((1, 1, 1), (-1, 1, 0), (0, -1, 1)),
    ((-1, 1, 1), (1, -1, 1), (1, 1, -1)),
    ((2, 0, 1), (0, 2, -1), (1, 1, 2)),
    ((1, -3, 2), (0, 2, 1), (-1, 0, 1)),
    ((1, 1, 0), (0, 0, 2), (1, -1, 0)),
]

MORE = [m for m in itertools.product(itertools.product((-1, 0, 1, 2),
    repeat=3), repeat=3) if 1 < abs(det(m)) < 7][::97]

def matrix(ctx):
    if ctx.mode == 'symbolic' and ctx.tier != 'thorough':
        return ctx.choice('N', MATRICES)
    return ctx.choice('N', MATRICES + MORE)

@harness(bounds='23 integer matrices (diagonal, sheared, rotated, left-handed, '
    '3D) with determinants up to 12, and 100 more in the thorough tier; any '
    'lattice vector with components in -60..60')
def decompose(ctx):
    """R = supercell vector + listed cell, uniquely."""
    np = ctx.np
    N = matrix(ctx)
    M = rows(N)
    sc = ctx.e.bravais.supercell(*N)
    n, vectors, recip, cells = sc
    ctx.true(int(n) == abs(det(M)), 'number of cells is determinant')
    ctx.true([tuple(int(x) for x in v) for v in vectors] == [tuple(v)
        for v in M], 'spanning vectors')
    cells = [tuple(int(x) for x in c) for c in cells]
    ctx.true(len(cells) == int(n) and len(set(cells)) == int(n),
        'as many different cells')
    ctx.symbolic_ints()
    R = [ctx.int('R%d' % i, -60, 60) for i in range(3)]
    T, index = ctx.e.bravais.to_supercell(tuple(R), sc)
    ctx.true(0 <= index < int(n), 'index')
    c = cells[int(index)]
    for i in range(3):
        ctx.eq(T[0] * M[0][i] + T[1] * M[1][i] + T[2] * M[2][i] + c[i], R[i],
            'decomposition restores vector')

@harness(bounds='as above; any supercell translation with components in '
    '-20..20')
def unique(ctx):
    """Cell + supercell vector is mapped to exactly this pair."""
    np = ctx.np
    N = matrix(ctx)
    M = rows(N)
    sc = ctx.e.bravais.supercell(*N)
    cells = sc[-1]
    i = ctx.choice('cell', list(range(abs(det(M)))))
    ctx.symbolic_ints()
    T = [ctx.int('T%d' % j, -20, 20) for j in range(3)]
    R = tuple(T[0] * M[0][j] + T[1] * M[1][j] + T[2] * M[2][j]
        + int(cells[i][j]) for j in range(3))
    S, index = ctx.e.bravais.to_supercell(R, sc)
    ctx.true(int(index) == i, 'index of cell')
    for j in range(3):
        ctx.eq(S[j], T[j], 'supercell vector')

@harness(bounds='49 cells along one direction (reciprocal not representable), '
    'any vector at or next to cell boundaries up to 60 supercells away')
def boundary(ctx):
    """Vectors at the boundary belong to the right supercell."""
    axis = ctx.choice('axis', [0, 1, 2])
    N = [1, 1, 1]
    N[axis] = ctx.choice('N', [49, -49])
    sc = ctx.e.bravais.supercell(*N)
    r = ctx.choice('r', [0, 1, 48])
    ctx.symbolic_ints()
    T = [ctx.int('T%d' % i, -60, 60) for i in range(3)]
    R = list(T)
    R[axis] = 49 * T[axis] + r
    t, index = ctx.e.bravais.to_supercell(tuple(R), sc)
    M = [[N[i] if i == j else 0 for j in range(3)] for i in range(3)]
    c = [int(x) for x in sc[-1][int(index)]]
    for i in range(3):
        ctx.eq(t[0] * M[0][i] + t[1] * M[1][i] + t[2] * M[2][i] + c[i], R[i],
            'decomposition restores vector')

@harness(bounds='diagonal supercells up to 7 cells per dimension')
def scalars(ctx):
    """Scalars are multiples of the primitive vectors."""
    n = [ctx.int('n%d' % i, -3, 3) for i in range(3)]
    for x in n:
        ctx.assume(x != 0)
    ctx.assume(n[0] * n[1] * n[2] <= 12)
    ctx.assume(n[0] * n[1] * n[2] >= -12)
    n = [ctx.concrete(x) for x in n]
    a = ctx.e.bravais.supercell(*n)
    b = ctx.e.bravais.supercell((n[0], 0, 0), (0, n[1], 0), (0, 0, n[2]))
    ctx.true(int(a[0]) == int(b[0]) == abs(n[0] * n[1] * n[2]), 'cells')
    same = [tuple(map(int, x)) for x in a[3]] == [tuple(map(int, x))
        for x in b[3]]
    ctx.true(same, 'same cells')
    # parallelepiped spanned by the vectors, origin included
    ctx.true((0, 0, 0) in [tuple(map(int, x)) for x in a[3]], 'origin')
    for c in a[3]:
        for x, m in zip(c, n):
            ctx.true(0 <= int(x) < m if m > 0 else m < int(x) <= 0,
                'cell within supercell')
    ctx.true(ctx.e.bravais.supercell()[3] == [(0, 0, 0)], 'default')
