"""Images of Brillouin zones, colored data and fat bands."""

import math

from symx.common import hat
from symx.harness import harness

def lattice(angle, angle0=0):
    """Primitive and reciprocal vectors of a two-dimensional lattice."""
    t, u = math.radians(angle0), math.radians(angle0 + angle)
    a = (math.cos(t), math.sin(t)), (math.cos(u), math.sin(u))
    det = a[0][0] * a[1][1] - a[0][1] * a[1][0]
    b = ((a[1][1] / det, -a[1][0] / det), (-a[0][1] / det, a[0][0] / det))
    return a, b

def dot(x, y):
    return x[0] * y[0] + x[1] * y[1]

def position(k, b):
    """Signed excess of k beyond the closest Bragg line (negative: inside)."""
    return max(dot(k, G) - dot(G, G) / 2 for G in
        [(m * b[0][0] + n * b[1][0], m * b[0][1] + n * b[1][1])
            for m in range(-2, 3) for n in range(-2, 3) if m or n])

def check_axes(ctx, kx, ky, kxmax, kymax, label):
    """Pixel centers divide the given range evenly; rows go downward."""
    nx, ny = len(kx), len(ky)
    for j in range(nx):
        ctx.eq(kx[j], -kxmax + (2 * j + 1) * kxmax / nx, label + ': kx')
    for i in range(ny):
        ctx.eq(ky[i], kymax - (2 * i + 1) * kymax / ny, label + ': ky')

@harness(bounds='mesh 3x3, any data and any value outside, three lattice '
    'angles, several orientations and resolutions')
def zone(ctx):
    np, p = ctx.np, ctx.e.plot
    angle, angle0, points = ctx.choice('lattice', [(60, 0, 5), (90, 0, 5),
        (120, 0, 5), (60, 25, 4), (90, 10, 6), (120, -35, 5), (120, 90, 4)])
    even = ctx.choice('even', [False, True])
    d = ctx.reals('d', (3, 3))
    out = ctx.real('out')
    kxmax, kymax, kx, ky, image = p.toBZ(np.array(d), points=points,
        angle=angle, angle0=angle0, outside=out, return_k=True, even=even)
    a, b = lattice(angle, angle0)
    check_axes(ctx, kx, ky, kxmax, kymax, 'axes')
    ctx.true(image.shape == (len(ky), len(kx)), 'size of image')
    if even:
        ctx.true(len(kx) % 2 == 0 and len(ky) % 2 == 0, 'even')
    else:
        ctx.true(len(kx) == round(2 * points * kxmax / 2)
            and len(ky) == round(points * kymax), 'resolution')
    # the zone fits into the image:
    corners = [(x * math.cos(t), x * math.sin(t)) for x in (0.3, 0.5, 0.6, 0.7)
        for t in [math.pi / 36 * n for n in range(72)]]
    for k in corners:
        if position(k, b) < 0:
            ctx.true(abs(k[0]) <= kxmax + 1e-9 and abs(k[1]) <= kymax + 1e-9,
                'zone inside image')
    inside = 0
    for i in range(len(ky)):
        for j in range(len(kx)):
            k = float(kx[j]), float(ky[i])
            excess = position(k, b)
            if abs(excess) < 1e-6:
                continue
            if excess > 0:
                ctx.eq(image[i, j], out, 'outside')
            else:
                inside += 1
                ctx.eq(image[i, j], hat(ctx, d, 3 * dot(k, a[0]) % 3,
                    3 * dot(k, a[1]) % 3, 180 - angle), 'inside')
    ctx.true(inside > 0, 'some points inside')
    only = p.toBZ(points=points, angle=angle, angle0=angle0,
        return_only_k=True, even=even)
    ctx.true(len(only) == 4, 'only k')
    ctx.eq(only[0], kxmax, 'only k')
    ctx.eq(only[1], kymax, 'only k')
    ctx.eq(only[2], kx, 'only k')
    ctx.eq(only[3], ky, 'only k')

@harness(bounds='two, three or six meshes 2x2 with any data, each shown in '
    'its own wedge of the zone, real or complex data')
def wedges(ctx):
    np, p = ctx.np, ctx.e.plot
    n, angle, angle0 = ctx.choice('wedges', [(2, 120, 0), (3, 120, 20),
        (6, 60, 7), (4, 90, -15)])
    kind = ctx.choice('kind', ['real', 'complex'])
    if kind == 'real':
        d = ctx.reals('d%d' % n, (n, 2, 2))
    else:
        d = ctx.cplxs('c%d' % n, (n, 2, 2))
    image = p.toBZ(np.array(d), points=4, angle=angle, angle0=angle0,
        even=True)
    kxmax, kymax, kx, ky = p.toBZ(points=4, angle=angle, angle0=angle0,
        return_only_k=True, even=True)
    a, b = lattice(angle, angle0)
    for i in range(len(ky)):
        for j in range(len(kx)):
            k = float(kx[j]), float(ky[i])
            excess = position(k, b)
            if abs(excess) < 1e-6:
                continue
            phi = (math.degrees(math.atan2(k[1], k[0])) - angle0) % 360
            w = phi * n / 360
            if abs(w - round(w)) < 1e-6:
                continue
            if excess > 0:
                ctx.eq(image[i, j], 0.0 * d[0, 0, 0], 'outside')
            else:
                ctx.eq(image[i, j], hat(ctx, d[int(w)],
                    2 * dot(k, a[0]) % 2, 2 * dot(k, a[1]) % 2,
                    180 - angle), 'wedge')

@harness(bounds='mesh 2x2 or 3x3, any data, three angles, several sections '
    'of reciprocal space and resolutions')
def section(ctx):
    np, p = ctx.np, ctx.e.plot
    angle = ctx.choice('angle', [60, 90, 120])
    nk = ctx.choice('nk', [2, 3])
    box, res = ctx.choice('section', [((-1.0, 1.0, -1.0, 1.0), 2),
        ((0.0, 1.5, -0.5, 0.25), 4), ((-0.3, 0.1, 0.7, 1.2), 10)])
    d = ctx.reals('d%d' % nk, (nk, nk))
    kx, ky, image = p.plot(np.array(d), *box, resolution=res, angle=angle,
        return_k=True)
    nx = round(res * (box[1] - box[0]))
    ny = round(res * (box[3] - box[2]))
    ctx.true(image.shape == (ny, nx) and len(kx) == nx and len(ky) == ny,
        'size')
    a, b = lattice(180 - angle)
    for j in range(nx):
        ctx.eq(kx[j], box[0] + (j + 0.5) * (box[1] - box[0]) / nx, 'kx')
    for i in range(ny):
        ctx.eq(ky[i], box[3] - (i + 0.5) * (box[3] - box[2]) / ny, 'ky')
    for i in range(ny):
        for j in range(nx):
            k = float(kx[j]), float(ky[i])
            ctx.eq(image[i, j], hat(ctx, d, nk * dot(k, a[0]) % nk,
                nk * dot(k, a[1]) % nk, angle), 'value')
    plain = p.plot(np.array(d), *box, resolution=res, angle=angle)
    ctx.eq(plain, image, 'without coordinates')

@harness(bounds='up to seven q points of a 3x3 mesh, any data on 2x2 k mesh '
    'and any value outside, three angles; outlines of the small zones')
def zones_of_zones(ctx):
    np, p = ctx.np, ctx.e.plot
    angle = ctx.choice('angle', [60, 90, 120])
    nq, nk = 3, 2
    q = ctx.choice('q', [[(0, 0), (0, 1), (1, 0), (-1, 0), (0, -1)],
        [(0, 0), (1, -1), (-1, 1)]])
    d = ctx.reals('d%d' % len(q), (len(q), nk, nk))
    out = ctx.real('out')
    outlines = ctx.choice('outlines', [True, False])
    result = p.double_plot(np.array(d), [(2 * math.pi * x / nq,
        2 * math.pi * y / nq) for x, y in q], nq, -0.75, 0.75, -0.5, 1.0,
        resolution=4, angle=angle, outside=out, outlines=outlines)
    image = result[0] if outlines else result
    ctx.true(image.shape == (6, 6), 'size')
    a, b = lattice(180 - angle)
    for i in range(6):
        for j in range(6):
            k = -0.75 + 0.25 * (j + 0.5), 1.0 - 0.25 * (i + 0.5)
            x, y = nq * dot(k, a[0]), nq * dot(k, a[1])
            near = sorted([((m * b[0][0] + n * b[1][0] - nq * k[0]) ** 2
                + (m * b[0][1] + n * b[1][1] - nq * k[1]) ** 2, m, n)
                for m in range(-6, 7) for n in range(-6, 7)])
            if near[1][0] - near[0][0] < 1e-6:
                continue
            Q = near[0][1:]
            if Q in q:
                ctx.eq(image[i, j], hat(ctx, d[q.index(Q)], nk * x % nk,
                    nk * y % nk, angle), 'value')
            else:
                ctx.eq(image[i, j], out, 'outside')
    if outlines:
        lines = result[1]
        corners = 4 if angle == 90 else 6
        ctx.true(lines.shape == (len(q), corners + 1, 2), 'outlines')
        for n, (x, y) in enumerate(q):
            c = (x * b[0][0] + y * b[1][0], x * b[0][1] + y * b[1][1])
            ctx.eq(lines[n, 0], lines[n, corners], 'closed')
            for m in range(corners):
                v = [nq * lines[n, m, i] - c[i] for i in range(2)]
                w = [nq * lines[n, m + 1, i] - c[i] for i in range(2)]
                for scale, want in (0.999, True), (1.001, False):
                    ctx.true((position((scale * float(v[0]),
                        scale * float(v[1])), b) < 0) == want, 'corner')
                ctx.true(bool(v[0] * w[1] - v[1] * w[0] > 0.1), 'orientation')

@harness(bounds='image 8x6 or 5x10 of any data, any minimum and maximum; '
    'position and size of the bar')
def bar(ctx):
    np, p = ctx.np, ctx.e.plot
    shape, box = ctx.choice('shape', [((8, 6), (0.2, 0.25, 0.3, 0.5)),
        ((5, 10), (0.1, 0.2, 0.1, 0.6))])
    d = ctx.reals('d%d' % shape[0], shape)
    lo, hi = ctx.real('lo'), ctx.real('hi')
    image = np.array(d)
    p.colorbar(image, *box, minimum=lo, maximum=hi)
    x1, x2 = (round(shape[1] * box[0]), round(shape[1] * (box[0] + box[2])))
    y1, y2 = (round(shape[0] * (1 - box[1])),
        round(shape[0] * (1 - box[1] - box[3])))
    for y in range(shape[0]):
        for x in range(shape[1]):
            if x1 <= x <= x2 and y2 <= y <= y1:
                ctx.eq(image[y, x] * (y1 - y2), lo * (y - y2) + hi * (y1 - y),
                    'bar')
            else:
                ctx.eq(image[y, x], d[y, x], 'unchanged')

@harness(bounds='image 4x3 of any data: limits of bar')
def bar_limits(ctx):
    np, p = ctx.np, ctx.e.plot
    d = ctx.reals('d', (2, 2))
    image = np.zeros((4, 3))
    image[:2, 1:] = np.array(d)
    p.colorbar(image, 0.0, 0.25, 0.0, 0.5)
    top, bottom = image[1, 0], image[3, 0]
    values = [d[i, j] for i in range(2) for j in range(2)] + [0.0]
    for v in values:
        ctx.true(bottom <= v + 1e-9, 'smallest value at bottom')
        ctx.true(top >= v - 1e-9, 'largest value at top')
    some = lo = False
    for v in values:
        some = some | (abs(top - v) < 1e-9)
        lo = lo | (abs(bottom - v) < 1e-9)
    ctx.true(some, 'largest value occurs')
    ctx.true(lo, 'smallest value occurs')

@harness(bounds='one to six images 1x2 of any data, given or default number '
    'of columns')
def tiles(ctx):
    np, p = ctx.np, ctx.e.plot
    n, columns, want = ctx.choice('n', [(1, None, 1), (2, None, 1),
        (4, None, 2), (6, None, 2), (6, 3, 3), (6, 4, 6), (4, 3, 4), (5, 2, 5),
        (3, 7, 3), (5, 1, 1)])
    d = ctx.reals('d%d' % n, (n, 1, 2))
    image = p.arrange([np.array(d[i]) for i in range(n)], columns)
    ctx.true(image.shape == (n // want, 2 * want), 'size')
    for i in range(n):
        for x in range(2):
            ctx.eq(image[i // want, i % want * 2 + x], d[i, 0, x], 'tile')

@harness(bounds='image 3x4 of any data: whole image, part of it, upsampled, '
    'and skew selections')
def selection(ctx):
    np, p = ctx.np, ctx.e.plot
    d = ctx.reals('d', (3, 4))
    width, height, lt, rt, lb, rb = ctx.choice('selection', [
        (1, 1, (0, 1), (1, 1), (0, 0), (1, 0)),
        (0.5, 2, (0, 1), (1, 1), (0, 0), (1, 0)),
        (1, 1, (0.25, 0.9), (0.75, 0.8), (0.1, 0.3), (0.6, 0.2)),
        (0.5, 1, (0.1, 0.2), (0.2, 0.9), (0.7, 0.1), (0.8, 0.95))])
    image = p.rectify(np.array(d), width, height, lt, rt, lb, rb, angle=90)
    nx, ny = round(4 * width), round(3 * height)
    ctx.true(image.shape == (ny, nx), 'size')
    for iy in range(ny):
        v = iy / ny # from top to bottom
        for ix in range(nx):
            u = ix / nx # from left to right
            x, y = [(1 - v) * ((1 - u) * lt[i] + u * rt[i])
                + v * ((1 - u) * lb[i] + u * rb[i]) for i in range(2)]
            ctx.eq(image[iy, ix], hat(ctx, d, 3 * (1 - y) % 3, 4 * x % 4, 90),
                'value', tol=1e-6)

@harness(bounds='image 2x5 of any data, optionally with color channels, up '
    'to three blocks of columns')
def columns(ctx):
    np, p = ctx.np, ctx.e.plot
    kind = ctx.choice('kind', ['plain', 'channels'])
    shape = (2, 5) if kind == 'plain' else (2, 5, 2)
    d = ctx.reals('d%d' % len(shape), shape)
    points, distances, width, new = ctx.choice('blocks', [
        ([0, 4], [0, 1], 9, [0, 8]),
        ([0, 2, 4], [1, 2, 5], 9, [0, 2, 8]),
        ([0, 1, 4], [0, 3, 4], 5, [0, 3, 4]),
        ([0, 1, 2, 4], [0.5, 1.5, 2.0, 2.5], 9, [0, 4, 6, 8])])
    height = ctx.choice('height', [None, 3])
    image = p.adjust_pixels(np.array(d), points, distances, width, height)
    rows = height or 2
    ctx.true(image.shape == (rows, width) + shape[2:], 'size')
    for n in range(len(points) - 1):
        for x in range(new[n], new[n + 1] + 1):
            t = (points[n] + (points[n + 1] - points[n]) * (x - new[n])
                / (new[n + 1] - new[n]))
            j = min(int(t), 3)
            w = t - j
            for y in range(rows):
                s = y / (rows - 1)
                ctx.eq(image[y, x], (1 - s) * ((1 - w) * d[0, j]
                    + w * d[0, j + 1]) + s * ((1 - w) * d[1, j]
                    + w * d[1, j + 1]), 'column')

@harness(bounds='line of three points, any coordinates, one to three '
    'components of any size; centered on the line or not')
def composition(ctx):
    np, p = ctx.np, ctx.e.plot
    nc = ctx.choice('nc', [0, 1, 2, 3])
    center = ctx.choice('center', [True, False])
    x, y = ctx.reals('x', (3,)), ctx.reals('y', (3,))
    c = ctx.reals('c%d' % nc, (3, nc) if nc else (3,))
    area = p.compline(np.array(x), np.array(y), np.array(c), center=center)
    n = nc or 1
    ctx.true(area.shape == (n, 2, 7), 'size')
    comp = [[c[i, m] if nc else c[i] for m in range(n)] for i in range(3)]
    for m in range(n):
        line = [[area[m, 0, i], area[m, 1, i]] for i in range(7)]
        if m % 2:
            line = line[::-1]
        ctx.eq(line[0][0], line[6][0], 'closed')
        ctx.eq(line[0][1], line[6][1], 'closed')
        for i in range(3):
            low = sum(comp[i][:m], 0.0)
            if center:
                low = low + y[i] - sum(comp[i], 0.0) / 2
            ctx.eq(line[i][0], x[i], 'abscissa of lower edge')
            ctx.eq(line[5 - i][0], x[i], 'abscissa of upper edge')
            ctx.eq(line[i][1], low, 'lower edge')
            ctx.eq(line[5 - i][1], low + comp[i][m], 'upper edge')

class Colors:
    """Colormap with interface of StoryLines."""

    def __init__(self, x):
        self.x = list(x)

    def __call__(self, value):
        x = self.x

        class Color:
            def RGB(self):
                return 255 * value, 100 * value * value, x[1]

        return Color()

@harness(bounds='data 2x2 or 1x3, any values and limits; positions in colormap '
    'given as absolute values; several images with one colormap')
def colored(ctx):
    np, p = ctx.np, ctx.e.plot
    shape = ctx.choice('shape', [(2, 2), (1, 3)])
    d = ctx.reals('d%d' % shape[0], shape, -2, 2)
    cmap = Colors([0, '0.25', 1])
    for lo, hi in (-2.0, 2.5), (0.0, 1.0):
        image = p.color(np.array(d), cmap, lo, hi)
        ctx.true(image.shape == shape + (3,), 'size')
        for i in range(shape[0]):
            for j in range(shape[1]):
                v = (d[i, j] - lo) / (hi - lo)
                if bool(v < 0):
                    v = 0.0
                elif bool(v > 1):
                    v = 1.0
                ctx.eq(image[i, j, 0], 255 * v, 'color')
                ctx.eq(image[i, j, 1], 100 * v * v, 'color')
                ctx.eq(image[i, j, 2], (0.25 - lo) / (hi - lo),
                    'position given as absolute value')

@harness(bounds='data of three values without given limits')
def color_limits(ctx):
    np, p = ctx.np, ctx.e.plot
    d = ctx.reals('d', (1, 3), -2, 2)
    ctx.assume((d[0, 0] < d[0, 1] - 0.1) | (d[0, 1] < d[0, 0] - 0.1))
    image = p.color(np.array(d), Colors([0, 0.5, 1]))
    lo = hi = d[0, 0]
    for j in (1, 2):
        if bool(d[0, j] < lo):
            lo = d[0, j]
        if bool(d[0, j] > hi):
            hi = d[0, j]
    for j in range(3):
        ctx.eq(image[0, j, 0] * (hi - lo), 255 * (d[0, j] - lo), 'color')

@harness(mpi=True, bounds='mesh 2x2 and 2x2x2 of any data, up to 3 processes')
def processes(ctx):
    kind = ctx.choice('kind', ['zone', 'section', 'zones', 'colored'])
    P = ctx.choice('P', [2, 3])
    d = ctx.reals('d', (2, 2), -2, 2)
    def fn(e, rank):
        np, p = ctx.np, e.plot
        D = np.array(d)
        if kind == 'zone':
            return p.toBZ(D, points=3)
        elif kind == 'section':
            return p.plot(D, resolution=2)
        elif kind == 'zones':
            return p.double_plot(np.array([D, 2 * D]), [(0, 0),
                (math.pi, 0)], 2, resolution=3)
        return p.color(D, Colors([0, 0.5, 1]), -3.0, 3.0)
    ref, res = ctx.mpi(P, fn)
    for r in res:
        ctx.eq(r, ref, 'same image on all processes')
