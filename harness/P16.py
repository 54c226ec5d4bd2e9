"""Fermi level."""

import math

from symx.harness import harness

SHAPES = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (2, 1, 2), (2,), (1, 1, 1, 1)]

class Stop(Exception):
    pass

def limited(ctx, f, calls):
    """Distribution function that can be called only a few times."""
    count = [0]
    def g(x):
        count[0] += 1
        if count[0] > calls:
            raise Stop
        return f(x)
    for name in 'delta', 'delta_prime', 'entropy':
        if hasattr(f, name):
            setattr(g, name, getattr(f, name))
    g.count = count
    return g

def linear(slope):
    """Linear distribution function (one step suffices)."""
    count = [0]
    def f(x):
        count[0] += 1
        if count[0] > 50:
            raise Stop('no convergence')
        return 0.5 - slope * x
    f.delta = lambda x: slope + 0 * x
    return f

BASE = [-1.5, 0.9, 1.6, -0.6]

def spectrum(ctx, shape):
    """Energies of known order."""
    np = ctx.np
    size = math.prod(shape)
    return np.array([BASE[i] + ctx.real('e%d' % i, -0.2, 0.2)
        for i in range(size)]).reshape(shape)

def electrons(e, occ):
    """Number per unit cell with spin."""
    nk = 1
    for s in e.shape[:-1]:
        nk *= s
    return 2 * occ.sum() / nk

@harness(bounds='8 shapes with up to 4 energies within 0.2 of given values, '
    'any number of electrons, with and without (2 '
    'energies) guess, 2 temperatures')
def exact(ctx):
    """Linear distribution: level and number of electrons are exact."""
    np = ctx.np
    i, guess = ctx.choice('case', [(i, g) for i in range(len(SHAPES))
        for g in (False, True) if g or math.prod(SHAPES[i]) < 3])
    shape = SHAPES[i]
    e = spectrum(ctx, shape)
    kT = ctx.choice('kT', [0.3, 1.0])
    n = ctx.real('n', 0.9, 1.1) * shape[-1]
    s = 0.125
    mu = ctx.e.occupations.find_Fermi_level(n, e, kT=kT, f=linear(s),
        mu=ctx.real('mu', -0.3, 0.3) if guess else None, tol=1e-9)
    ctx.eq(electrons(e, 0.5 - s * (e - mu) / kT), n, 'number of electrons',
        tol=1e-7)

@harness(bounds='3 shapes, guess coincides with energies, any number of '
    'electrons, 2 temperatures')
def touching(ctx):
    """Energies at the Fermi level do not harm."""
    np = ctx.np
    shape = ctx.choice('shape', [(1, 1), (2, 1), (1, 2)])
    kT = ctx.choice('kT', [0.3, 1.0])
    e0 = ctx.real('e0', -1.0, 1.0)
    d = ctx.choice('distance', [0.0, 1e-11, 0.3])
    e = np.array([e0, e0 + d]).reshape(shape) if shape != (1, 1) \
        else np.array([[e0]])
    n = ctx.real('n', 0.2, 1.8) * shape[-1]
    mu = ctx.e.occupations.find_Fermi_level(n, e, kT=kT, f=linear(0.2),
        mu=e0, tol=1e-6)
    ctx.eq(electrons(e, 0.5 - 0.2 * (e - mu) / kT), n, 'number of electrons',
        tol=1e-5)

def clipped(ctx):
    """Piecewise linear distribution function."""
    np = ctx.np
    f = lambda x: np.minimum(np.maximum(0.5 - 0.25 * np.asarray(x), 0.0), 1.0)
    f.delta = lambda x: 0.25 * (abs(np.asarray(x)) < 2)
    return f

@harness(bounds='piecewise linear distribution, 4 shapes with up to 2 '
    'energies within 0.2 of given values, any number of electrons and guess; '
    'levels found in up to 2 iterations', budget=60)
def nonlinear(ctx):
    np = ctx.np
    o = ctx.e.occupations
    shape = ctx.choice('shape', [(1, 1), (2, 1), (1, 2), (2,)])
    e = spectrum(ctx, shape)
    kT = 0.25
    n = ctx.real('n', 0.5, 1.5) * shape[-1]
    tol = ctx.choice('tol', [0.2, 0.05])
    f = limited(ctx, clipped(ctx), 4)
    try:
        mu = o.find_Fermi_level(n, e, kT=kT, f=f, tol=tol,
            mu=ctx.real('mu', -0.3, 0.3))
    except Stop:
        ctx.true(True, 'Fermi level')
        return
    N = electrons(e, clipped(ctx)((e - mu) / kT))
    ctx.true((N - n < tol + 1e-7) & (n - N < tol + 1e-7), 'Fermi level')

def reference(ctx, name, x):
    np = ctx.np
    if name == 'fd':
        return 1 / (np.exp(x) + 1)
    if name == 'lorentz':
        return 0.5 - np.arctan(x / math.pi) / math.pi
    if ctx.mode == 'concrete':
        erf = np.array([math.erf(v) for v in x.ravel()]).reshape(x.shape)
    else:
        from symx import core
        erf = np.array([core.erf(v) for v in x.ravel().tolist()]).reshape(
            x.shape)
    y = (1 - erf) / 2
    if name == 'mp':
        y = y - x / 2 * np.exp(-x * x) / math.pi ** 0.5
    return y

@harness(bounds='4 schemes, both iterations, 3 shapes with 2 energies (rigid '
    'shift), any number of electrons, 2 temperatures '
    'and tolerances; levels found in 1 iteration', budget=60)
def returned(ctx):
    """Tolerance is respected by whatever is returned."""
    np = ctx.np
    o = ctx.e.occupations
    name, fun, shape = ctx.choice('case', [
        ('fd', o.find_Fermi_level, (2, 1)),
        ('fd', o.find_Fermi_level_simple, (1, 2)),
        ('gauss', o.find_Fermi_level, (1, 2)),
        ('lorentz', o.find_Fermi_level_simple, (2, 1)),
        ('mp', o.find_Fermi_level, (2,)),
        ])
    x = ctx.real('x', -0.3, 0.3)
    e = np.array([x - 0.5, x + 0.7]).reshape(shape)
    n = ctx.real('n', 0.5, 1.5) * shape[-1]
    kT, tol = ctx.choice('kT', [(0.5, 0.2), (0.25, 0.05)])
    f = limited(ctx, o.smearing(name), 3 if fun is o.find_Fermi_level else 1)
    try:
        mu = fun(n, e, kT=kT, f=f, mu=0.1, tol=tol)
    except Stop:
        ctx.true(True, 'Fermi level')
        return
    N = electrons(e, reference(ctx, name, (e - mu) / kT))
    ctx.true((N - n < tol + 1e-7) & (n - N < tol + 1e-7), 'Fermi level')

@harness(bounds='linear distribution, 3 shapes, any constant, energies '
    'within 0.2 of given values')
def shift(ctx):
    np = ctx.np
    o = ctx.e.occupations
    shape = ctx.choice('shape', [(2, 1), (1, 2), (2, 2)])
    e = spectrum(ctx, shape)
    c = ctx.real('c', -5.0, 5.0)
    n = ctx.real('n', 0.9, 1.1) * shape[-1]
    mu = ctx.real('mu', -0.3, 0.3) if ctx.choice('guess', [0, 1]) else None
    a = o.find_Fermi_level(n, e, kT=0.3, f=linear(0.125), mu=mu, tol=1e-9)
    b = o.find_Fermi_level(n, e + c, kT=0.3, f=linear(0.125),
        mu=None if mu is None else mu + c, tol=1e-9)
    ctx.eq(b, a + c, 'shifted level', tol=1e-6)

@harness(bounds='3 schemes, half filling of symmetric spectra (2 energies)')
def half_filled(ctx):
    """Particle-hole symmetric spectra."""
    np = ctx.np
    o = ctx.e.occupations
    name = ctx.choice('f', ['fd', 'gauss', 'lorentz'])
    shape = ctx.choice('shape', [(2, 1), (1, 2), (2, 1, 1)])
    c = ctx.real('c', -3.0, 3.0)
    x = ctx.real('x', 0.1, 1.0)
    e = np.array([c - x, c + x]).reshape(shape)
    for fun in o.find_Fermi_level, o.find_Fermi_level_simple:
        f = limited(ctx, o.smearing(name), 30)
        mu = fun(shape[-1], e, kT=ctx.choice('kT', [0.5, 0.1]), f=f)
        ctx.eq(mu, c, 'center')

@harness(bounds='2 iterations, guess that already is the solution')
def guess(ctx):
    """A correct guess is accepted."""
    np = ctx.np
    o = ctx.e.occupations
    e = spectrum(ctx, (2, 1))
    mu = ctx.real('mu', -0.3, 0.3)
    kT = 0.5
    n = electrons(e, reference(ctx, 'fd', (e - mu) / kT))
    for fun in o.find_Fermi_level, o.find_Fermi_level_simple:
        f = limited(ctx, o.fermi_dirac, 30)
        ctx.eq(fun(n, e, kT=kT, f=f, mu=mu), mu, 'guess is kept')
        ctx.eq(fun(n, e, kT=kT, f='fd', mu=mu), mu, 'name of distribution')

@harness(bounds='2 iterations, linear distribution, 2 energies')
def inputs_kept(ctx):
    np = ctx.np
    o = ctx.e.occupations
    e = spectrum(ctx, (2, 1))
    f = np.copy(e)
    n = ctx.real('n', 0.9, 1.1)
    for shape in (2, 1), (1, 2), (2,):
        o.find_Fermi_level(n, e.reshape(shape), kT=0.5, f=linear(0.125))
        ctx.eq(e, f, 'energies unchanged')
