"""Smearing functions."""

import math

from symx.harness import harness

SPI = math.pi ** 0.5

def schemes(ctx):
    o = ctx.e.occupations
    return {
        'fd': (o.fermi_dirac, 300.0),
        'gauss': (o.gauss, 8.0),
        'mv': (o.marzari_vanderbilt, 8.0),
        'mp': (o.methfessel_paxton, 6.0),
        'double': (o.double_fermi_dirac, 200.0),
        'two': (o.two_fermi_dirac, 200.0),
        'lorentz': (o.lorentz, 1e3),
        'heaviside': (o.heaviside, 1e3),
    }

def pick(ctx, *names):
    name = ctx.choice('scheme', names)
    f, big = schemes(ctx)[name]
    return name, f, big

def setup(ctx, name):
    """Parameters of the scheme (restored by `reset`)."""
    o = ctx.e.occupations
    if name == 'mp':
        o.methfessel_paxton.order = ctx.choice('order', [1, 0, 2, 3])
        return o.methfessel_paxton.order
    if name in ('double', 'two'):
        f = schemes(ctx)[name][0]
        f.d = ctx.choice('d', [5.0, 0.0, 1.3])
        return f.d

def reset(ctx):
    o = ctx.e.occupations
    o.methfessel_paxton.order = 1
    o.double_fermi_dirac.d = 5.0
    o.two_fermi_dirac.d = 5.0

def region(ctx, name, big, d=0, gap=0.0):
    """Between kinks of the code, away from the discontinuity, if any."""
    d = d or 0
    small = 0.02 if name in ('two', 'heaviside') else gap
    if name in ('gauss', 'mv', 'mp', 'lorentz'):
        return ctx.real('x_' + name, -big, big)
    if name in ('fd', 'heaviside') or not d:
        cuts = [(-big, -small), (small, big)]
    elif name == 'double':
        cuts = [(-big, -d - gap), (gap - d, d - gap), (d + gap, big)]
    else:
        cuts = [(-big, -d - gap), (gap - d, -small), (small, d - gap),
            (d + gap, big)]
    i = ctx.choice('part', range(len(cuts)))
    return ctx.real('x_%s_%d_%g_%g' % (name, i, d, gap), *cuts[i])

ALL = ['fd', 'gauss', 'mv', 'mp', 'double', 'two', 'lorentz', 'heaviside']

@harness(bounds='8 schemes, orders 0..3, 3 splittings, any x (|x| < 300, 8 '
    'for Gaussian types)')
def delta(ctx):
    """Delta functions are minus derivatives of step functions."""
    np = ctx.np
    name, f, big = pick(ctx, *ALL)
    try:
        d = setup(ctx, name)
        x = region(ctx, name, big, d, 1e-6)
        ctx.eq(f.delta(np.array([x])), -ctx.derivative(lambda y:
            f(np.array([y])), x), 'delta is minus derivative of step',
            tol=1e-7)
    finally:
        reset(ctx)

@harness(bounds='8 schemes, orders 0..3, 3 splittings, any x (|x| < 300, 8 '
    'for Gaussian types)')
def delta_prime(ctx):
    """Derivatives of delta functions."""
    np = ctx.np
    name, f, big = pick(ctx, *ALL)
    try:
        d = setup(ctx, name)
        x = region(ctx, name, big, d, 1e-6)
        ctx.eq(f.delta_prime(np.array([x])), ctx.derivative(lambda y:
            f.delta(np.array([y])), x), 'derivative of delta', tol=1e-7)
    finally:
        reset(ctx)

@harness(bounds='7 schemes, 3 splittings, any x (|x| < 300, 8 for Gaussian '
    'types)')
def entropy(ctx):
    """ds/dx = -x delta(x), so that f x - s has the derivative f."""
    np = ctx.np
    name, f, big = pick(ctx, 'fd', 'gauss', 'mv', 'mp', 'double', 'two',
        'heaviside')
    try:
        d = setup(ctx, name) if name != 'mp' else 0
        x = region(ctx, name, big, d, 1e-6)
        ctx.eq(ctx.derivative(lambda y: f.entropy(np.array([y])), x),
            -x * f.delta(np.array([x])), 'derivative of entropy', tol=1e-7)
    finally:
        reset(ctx)

@harness(bounds='2 splittings, both sides of the discontinuity')
def entropy_limits(ctx):
    """Entropy is continuous and vanishes far away from the Fermi level."""
    np = ctx.np
    name, f, big = pick(ctx, 'fd', 'gauss', 'mv', 'mp', 'double', 'two')
    try:
        if name != 'mp':
            setup(ctx, name)
        s = f.entropy(np.array([0.0, -1e-14]))
        ctx.eq(s[0], s[1], 'continuous')
        for x in [ctx.real('far', 40.0, 50.0), ctx.real('near', -50.0,
                -40.0)]:
            ctx.eq(f.entropy(np.array([x])), [0.0], 'vanishes far away',
                tol=1e-10)
    finally:
        reset(ctx)

@harness(bounds='explicit formulas, any x (|x| < 300, 8 for Gaussian types)')
def formula(ctx):
    np = ctx.np
    name, f, big = pick(ctx, *ALL)
    try:
        par = setup(ctx, name)
        x = region(ctx, name, big, par)
        y = f(np.array([x]))[0]
        if name == 'fd':
            ref = 1 / (np.exp(x) + 1)
        elif name == 'gauss':
            ref = (1 - erf(ctx, x)) / 2
        elif name == 'mv':
            z = x + 1 / 2 ** 0.5
            ref = 0.5 - erf(ctx, z) / 2 + np.exp(-z * z) / (2 * math.pi) ** 0.5
        elif name == 'mp':
            ref = (1 - erf(ctx, x)) / 2
            g = np.exp(-x * x) / SPI
            if par > 0:
                ref = ref - x / 2 * g
            if par > 1:
                ref = ref + (8 * x ** 3 - 12 * x) / 32 * g
            if par > 2:
                ref = ref - (32 * x ** 5 - 160 * x ** 3 + 120 * x) / 384 * g
        elif name == 'double':
            ref = 0.5 / (np.exp(x - par) + 1) + 0.5 / (np.exp(x + par) + 1)
        elif name == 'two':
            ref = 1 / (np.exp(x + (par if x < 0 else -par)) + 1)
        elif name == 'lorentz':
            ref = 0.5 - np.arctan(x / math.pi) / math.pi
        elif name == 'heaviside':
            ref = 1.0 if x < 0 else 0.0
        ctx.eq(y, ref, 'occupation')
    finally:
        reset(ctx)

def erf(ctx, x):
    if ctx.mode == 'concrete':
        return math.erf(x)
    from symx import core
    return core.erf(x)

@harness(bounds='7 schemes, orders 0..3, any x (|x| < 300, 8 for Gaussian '
    'types)')
def symmetric(ctx):
    np = ctx.np
    name, f, big = pick(ctx, 'fd', 'gauss', 'mp', 'double', 'two', 'lorentz',
        'heaviside')
    try:
        d = setup(ctx, name)
        x = region(ctx, name, big, d)
        a = np.array([x])
        ctx.eq(f(a) + f(-a), [1.0], 'occupation is antisymmetric')
        ctx.eq(f.delta(-a), f.delta(a), 'delta is symmetric')
        ctx.eq(f.delta_prime(-a), -f.delta_prime(a),
            'derivative is antisymmetric')
        if name == 'lorentz' or name == 'mp' and f.order != 1:
            return
        ctx.eq(f.entropy(-a), f.entropy(a), 'entropy is symmetric')
    finally:
        reset(ctx)

@harness(bounds='monotonic schemes, any x (|x| < 300)')
def falls(ctx):
    np = ctx.np
    name, f, big = pick(ctx, 'fd', 'gauss', 'double', 'lorentz', 'heaviside',
        'two')
    try:
        d = setup(ctx, name)
        x = region(ctx, name, min(big, 30.0), d)
        y = f(np.array([x]))
        ctx.true((y >= 0) & (y <= 1), 'between zero and one')
        ctx.true(f.delta(np.array([x])) >= 0, 'delta is not negative')
    finally:
        reset(ctx)

@harness(bounds='8 schemes, |x| between 40 and 45, 300 and 305, 710 and 1e6 (Fermi '
    'functions), 40 and 100 (Gaussian types), 1e6 and 1e9 (Lorentzian)')
def limits(ctx):
    np = ctx.np
    name, f, big = pick(ctx, *ALL)
    try:
        setup(ctx, name)
        lo, hi = ctx.choice('far', [(40.0, 45.0), (300.0, 305.0),
            (710.0, 1e6)]) if name in ('fd', 'double', 'two') else (40.0, 100.0)
        tol = 1e-8
        if name == 'lorentz':
            lo, hi, tol = 1e6, 1e9, 1e-5
        x = ctx.real('l_%s_%g' % (name, lo), lo, hi)
        y = f(np.array([x, -x]))
        ctx.eq(y[0], 0.0, 'empty far above', tol=tol)
        ctx.eq(y[1], 1.0, 'occupied far below', tol=tol)
        for g in f.delta, f.delta_prime:
            ctx.eq(g(np.array([x, -x])), [0.0, 0.0], 'delta vanishes far away',
                tol=tol)
    finally:
        reset(ctx)

REGIONS = [(-1e6, -709.5), (-708.5, -300.0), (-300.0, 300.0), (300.0, 708.5),
    (709.5, 1e6)]

@harness(bounds='Fermi functions, 5 intervals of x between -1e6 and 1e6')
def overflow(ctx):
    """No floating-point overflow on the way."""
    np = ctx.np
    name, f, big = pick(ctx, 'fd', 'double', 'two')
    i = ctx.choice('region', [0, 1, 2, 3, 4])
    x = ctx.real('x%d' % i, *REGIONS[i])
    try:
        if name != 'fd':
            f.d = 0.3
        a = np.array([x, x])
        for key, g, ref in [('occupation', f, i == 0), ('delta', f.delta, 0.0),
                ('derivative', f.delta_prime, 0.0),
                ('entropy', f.entropy, 0.0)]:
            y = None
            with ctx.finite(key + ' does not overflow'):
                y = g(a)
            if y is not None and i in (0, 4):
                ctx.eq(y, [float(ref)] * 2, key + ' far away')
    finally:
        reset(ctx)

@harness(bounds='scalars, integers, arrays of 1 and 2 dimensions, all schemes')
def shapes(ctx):
    np = ctx.np
    name, f, big = pick(ctx, *ALL)
    x = ctx.real('s', 0.1, 3.0)
    fs = [f, f.delta, f.delta_prime]
    if hasattr(f, 'entropy'):
        fs.append(f.entropy)
    for g in fs:
        y = g(np.array([[x, -x, 2 * x]]))
        ctx.true(y.shape == (1, 3), 'shape')
        for i, v in enumerate([x, -x, 2 * x]):
            if name != 'heaviside' or g is f:
                ctx.eq(g(v), y[0, i], 'scalar')
            else:
                ctx.eq(g(np.array(v)), y[0, i], 'scalar')
        if name != 'heaviside':
            for n in -1, 0, 2:
                ctx.eq(g(n), g(np.array([float(n)]))[0], 'integer')

@harness(bounds='all names of Quantum ESPRESSO in any case, functions')
def names(ctx):
    o = ctx.e.occupations
    table = {
        o.gauss: ['gaussian', 'gauss', 'Gaussian', 'GAUSS', 'Gauss'],
        o.methfessel_paxton: ['methfessel-paxton', 'm-p', 'mp',
            'Methfessel-Paxton', 'MP', 'M-P'],
        o.marzari_vanderbilt: ['marzari-vanderbilt', 'cold', 'm-v', 'mv',
            'Marzari-Vanderbilt', 'MV', 'Cold', 'M-V'],
        o.fermi_dirac: ['fermi-dirac', 'f-d', 'fd', 'Fermi-Dirac', 'FD',
            'F-D'],
        o.lorentz: ['lorentzian', 'lorentz', 'Lorentz'],
        o.heaviside: ['heaviside', 'Heaviside'],
    }
    for f in table:
        for name in table[f]:
            ctx.true(o.smearing(name) is f, 'name')
        ctx.true(o.smearing(f) is f, 'function')
    ctx.true(o.smearing() is o.gauss, 'default')
    ctx.true(o.smearing(smearing='mv', degauss=0.1, ecutwfc=30.0)
        is o.marzari_vanderbilt, 'other parameters')
    fn = lambda x: x
    ctx.true(o.smearing(fn) is fn, 'own function')

@harness(bounds='1..3 frequencies, any x, scalars and arrays')
def matsubara(ctx):
    np = ctx.np
    f = ctx.e.occupations.fermi_dirac_matsubara
    n = ctx.choice('frequencies', [1, 2, 3])
    x = ctx.real('x', -20.0, 20.0)
    a = np.array([x])
    ref = 0.5
    for i in range(n):
        nu = (2 * i + 1) * math.pi
        ref = ref - 2 * x / (nu * nu + x * x)
    ctx.eq(f(a, nmats=n), [ref], 'occupation')
    ctx.eq(f.delta(a, nmats=n), -ctx.derivative(lambda y: f(np.array([y]),
        nmats=n), x), 'delta is minus derivative of step', tol=1e-7)
    ctx.eq(f.delta_prime(a, nmats=n), ctx.derivative(lambda y: f.delta(
        np.array([y]), nmats=n), x), 'derivative of delta', tol=1e-7)

@harness(bounds='any x between 0.01 and 600, both signs')
def bose(ctx):
    np = ctx.np
    b = ctx.e.occupations.bose_einstein
    x = ctx.real('x', 0.01, 600.0)
    y = b(np.array([x, -x]))
    ctx.eq(y[0], 1 / (np.exp(x) - 1), 'Bose function')
    ctx.eq(y[0] + y[1], -1.0, 'symmetric')
    z = ctx.real('z', 709.5, 1e6)
    with ctx.finite('Bose function does not overflow'):
        y = b(np.array([z, z]))
    ctx.eq(y, [0.0] * 2, 'empty far above')

@harness(bounds='degrees up to 6, any x')
def hermite(ctx):
    np = ctx.np
    x = ctx.real('x', -3.0, 3.0)
    h = list(ctx.e.occupations.hermite_polynomials(np.array([x]), N=6))
    ref = [1.0, 2 * x, 4 * x ** 2 - 2, 8 * x ** 3 - 12 * x,
        16 * x ** 4 - 48 * x ** 2 + 12, 32 * x ** 5 - 160 * x ** 3 + 120 * x]
    ctx.true(len(h) == 6, 'number')
    for a, b in zip(h, ref):
        ctx.eq(a, np.array([b]), 'polynomial')
