"""Electrons on meshes with arbitrary occupation functions."""

import itertools

class Occupation:
    """Cubic polynomial with arbitrary coefficients.

    As far as sums over finitely many states are concerned, this is as good as
    any occupation function whose derivatives exist.
    """
    def __init__(self, ctx, degree=3, name='f'):
        self.c = [ctx.real('%s%d' % (name, i), -1, 1)
            for i in range(degree + 1)]

    def __call__(self, x):
        return sum(c * x ** i for i, c in enumerate(self.c))

    def delta(self, x):
        return -sum(i * c * x ** (i - 1) for i, c in enumerate(self.c) if i)

    def delta_prime(self, x):
        return -sum(i * (i - 1) * c * x ** (i - 2)
            for i, c in enumerate(self.c) if i > 1)

    def entropy(self, x):
        return sum(i * c * x ** (i + 1) / (i + 1)
            for i, c in enumerate(self.c) if i)

def levels(ctx, nk, nbnd, pattern, name='e'):
    """Band energies, equal if they have the same number in the pattern.

    Distinct energies are at least 0.1 apart.  Returns array and a function
    telling which energies are equal.
    """
    np = ctx.np
    pool = {}
    ids = {}
    e = np.empty(tuple(nk) + (nbnd,))
    for i, (k, n) in enumerate(itertools.product(
            itertools.product(*map(range, nk)), range(nbnd))):
        p = pattern[i % len(pattern)]
        if p is None:
            p = 100 + i
        if p not in pool:
            m = len(pool)
            low = -2.0 + 0.7 * m
            pool[p] = ctx.real('%s%d' % (name, m), low, low + 0.6)
        e[k + (n,)] = pool[p]
        ids[k + (n,)] = p
    return e, ids

def shift(k, q, nk):
    return tuple((x + y) % n for x, y, n in zip(k, q, nk))

def points(nk):
    return list(itertools.product(*map(range, nk)))

def divided(f, kT, e1, e2, same):
    """First divided difference of the occupation."""
    if same:
        return -f.delta(e1 / kT) / kT
    return (f(e1 / kT) - f(e2 / kT)) / (e1 - e2)
