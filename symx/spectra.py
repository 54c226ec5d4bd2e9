"""Matrices whose eigenvalues and eigenvectors are known by construction.

A matrix is V diag(w) V^+ with symbolic levels w and a unitary V from symbolic
angles, i.e., any Hermitian matrix (two bands).  When the code under test asks
for eigenvalues or eigenvectors of such a matrix (recognized by its entries),
the symbolic execution returns w and V with arbitrary phases of the columns.
In concrete mode, the matrices are handed to numpy unchanged.
"""

class Spectra:
    def __init__(self, ctx, phases=True):
        self.ctx = ctx
        self.phases = phases
        self.known = []
        self.n = 0
        if ctx.mode == 'symbolic':
            from symx import arr
            arr.EIGH_HOOK.append(self.hook)

    @staticmethod
    def key(a):
        from symx import arr, core
        out = []
        for x in arr.plain(a).ravel().tolist():
            if isinstance(x, core.Sym):
                out.append(frozenset((m, (complex(c).real + 0.0,
                    complex(c).imag + 0.0) if not isinstance(c, tuple)
                    else (c[0] + 0.0, c[1] + 0.0)) for m, c in x.key()))
            else:
                x = complex(x)
                out.append((round(x.real, 9), round(x.imag, 9)))
        return out

    def hook(self, a):
        from symx import arr
        if arr.plain(a).ndim != 2:
            return None
        key = self.key(a)
        for known, w, V in self.known:
            if known == key:
                return w, V

    def matrix(self, w, V):
        """Matrix with ascending eigenvalues w and eigenvectors V."""
        np = self.ctx.np
        n = len(w)
        H = sum(w[i] * np.outer(V[:, i], np.conj(V[:, i])) for i in range(n))
        self.know(H, w, V)
        return H

    def know(self, H, w, V):
        """Register arbitrary Hermitian matrix with its decomposition."""
        np = self.ctx.np
        if self.ctx.mode != 'symbolic':
            return
        key = self.key(H)
        if any(key == k for k, _, _ in self.known):
            return
        from symx import arr
        P = np.array(V) + 0j
        if self.phases:
            for i in range(len(w)):
                P[:, i] = P[:, i] * np.exp(1j * self.ctx.angle(
                    'phase%d' % self.n))
                self.n += 1
        w = arr.symarray(list(w))
        self.known.append((key, w, P))

def unitary(ctx, theta, phi):
    """Most general two orthonormal vectors, up to phases."""
    np = ctx.np
    c, s, z = np.cos(theta), np.sin(theta), np.exp(1j * phi)
    V = np.empty((2, 2), dtype=complex)
    V[0, 0] = c + 0j
    V[0, 1] = -s / z
    V[1, 0] = s * z
    V[1, 1] = c + 0j
    return V

def levels(ctx, name, n=2, gap=0.2):
    """Ascending energies."""
    w = [ctx.real(name + '0', -1.0, 0.0)]
    for i in range(1, n):
        w.append(w[-1] + ctx.real('%s%d' % (name, i), gap, 1.0))
    return w

def two_bands(ctx, S, name):
    """Registered Hermitian 2x2 matrix with its eigenvalues and vectors."""
    w = levels(ctx, name)
    V = unitary(ctx, ctx.angle(name + 'theta'), ctx.angle(name + 'phi'))
    return S.matrix(w, V), w, V
