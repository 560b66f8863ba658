"""Reference finite differences for the electromagnetic checks, written from the documented equations cell by cell.

Grids are given by (shape3, spacing3, stretch): cell (i, j, k) has edge lengths dx[axis][i_axis] * s[axis][i_axis], where s is
the complex stretch of an absorbing layer (1 without).  Fields are arrays of shape (3, nx, ny, nz).
"""
import itertools
import numpy as np


def shape3(shape):
    return tuple(shape) + (1,) * (3 - len(shape))


def neighbour(shape, ax, step):
    """Flat index of the next (step=1) or previous (step=-1) cell along ax for every cell, and whether it wraps."""
    idx = np.arange(int(np.prod(shape))).reshape(shape)
    nxt = np.empty_like(idx)
    wrap = np.zeros(shape, bool)
    for cell in itertools.product(*map(range, shape)):
        other = list(cell)
        other[ax] += step
        if not 0 <= other[ax] < shape[ax]:
            wrap[cell] = True
            other[ax] %= shape[ax]
        nxt[cell] = idx[tuple(other)]
    return nxt.ravel(), wrap.ravel()


def deriv(shape, ax, lengths, forward, phase=0.0, sparse=False):
    """Derivative matrix along ax; lengths[i] is the (complex) length of cell i along ax, phase the Bloch phase across the grid."""
    s = shape3(shape)
    n = int(np.prod(s))
    import scipy.sparse as sp
    if s[ax] == 1:
        d = sp.csr_matrix((n, n), dtype=complex)
        return d if sparse else d.toarray()
    nb, wrap = neighbour(s, ax, 1 if forward else -1)
    where = np.unravel_index(np.arange(n), s)[ax]
    inv = 1 / np.asarray(lengths, complex)[where]
    ph = np.where(wrap, np.exp(1j * phase) if forward else np.exp(-1j * phase), 1)
    sign = 1 if forward else -1
    d = sp.coo_matrix((np.r_[sign * ph * inv, -sign * inv], (np.r_[np.arange(n), np.arange(n)], np.r_[nb, np.arange(n)])), shape=(n, n)).tocsr()
    return d if sparse else d.toarray()


def stretch(n, dx, pml, k0, params):
    """(for forward differences, for backward differences): documented s = 1 + i (m + 1) d^m ln R / (2 k0 eps_pml)."""
    if pml is None or n == 1:
        return np.ones(n, complex), np.ones(n, complex)
    m, ln_r, pml_eps = params[:3]
    edge = dx * np.arange(n + 1)
    out = []
    for p in ((edge[1:] + edge[:-1]) / 2, edge[:-1]):
        s = np.ones(n, complex)
        for i in range(n):
            if i < pml:
                d = (p[pml] - p[i]) / (p[pml] - edge[0])
            elif i >= n - pml:
                d = (p[i] - p[n - pml]) / (edge[n] - p[n - pml])
            else:
                d = 0.0
            s[i] += 1j * (m + 1) * d ** m * ln_r / (2 * k0 * pml_eps)
        out.append(s)
    return out[0], out[1]


class Ref:
    """Frequency-domain operators of a grid."""

    def __init__(self, shape, spacing, k0=1.0, phase=0.0, pml=None, params=(4, -16, 1.0), sparse=False):
        self.nd, self.shape, self.k0, self.sparse = len(shape), shape3(shape), k0, sparse
        sp3 = list(spacing) + [1.0] * (3 - len(shape))
        ph = list(phase) if isinstance(phase, (tuple, list)) else [phase] * len(shape)
        ph += [0.0] * (3 - len(shape))
        pml = [None] * 3 if pml is None else list(pml) + [None] * (3 - len(shape))
        st = [stretch(self.shape[a], sp3[a], pml[a], k0, params) for a in range(3)]
        self.len_f = [sp3[a] * st[a][0] for a in range(3)]
        self.len_b = [sp3[a] * st[a][1] for a in range(3)]
        self.f = [deriv(self.shape, a, self.len_f[a], True, ph[a], sparse) for a in range(3)]
        self.b = [deriv(self.shape, a, self.len_b[a], False, ph[a], sparse) for a in range(3)]
        self.n = int(np.prod(self.shape))

    def diag(self, v):
        import scipy.sparse as sp
        return sp.diags(np.asarray(v).ravel()) if self.sparse else np.diag(np.asarray(v).ravel())

    def eye(self):
        return self.diag(np.ones(self.n))

    def curl(self, d):
        if self.sparse:
            import scipy.sparse as sp
            z = sp.csr_matrix((self.n, self.n))
            return sp.bmat([[z, -d[2], d[1]], [d[2], z, -d[0]], [-d[1], d[0], z]]).tocsr()
        z = np.zeros((self.n, self.n))
        return np.block([[z, -d[2], d[1]], [d[2], z, -d[0]], [-d[1], d[0], z]])

    def mat(self, eps):
        """curl curl - k0^2 eps on the Yee-averaged permittivity."""
        return self.curl(self.b) @ self.curl(self.f) - self.k0 ** 2 * self.diag3(yee(eps.reshape(self.shape)))

    def diag3(self, e):
        import scipy.sparse as sp
        return sp.diags(e.ravel()) if self.sparse else np.diag(e.ravel())

    def mat_ez(self, eps):
        e = yee(eps.reshape(self.shape))
        return -self.b[0] @ self.f[0] - self.b[1] @ self.f[1] - self.k0 ** 2 * self.diag(e[2])

    def mat_hz(self, eps):
        e = yee(eps.reshape(self.shape))
        return -self.b[0] @ self.diag(1 / e[1]) @ self.f[0] - self.b[1] @ self.diag(1 / e[0]) @ self.f[1] - self.k0 ** 2 * self.eye()

    def apply(self, d, a, v):
        return np.asarray(d[a] @ np.asarray(v).ravel()).reshape(self.shape)

    def apply_curl(self, d, f):
        g = lambda i, a: self.apply(d, a, f[i])
        return np.stack([g(2, 1) - g(1, 2), g(0, 2) - g(2, 0), g(1, 0) - g(0, 1)])


def yee(eps):
    """Permittivity at the places of the three field components (periodic): mean over the pixels that share the edge."""
    e = np.asarray(eps)
    nx, ny, nz = e.shape
    out = np.zeros((3,) + e.shape, e.dtype if e.dtype.kind == "c" else float)
    for i, j, k in itertools.product(range(nx), range(ny), range(nz)):
        im, jm = (i - 1) % nx, (j - 1) % ny
        out[0, i, j, k] = (e[i, j, k] + e[i, jm, k]) / 2
        out[1, i, j, k] = (e[i, j, k] + e[im, j, k]) / 2
        out[2, i, j, k] = (e[i, j, k] + e[im, j, k] + e[i, jm, k] + e[im, jm, k]) / 4
    return out
