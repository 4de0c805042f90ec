"""
Independent equations of large voxel structures (matrix-free, oracle of the large solver checks).

Nothing of PyPEEC is used here: near voxels use the quadrature of `pv.model`, the other ones a tensor
Gauss rule, and the sums over all the voxels are convolutions (SciPy FFT, checked with direct sums).
"""

import functools

import numpy as np
import scipy.fft as sfft

from pv import model

NEAR = 6.0
EPS = {(0, 1): (2, -1), (1, 2): (0, -1), (2, 0): (1, -1), (1, 0): (2, 1), (2, 1): (0, 1), (0, 2): (1, 1)}


@functools.lru_cache(maxsize=None)
def _rule(m=7):
    """Gauss rule for the weight (1-|u|) on [-1, 1] (Stieltjes procedure, Golub-Welsch)."""
    (x, w) = np.polynomial.legendre.leggauss(60)
    u = np.concatenate([0.5 * (x - 1), 0.5 * (x + 1)])
    w = np.concatenate([0.5 * w, 0.5 * w]) * (1 - np.abs(u))
    (p0, p1) = (np.zeros_like(u), np.ones_like(u))
    (alpha, beta) = ([], [])
    for k in range(m):
        nrm = np.sum(w * p1 * p1)
        alpha.append(np.sum(w * u * p1 * p1) / nrm)
        beta.append(nrm / np.sum(w * p0 * p0) if k else np.sum(w))
        (p0, p1) = (p1, (u - alpha[-1]) * p1 - (beta[-1] * p0 if k else 0.0))
    off = np.sqrt(beta[1:])
    (val, vec) = np.linalg.eigh(np.diag(alpha) + np.diag(off, 1) + np.diag(off, -1))
    return val, beta[0] * vec[0] ** 2


@functools.lru_cache(maxsize=24)
def tables(d, n):
    """Integral of 1/(4 pi r) over two voxels and its gradient for all the non-negative offsets of a grid."""
    d = np.array(d)
    k = np.stack(np.meshgrid(*[np.arange(v) for v in n], indexing="ij"), axis=-1).reshape(-1, 3)
    (x, w) = _rule()
    (ux, uy, uz) = np.meshgrid(x * d[0], x * d[1], x * d[2], indexing="ij")
    u = np.stack([ux.ravel(), uy.ravel(), uz.ravel()])
    wt = (w[:, None, None] * w[None, :, None] * w[None, None, :]).ravel() * np.prod(d) ** 2 / (4 * np.pi)
    val = np.empty(len(k))
    grad = np.empty((len(k), 3))
    near = np.linalg.norm(k * d, axis=1) < NEAR * np.max(d)
    for i in np.flatnonzero(near):
        val[i] = model.green(d, k[i])
        grad[i] = model.green_grad(d, k[i])
    idx = np.flatnonzero(~near)
    for part in np.array_split(idx, max(1, len(idx) // 2000)):
        r = (k[part] * d)[:, :, None] + u[None, :, :]
        inv = 1.0 / np.sqrt(np.sum(r * r, axis=1))
        val[part] = inv @ wt
        grad[part] = -np.einsum("pcq,pq->pc", r, inv ** 3 * wt[None, :])
    return val.reshape(n), grad.reshape(tuple(n) + (3,))


def errors(d, n, simplify):
    """
    Admissible errors of the tables: rounding of the closed forms (64 terms of the order r^5/60 or r^4/12)
    and the far elements, which are simplified beyond a distance (in units of the largest voxel side).
    """
    (val, grad) = tables(tuple(float(v) for v in d), tuple(int(v) for v in n))
    d = np.array(d)
    top = np.max(d)
    k = np.stack(np.meshgrid(*[np.arange(v) for v in n], indexing="ij"), axis=-1)
    r = np.linalg.norm(k * d, axis=-1)
    dist = np.maximum(r / top, 1e-3)
    rnd = 10 * 64 * 2.2e-16 / (4 * np.pi)
    exact = dist <= simplify * (1 + 1e-9)
    far = dist >= simplify * (1 - 1e-9)
    e_val = np.where(exact, rnd * (r + top) ** 5 / 60, 0.0) + np.where(far, 0.75 / dist ** 2 * val, 0.0)
    mono = np.prod(d) ** 2 / (4 * np.pi) / np.maximum(r, 0.5 * np.min(d)) ** 2
    e_grad = np.where(exact, rnd * (r + top) ** 4 / 12, 0.0) + np.where(far, 2.0 / dist ** 2 * mono, 0.0)
    return e_val, e_grad


class Operators:
    """Sums over all the voxels of a grid with the tables as kernels."""

    def __init__(self, d, n, simplify=1000.0):
        self.n = tuple(int(v) for v in n)
        self.m = tuple(sfft.next_fast_len(2 * v - 1) for v in self.n)
        (self.val, self.grad) = tables(tuple(float(v) for v in d), self.n)
        (self.e_val, self.e_grad) = errors(d, n, simplify)
        self.cache = {}

    def kernel(self, comp):
        if comp not in self.cache:
            tab = {None: self.val, "val": self.e_val, "grad": self.e_grad, "size": self.val}.get(comp)
            if tab is None:
                tab = self.grad[..., comp]
            ker = np.zeros(self.m)
            idx, sgn = [], []
            for a in range(3):
                off = np.arange(-(self.n[a] - 1), self.n[a])
                idx.append(off)
                sgn.append(np.sign(off) if comp == a else np.ones(len(off)))
            sub = tab[np.ix_(*[np.abs(i) for i in idx])]
            sub = sub * sgn[0][:, None, None] * sgn[1][None, :, None] * sgn[2][None, None, :]
            ker[np.ix_(*[i % m for i, m in zip(idx, self.m)])] = sub
            self.cache[comp] = sfft.fftn(ker)
        return self.cache[comp]

    def apply(self, x, comp=None, sign=1):
        """sum_j g(i-j) x_j (g the integral, or component comp of its gradient)."""
        y = sfft.ifftn(self.kernel(comp) * sfft.fftn(x, self.m))
        return sign * y[tuple(slice(v) for v in self.n)]

    def bound(self, x, comp):
        """sum_j e(i-j) |x_j| (e the admissible error of the integral or gradient)."""
        return np.maximum(np.real(self.apply(np.abs(x), comp)), 0.0)


def shift(x, a):
    """Value of the next voxel along the axis (zero at the end)."""
    out = np.zeros_like(x)
    lo = [slice(None)] * x.ndim
    hi = list(lo)
    (lo[a], hi[a]) = (slice(None, -1), slice(1, None))
    out[tuple(lo)] = x[tuple(hi)]
    return out


def back(x, a):
    """Value of the previous voxel along the axis (zero at the start)."""
    return np.flip(shift(np.flip(x, a), a), a)


def flows(mask, dens, area):
    """
    Currents (fluxes) through the faces from the mean densities of the voxels, as three grids (index of
    the lower voxel), the masks of the faces, and the largest flow left over at the end of a line.
    """
    out, face, left = [], [], 0.0
    for a in range(3):
        link = mask & shift(mask, a)
        cur = np.zeros(mask.shape, dtype=complex)
        prev = np.zeros(np.delete(mask.shape, a), dtype=complex)
        for k in range(mask.shape[a]):
            sl = [slice(None)] * 3
            sl[a] = k
            sl = tuple(sl)
            now = 2 * area[a] * dens[a][sl] - prev
            end = mask[sl] & ~link[sl]
            if np.any(end):
                left = max(left, float(np.max(np.abs(now[end]))))
            prev = np.where(link[sl], now, 0.0)
            cur[sl] = prev
        out.append(cur)
        face.append(link)
    return out, face, left


def outflow(flow):
    """Flow that leaves every voxel."""
    return sum(flow[a] - back(flow[a], a) for a in range(3))
