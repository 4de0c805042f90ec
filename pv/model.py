"""
Independent dense PEEC reference model (oracle of the solver checks).

Nothing of PyPEEC is used here. The voxel integrals are computed by separation of variables and a
one-dimensional quadrature (not with the closed-form expressions), the topology by explicit loops,
and the equation system is solved as a dense matrix.
"""

import functools

import numpy as np
from scipy.special import erf

MU0 = 1.25663706212e-06
try:
    import scipy.constants as _cst
    MU0 = float(_cst.mu_0)
except ImportError:
    pass

_GL_X, _GL_W = np.polynomial.legendre.leggauss(24)


def _moments(delta, d, t):
    """
    F(t) = int_{-d}^{d} (d-|u|) exp(-(delta+u)^2 t^2) du and dF/d(delta), for an array t.
    """
    f = np.empty_like(t)
    g = np.empty_like(t)
    small = t * d < 2.0
    # quadrature on both halves
    ts = t[small]
    u = 0.5 * d * (_GL_X + 1)
    w = 0.5 * d * _GL_W
    ep = np.exp(-np.outer(ts, delta + u) ** 2)
    em = np.exp(-np.outer(ts, delta - u) ** 2)
    f[small] = (ep + em) @ (w * (d - u))
    g[small] = (ep - em) @ w
    # closed form
    tl = t[~small]

    def phi(x):
        return x * (np.sqrt(np.pi) / (2 * tl)) * erf(x * tl) + np.exp(-(x * tl) ** 2) / (2 * tl ** 2)

    def phi1(x):
        return (np.sqrt(np.pi) / (2 * tl)) * erf(x * tl)

    f[~small] = phi(delta + d) - 2 * phi(delta) + phi(delta - d)
    g[~small] = phi1(delta + d) - 2 * phi1(delta) + phi1(delta - d)
    return f, g


@functools.lru_cache(maxsize=200000)
def _green(dx, dy, dz, kx, ky, kz):
    """
    Integral of 1/(4 pi r) over two voxels at the given (non-negative) index distance,
    and its gradient with respect to the distance vector.
    """
    dmin = min(dx, dy, dz)
    dist = np.sqrt((kx * dx) ** 2 + (ky * dy) ** 2 + (kz * dz) ** 2) + max(dx, dy, dz)
    h = 0.08
    s = np.arange(np.log(1e-14 / dist), np.log(1e9 / dmin), h)
    t = np.exp(s)
    (fx, gx) = _moments(kx * dx, dx, t)
    (fy, gy) = _moments(ky * dy, dy, t)
    (fz, gz) = _moments(kz * dz, dz, t)
    scale = h * (2 / np.sqrt(np.pi)) / (4 * np.pi)
    val = scale * np.sum(t * fx * fy * fz)
    grad = (
        scale * np.sum(t * gx * fy * fz),
        scale * np.sum(t * fx * gy * fz),
        scale * np.sum(t * fx * fy * gz),
    )
    return val, grad


def green(d, k):
    """Voxel-voxel integral for an index offset of any sign."""
    (a, b, c) = (abs(int(v)) for v in k)
    return _green(float(d[0]), float(d[1]), float(d[2]), a, b, c)[0]


def green_grad(d, k):
    """Gradient with respect to the offset vector (odd in each component)."""
    (a, b, c) = (abs(int(v)) for v in k)
    grad = _green(float(d[0]), float(d[1]), float(d[2]), a, b, c)[1]
    return np.array([np.sign(kk) * g for kk, g in zip(k, grad)])


def _table(d, ka, kb, grad=False):
    """Integrals (or gradients) of all the pairs of voxels."""
    off = ka[:, None, :] - kb[None, :, :]
    (uniq, inv) = np.unique(off.reshape(-1, 3), axis=0, return_inverse=True)
    val = np.array([green_grad(d, k) if grad else green(d, k) for k in uniq])
    return val[inv.reshape(-1)].reshape(off.shape[:2] + ((3,) if grad else ()))


def coords(n, i):
    (nx, ny, nz) = n
    return (i % nx, (i // nx) % ny, i // (nx * ny))


def linear(n, k):
    (nx, ny, nz) = n
    return k[0] + nx * k[1] + nx * ny * k[2]


def center(n, d, c, i):
    k = coords(n, i)
    return np.array([c[a] + (k[a] + 0.5 - n[a] / 2) * d[a] for a in range(3)])


def components(n, voxels):
    """Groups of face-connected voxels (lists of linear indices)."""
    left = set(voxels)
    out = []
    while left:
        seed = min(left)
        left.discard(seed)
        comp = [seed]
        stack = [seed]
        while stack:
            k = coords(n, stack.pop())
            for a in range(3):
                for s in (-1, 1):
                    q = list(k)
                    q[a] += s
                    if 0 <= q[a] < n[a]:
                        j = linear(n, q)
                        if j in left:
                            left.discard(j)
                            comp.append(j)
                            stack.append(j)
        out.append(sorted(comp))
    return out


def faces(n, voxels):
    """Internal faces (axis, low voxel, high voxel) ordered by axis and low voxel."""
    vox = set(voxels)
    out = []
    for a in range(3):
        for i in sorted(vox):
            k = list(coords(n, i))
            k[a] += 1
            if k[a] < n[a] and linear(n, k) in vox:
                out.append((a, i, linear(n, k)))
    return out


class Model:
    """
    rho / chi: dicts voxel -> complex triple (chi as chi_re - 1j*chi_im).
    sources: list of (voxel, "current"/"voltage", value, element) in any order.
    """

    def __init__(self, n, d, c, freq, rho, chi, sources):
        self.n, self.d, self.c, self.freq, self.rho, self.chi = n, d, c, freq, rho, chi
        self.vc = sorted(rho)
        self.vm = sorted(chi)
        pos_c = {v: i for i, v in enumerate(self.vc)}
        pos_m = {v: i for i, v in enumerate(self.vm)}
        self.fc = faces(n, self.vc)
        self.fm = faces(n, self.vm)
        self.sources = sources
        area = (d[1] * d[2], d[0] * d[2], d[0] * d[1])
        vol = d[0] * d[1] * d[2]
        s = 2j * np.pi * freq
        (nfc, nvc, ns, nfm, nvm) = (len(self.fc), len(self.vc), len(sources), len(self.fm), len(self.vm))

        Ac = np.zeros((nvc, nfc))
        Rc = np.zeros(nfc, dtype=complex)
        for f, (a, i, j) in enumerate(self.fc):
            Ac[pos_c[i], f] = +1
            Ac[pos_c[j], f] = -1
            Rc[f] = 0.5 * (rho[i][a] + rho[j][a]) * d[a] / area[a]
        Am = np.zeros((nvm, nfm))
        Rm = np.zeros(nfm, dtype=complex)
        for f, (a, i, j) in enumerate(self.fm):
            Am[pos_m[i], f] = +1
            Am[pos_m[j], f] = -1
            Rm[f] = 0.5 * (1 / (MU0 * chi[i][a]) + 1 / (MU0 * chi[j][a])) * d[a] / area[a]

        K = {v: np.array(coords(n, v)) for v in set(self.vc) | set(self.vm)}
        # one evaluation per offset of the grid, looked up by the offsets of the pairs
        kc = np.array([K[v] for v in self.vc]).reshape(-1, 3)
        km = np.array([K[v] for v in self.vm]).reshape(-1, 3)
        L = np.zeros((nfc, nfc))
        axis_c = np.array([a for (a, _, _) in self.fc], dtype=int)
        axis_m = np.array([a for (a, _, _) in self.fm], dtype=int)
        low_c = np.array([K[i] for (_, i, _) in self.fc]).reshape(-1, 3)
        for a in range(3):
            f = np.flatnonzero(axis_c == a)
            if len(f):
                L[np.ix_(f, f)] = MU0 * _table(d, low_c[f], low_c[f]) / area[a] ** 2
        P = _table(d, km, km) / (MU0 * vol ** 2)
        # voxel-averaged field of the currents along the magnetic faces
        Km = np.zeros((nfm, nfc))
        if nfm and nfc:
            grads = _table(d, km, kc, grad=True)
            eps = {(0, 1): (2, -1), (1, 2): (0, -1), (2, 0): (1, -1), (1, 0): (2, 1), (2, 1): (0, 1), (0, 2): (1, 1)}
            end_m = np.array([(pos_m[i], pos_m[j]) for (_, i, j) in self.fm]).reshape(-1, 2)
            end_c = np.array([(pos_c[i], pos_c[j]) for (_, i, j) in self.fc]).reshape(-1, 2)
            # H_a = d_c A_b (with the sign of the curl)
            for (a, b), (cc, sign) in eps.items():
                f = np.flatnonzero(axis_m == a)
                g = np.flatnonzero(axis_c == b)
                for i in range(2):
                    for j in range(2):
                        Km[np.ix_(f, g)] += sign * 0.25 * grads[np.ix_(end_m[f, i], end_c[g, j])][:, :, cc] / (area[a] * area[b])
        self.Ac, self.Rc, self.Am, self.Rm, self.L, self.P, self.Km = Ac, Rc, Am, Rm, L, P, Km

        N = nfc + nvc + ns + nfm + nvm
        M = np.zeros((N, N), dtype=complex)
        rhs = np.zeros(N, dtype=complex)
        o_v = nfc
        o_s = o_v + nvc
        o_fm = o_s + ns
        o_vm = o_fm + nfm
        M[:nfc, :nfc] = np.diag(Rc) + s * L
        M[:nfc, o_v:o_s] = -Ac.T
        M[:nfc, o_fm:o_vm] = s * Km.T
        M[o_v:o_s, :nfc] = Ac
        for q, (v, kind, value, element) in enumerate(sources):
            M[o_v + pos_c[v], o_s + q] = -1
            if kind == "current":
                M[o_s + q, o_s + q] = 1
                M[o_s + q, o_v + pos_c[v]] = element
            else:
                M[o_s + q, o_v + pos_c[v]] = 1
                M[o_s + q, o_s + q] = element
            rhs[o_s + q] = value
        M[o_fm:o_vm, :nfc] = -Km
        M[o_fm:o_vm, o_fm:o_vm] = np.diag(Rm)
        M[o_fm:o_vm, o_vm:] = -Am.T
        M[o_vm:, o_fm:o_vm] = P @ Am
        M[o_vm:, o_vm:] = np.eye(nvm)
        # row/column equilibration keeps the dense solution accurate
        with np.errstate(all="ignore"):
            row = 1 / np.max(np.abs(M), axis=1)
            Ms = M * row[:, None]
            col = 1 / np.max(np.abs(Ms), axis=0)
        Ms = Ms * col[None, :]
        sol = col * np.linalg.solve(Ms, row * rhs)
        self.M, self.rhs, self.sol = M, rhs, sol
        (self.I_fc, self.V_vc, self.I_src, self.I_fm, self.V_vm) = np.split(sol, [o_v, o_s, o_fm, o_vm])
        self.area, self.vol, self.s = area, vol, s
        self._derive(pos_c, pos_m)

    def _derive(self, pos_c, pos_m):
        dc = self.freq == 0
        (fp, fw) = (1.0, 0.5) if dc else (0.5, 0.25)
        P_fc = fp * np.abs(self.I_fc) ** 2 * self.Rc.real
        P_fm = fp * np.real(np.conj(self.s * self.I_fm) * self.Rm * self.I_fm)
        W_fc = fw * np.real(np.conj(self.I_fc) * (self.L @ self.I_fc))
        W_fm = fw * np.real(np.conj(self.I_fc) * (self.Km.T @ self.I_fm))
        self.P_electric, self.P_magnetic = P_fc.sum(), P_fm.sum()
        self.W_electric, self.W_magnetic = W_fc.sum(), W_fm.sum()
        self.w_floor = fw * (np.abs(self.I_fc) @ np.abs(self.L) @ np.abs(self.I_fc)
                             + np.abs(self.I_fc) @ np.abs(self.Km.T) @ np.abs(self.I_fm))
        self.J_c = np.zeros((len(self.vc), 3), dtype=complex)
        self.P_c = np.zeros(len(self.vc))
        self.S_c = (self.Ac @ self.I_fc) / self.vol
        for f, (a, i, j) in enumerate(self.fc):
            for v in (i, j):
                self.J_c[pos_c[v], a] += 0.5 * self.I_fc[f] / self.area[a]
                self.P_c[pos_c[v]] += 0.5 * P_fc[f] / self.vol
        self.B_m = np.zeros((len(self.vm), 3), dtype=complex)
        self.P_m = np.zeros(len(self.vm))
        self.Q_m = (self.Am @ self.I_fm) / self.vol
        for f, (a, i, j) in enumerate(self.fm):
            for v in (i, j):
                self.B_m[pos_m[v], a] += 0.5 * self.I_fm[f] / self.area[a]
                self.P_m[pos_m[v]] += 0.5 * P_fm[f] / self.vol
        self.fp, self.fw = fp, fw
        # natural magnitudes: they stay meaningful when a quantity cancels or vanishes by symmetry
        z_el = [abs(self.rho[v][a]) * self.d[a] / self.area[a] for v in self.vc for a in range(3)]
        z_ref = max(z_el + [abs(r + self.s * x) for r, x in zip(self.Rc, np.diag(self.L))])
        i_ref = max([abs(val) / (1.0 if kind == "current" else z_ref) for (_, kind, val, _) in self.sources] + [0.0])
        v_ref = max([abs(val) * (z_ref if kind == "current" else 1.0) for (_, kind, val, _) in self.sources] + [0.0])
        self.i_floor = max([abs(x) for x in self.I_fc] + [abs(x) for x in self.I_src] + [i_ref])
        self.v_floor = max([abs(v) for v in self.V_vc] + [z_ref * self.i_floor, v_ref])
        self.pe_floor = self.fp * max(np.sum(np.abs(self.I_fc) ** 2 * np.abs(self.Rc)), z_ref * i_ref ** 2)
        self.w_floor = max(self.w_floor, fw * np.max(self.L, initial=0.0) * i_ref ** 2)
        kf = np.abs(self.Km) @ np.abs(self.I_fc)
        # the cancellations of the analytic coefficients grow with the distance
        far = max(a * b for (a, b) in zip(self.n, self.d)) / min(self.d)
        kf = np.maximum(kf, 1e-3 * max(1.0, far / 60) ** 2 * self.i_floor)
        r_mag = np.abs(self.Rm) + 2 * np.max(self.P, initial=0.0)
        self.vm_floor = max(list(kf) + [abs(x) for x in self.V_vm] + [0.0])
        self.im_floor = max(list(kf / r_mag) + [abs(x) for x in self.I_fm] + [0.0])
        self.pm_floor = self.fp * max(np.sum(np.abs(self.s * self.I_fm ** 2 * self.Rm)),
                                      np.max(np.abs(self.s * self.Rm), initial=0.0) * self.im_floor ** 2)
        self.s_floor = self.fp * self.v_floor * self.i_floor

    def field(self, pts, mode="face"):
        """Magnetic field at the points (current elements and magnetic charges)."""
        out = np.zeros((len(pts), 3), dtype=complex)
        cen = {v: center(self.n, self.d, self.c, v) for v in set(self.vc) | set(self.vm)}
        pos_c = np.array([cen[v] for v in self.vc]).reshape(-1, 3)
        pos_m = np.array([cen[v] for v in self.vm]).reshape(-1, 3)
        if mode == "face":
            pos = np.array([0.5 * (cen[i] + cen[j]) for (_, i, j) in self.fc]).reshape(-1, 3)
            vec = np.zeros((len(self.fc), 3), dtype=complex)
            for f, (a, _, _) in enumerate(self.fc):
                vec[f, a] = self.I_fc[f] * self.d[a]
        else:
            pos = pos_c
            vec = np.asarray(self.J_c).reshape(-1, 3) * self.vol
        charge = self.Am @ self.I_fm
        floor = 0.0
        for q, pt in enumerate(np.asarray(pts, dtype=float)):
            # natural magnitude at this point (also when no current flows)
            for (voxels, mag) in ((pos_c, self.i_floor), (pos_m, self.im_floor / MU0)):
                if len(voxels):
                    r = np.min(np.linalg.norm(pt - voxels, axis=1))
                    floor = max(floor, 0.1 * mag * (max(self.d) if mag == self.i_floor else 1.0) / (4 * np.pi * r ** 2))
            if len(pos):
                r = pt - pos
                h = np.cross(vec, r) / (4 * np.pi * np.linalg.norm(r, axis=1) ** 3)[:, None]
                floor = max(floor, float(np.max(np.abs(h))))
                out[q] += np.sum(h, axis=0)
            if len(pos_m):
                # a voxel with an outgoing flux is a sink of the magnetic charge
                r = pt - pos_m
                h = -charge[:, None] * r / (4 * np.pi * MU0 * np.linalg.norm(r, axis=1) ** 3)[:, None]
                floor = max(floor, float(np.max(np.abs(h))))
                out[q] += np.sum(h, axis=0)
        self.h_floor = floor
        return out
