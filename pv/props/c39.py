"""C39: the equations of the voxel model hold everywhere in large structures."""

import numpy as np
from hypothesis import strategies as st

from pv import api, big, gen, model
from pv.engine import Part, Prop

TOL = 1e-6

QUICK = [(24, 20, 3), (40, 8, 6), (13, 12, 11), (60, 45, 1), (300, 3, 2), (90, 5, 5), (17, 16, 8)]
DEEP = [(60, 50, 3), (16, 15, 14), (140, 9, 6), (110, 90, 1), (70, 20, 5)]
BARS = [(1100, 2, 1), (2500, 1, 1), (600, 2, 2), (150, 7, 1), (60, 60, 1)]


@st.composite
def cases(draw, tier, kinds=("electric",), max_used=2200, shapes=QUICK):
    if tier == "thorough":
        (shapes, max_used) = (QUICK + DEEP, max_used * 2)
    case = draw(gen.block_cases(tier, kinds=kinds, freqs=("ac", "ac", "ac", "dc"), max_used=max_used, shapes=list(shapes), max_mat=3, max_src=3))
    # the reactance of a large structure is the one of many elements
    case["wl"] *= draw(st.sampled_from([1.0, 0.3, 0.05]))
    # the closed forms have no digits for far elements
    case["simplify"] = draw(st.sampled_from([20.0, 20.0, 8.0] if max(case["n"]) > 45 else [1000.0, 1000.0, 20.0, 8.0]))
    case["mode"] = draw(st.sampled_from(["face", "voxel"]))
    case["n_pts"] = draw(st.sampled_from([0, 1, 5, 40]))
    case["coupling"] = draw(st.sampled_from(["direct", "direct", "segregated"]))
    return case


def wires(tier):
    return cases(tier)


def magnetics(tier):
    return cases(tier, kinds=gen.MIXED, max_used=900)


def huge(tier):
    return cases("huge", max_used=6000 if tier == "quick" else 20000, shapes=DEEP)


def bars(tier):
    return cases("bars", kinds=gen.MIXED, max_used=3000, shapes=BARS)


def points(prob, count, seed):
    """Evaluation points around the structure, away from the singular points."""
    rng = np.random.default_rng(seed)
    side = np.array(prob.n) * np.array(prob.d)
    pts = []
    while len(pts) < count:
        p = (rng.uniform(-0.7, 0.7, 3)) * side
        a = int(rng.integers(3))
        p[a] = (1 if rng.random() < 0.5 else -1) * (0.5 * side[a] + rng.uniform(1.1, 4.0) * prob.d[a])
        pts.append([float(v) for v in p + np.array(prob.c)])
    return pts


def grid(prob, voxels, values, width=None):
    """Values of voxels as an array over the grid."""
    out = np.zeros((prob.nv,) + (() if width is None else (width,)), dtype=complex)
    if len(voxels):
        out[np.array(voxels)] = values
    if width is None:
        return out.reshape(prob.n, order="F")
    return [out[:, k].reshape(prob.n, order="F") for k in range(width)]


def check(case, ctx):
    prob = gen.Problem(case)
    if not prob.well_posed:
        ctx.trivial("no conductor")
        return
    gen_labels(prob, ctx, case)
    if not any(prob.source_at(i)[1] for i in range(prob.nv) if prob.src[i]):
        ctx.trivial("no excitation")
        return
    prob.pts = points(prob, case["n_pts"], case["order"])
    tol = gen.any_tolerance(case)
    tol["mult_type"] = "fft"
    tol["integral_simplify"] = case["simplify"]
    tol["biot_savart"] = case["mode"]
    tol["solver_options"]["coupling"] = case["coupling"]
    tol["solver_options"]["direct_options"]["n_inner"] = 60
    tol["solver_options"]["segregated_options"]["n_max"] = 60
    (_, sol) = prob.run(tol=tol)
    S = gen.Solution(sol)
    if not S.sw["solver_ok"]:
        ctx.trivial("not converged")
        return
    verify(prob, S, case["simplify"], case["mode"])


def gen_labels(prob, ctx, case):
    cnt = len(prob.electric) + len(prob.magnetic)
    ctx.label("voxels<%d" % (2 ** int(np.ceil(np.log2(cnt + 1)))), "ac" if prob.freq else "dc", case["coupling"], "comps=%d" % min(3, len(prob.comps)))
    if prob.magnetic:
        ctx.label("magnetic")
    if case["simplify"] < 1000:
        ctx.label("simplified")


def verify(prob, S, simplify, mode):
    (n, d) = (prob.n, np.array(prob.d))
    area = (d[1] * d[2], d[0] * d[2], d[0] * d[1])
    vol = float(np.prod(d))
    s = 2j * np.pi * prob.freq
    op = big.Operators(d, n, simplify)
    api.expect(sorted(S.vc) == prob.electric and sorted(S.vm) == prob.magnetic, "the voxels of the solution differ")

    def masked(voxels):
        out = np.zeros(prob.nv, dtype=bool)
        out[np.array(voxels, dtype=int)] = True
        return out.reshape(n, order="F")

    mask_c = masked(prob.electric)
    mask_m = masked(prob.magnetic)
    V = grid(prob, prob.electric, S.var("V_c"))
    Vm = grid(prob, prob.magnetic, S.var("V_m"))
    J = grid(prob, prob.electric, S.var("J_c"), 3)
    B = grid(prob, prob.magnetic, S.var("B_m"), 3)
    rho = grid(prob, prob.electric, [prob.rho_at(i) for i in prob.electric], 3)
    # the susceptibility is chi_re - 1j*chi_im
    nu = grid(prob, prob.magnetic, [[1 / (model.MU0 * z.conjugate()) for z in prob.chi_at(i)] for i in prob.magnetic], 3)
    (I, face_c, left_c) = big.flows(mask_c, J, area)
    (F, face_m, left_m) = big.flows(mask_m, B, area)
    # natural magnitudes: they stay meaningful when a quantity cancels or vanishes by symmetry
    ind = [model.MU0 / area[a] ** 2 * op.val[0, 0, 0] for a in range(3)]
    z_ref = max(api.maxabs(rho[a]) * d[a] / area[a] + abs(s) * ind[a] for a in range(3))
    laws = {i: prob.source_at(i) for i in range(prob.nv) if prob.src[i]}
    drive = max(abs(val) / (1.0 if kind == "current" else z_ref) for (kind, val, _) in laws.values())
    top_i = max(api.maxabs(*I), drive)
    line = max(n)
    top_f = api.maxabs(*F)
    api.expect(left_c <= 1e-12 * line * top_i, "a current of %s leaves the conductor (%s)" % (left_c, top_i))
    api.expect(left_m <= 1e-12 * line * top_f, "a flux of %s leaves the core (%s)" % (left_m, top_f))
    # voltage law of every conductor face
    kirch, size, noise = [], [], []
    R, LI, EI, w_abs = [], [], [], 0.0
    flux = [0.5 * (F[a] + back_of(F[a], a)) for a in range(3)]
    cur = [0.5 * (I[a] + back_of(I[a], a)) for a in range(3)]
    for a in range(3):
        r = np.where(face_c[a], 0.5 * (rho[a] + big.shift(rho[a], a)) * d[a] / area[a], 0.0)
        li = np.where(face_c[a], model.MU0 / area[a] ** 2 * op.apply(I[a]), 0.0)
        la = np.where(face_c[a], model.MU0 / area[a] ** 2 * np.real(op.apply(np.abs(I[a]))), 0.0)
        R.append(r)
        LI.append(li)
        size.append(np.abs(r * I[a]) + abs(s) * la)
        err = np.where(face_c[a], model.MU0 / area[a] ** 2 * op.bound(I[a], "val"), 0.0)
        EI.append(err)
        noise.append(abs(s) * err)
        w_abs += float(np.sum(np.abs(I[a]) * la))
        kirch.append(np.where(face_c[a], V - big.shift(V, a), 0.0) - r * I[a] - s * li)
    KF = [np.zeros(n, dtype=complex) for _ in range(3)]
    KI = [np.zeros(n, dtype=complex) for _ in range(3)]
    EK = [np.zeros(n) for _ in range(3)]
    EM = [np.zeros(n) for _ in range(3)]
    if len(prob.magnetic):
        for (a, b), (cc, sign) in big.EPS.items():
            k = sign / (area[a] * area[b])
            y = op.apply(flux[a], cc, -1)
            err = op.bound(flux[a], "grad")
            EK[b] += np.where(face_c[b], 0.5 * abs(k) * (err + big.shift(err, b)), 0.0)
            KF[b] += np.where(face_c[b], k * 0.5 * (y + big.shift(y, b)), 0.0)
            y = op.apply(cur[b], cc)
            err = op.bound(cur[b], "grad")
            EM[a] += np.where(face_m[a], 0.5 * abs(k) * (err + big.shift(err, a)), 0.0)
            KI[a] += np.where(face_m[a], k * 0.5 * (y + big.shift(y, a)), 0.0)
    for a in range(3):
        kirch[a] = kirch[a] - s * KF[a]
        size[a] = size[a] + abs(s * KF[a])
        noise[a] = noise[a] + abs(s) * EK[a]
    top_v = max(api.maxabs(V), api.maxabs(*size), z_ref * top_i)
    for a in range(3):
        lim = TOL * top_v + noise[a]
        bad = np.abs(kirch[a]) > lim
        if np.any(bad):
            k = np.unravel_index(np.argmax(np.abs(kirch[a]) - lim), n)
            api.expect(False, "voltage law of the face %s along axis %d: residuum %s, voltages %.3e" % (k, a, kirch[a][k], top_v))

    # current law of every voxel
    div = big.outflow(I)
    sdens = grid(prob, prob.electric, S.var("S_c"))
    api.close("divergence of the current", sdens * vol, div, 1e-9 * line, top_i)
    src = np.array(prob.src).reshape(n, order="F")
    inner = mask_c & (src == 0)
    leak = api.maxabs(div[inner]) if np.any(inner) else 0.0
    api.expect(leak <= TOL * top_i, "a current of %s appears in a voxel without source (%s)" % (leak, top_i))
    for k in prob.used_sources():
        got = S.source("src_%d" % k)
        sel = src == k
        (vv, ii) = (V[sel], div[sel])
        api.close("voltage of source %d" % k, got["V"], np.mean(vv), 1e-9, top_v)
        fp = 1.0 if prob.freq == 0 else 0.5
        api.close("current of source %d" % k, got["I"], np.sum(ii), TOL, top_i * np.sqrt(len(ii)))
        api.close("power of source %d" % k, got["S"], fp * np.sum(vv * np.conj(ii)), TOL, fp * top_v * top_i * len(ii))
    flat_v = V.flatten(order="F")
    flat_i = div.flatten(order="F")
    for i, (kind, val, el) in laws.items():
        if kind == "current":
            res = flat_i[i] + el * flat_v[i] - val
            ref = max(top_i, abs(val), abs(el) * top_v)
        else:
            res = flat_v[i] + el * flat_i[i] - val
            ref = max(top_v, abs(val), abs(el) * top_i)
        api.expect(abs(res) <= TOL * ref, "law of the source in voxel %d: residuum %s (%s)" % (i, res, ref))

    # magnetic circuit
    out = big.outflow(F)
    if len(prob.magnetic):
        qdens = grid(prob, prob.magnetic, S.var("Q_m"))
        api.close("divergence of the flux", qdens * vol, out, 1e-9 * line, top_f)
        pot = np.where(mask_m, op.apply(out), 0.0) / (model.MU0 * vol ** 2)
        pabs = np.real(op.apply(np.abs(out))) / (model.MU0 * vol ** 2)
        perr = op.bound(out, "val") / (model.MU0 * vol ** 2)
        RF = [np.where(face_m[a], 0.5 * (nu[a] + big.shift(nu[a], a)) * d[a] / area[a], 0.0) * F[a] for a in range(3)]
        kabs = api.maxabs(*KI)
        top_m = max(api.maxabs(Vm), api.maxabs(*RF), kabs, 1e-3 * max(1.0, line / 60) ** 2 * top_i)
        res = np.where(mask_m, Vm + pot, 0.0)
        lim = TOL * max(top_m, api.maxabs(pabs)) + perr
        api.expect(np.all(np.abs(res) <= lim), "potential of the magnetic charges: residuum %.3e (%.3e)" % (api.maxabs(res), top_m))
        for a in range(3):
            res = np.where(face_m[a], RF[a] - KI[a] - (Vm - big.shift(Vm, a)), 0.0)
            api.expect(np.all(np.abs(res) <= TOL * top_m + EM[a]), "flux law along axis %d: residuum %.3e (%.3e)" % (a, api.maxabs(res), top_m))
    else:
        RF = F

    # losses and energies
    (fp, fw) = (1.0, 0.5) if prob.freq == 0 else (0.5, 0.25)
    pc = [fp * np.abs(I[a]) ** 2 * np.real(R[a]) for a in range(3)]
    pm = [fp * np.real(np.conj(s * F[a]) * RF[a]) for a in range(3)]
    for (name, loss, vox) in (("P_c", pc, prob.electric), ("P_m", pm, prob.magnetic)):
        if vox:
            dens = 0.5 * sum(p + back_of(p, a) for a, p in enumerate(loss)) / vol
            top = max(api.maxabs(dens), fp * (abs(s) * top_f * api.maxabs(*RF) if name == "P_m" else api.maxabs(*R) * top_i ** 2) / vol)
            api.close("loss density " + name, grid(prob, vox, S.var(name)), dens, TOL, top)
    tot_c = float(sum(np.sum(p) for p in pc))
    tot_m = float(sum(np.sum(p) for p in pm))
    abs_m = fp * float(sum(np.sum(np.abs(s * F[a] * RF[a])) for a in range(3)))
    abs_c = fp * float(sum(np.sum(np.abs(R[a]) * np.abs(I[a]) ** 2) for a in range(3)))
    api.close("electric losses", S.integral("P_electric"), tot_c, TOL, abs_c)
    api.close("magnetic losses", S.integral("P_magnetic"), tot_m, TOL, max(abs_m, TOL * abs_c))
    w_e = fw * float(sum(np.real(np.sum(np.conj(I[a]) * LI[a])) for a in range(3)))
    w_m = fw * float(sum(np.real(np.sum(np.conj(I[a]) * KF[a])) for a in range(3)))
    w_abs = fw * w_abs
    w_err = fw * float(sum(np.sum(np.abs(I[a]) * EI[a]) for a in range(3)))
    w_erm = fw * float(sum(np.sum(np.abs(I[a]) * EK[a]) for a in range(3)))
    w_mag = fw * float(sum(np.sum(np.abs(I[a] * KF[a])) for a in range(3)))
    (g_e, g_m, g_t) = (S.integral("W_electric"), S.integral("W_magnetic"), S.integral("W_total"))
    top = max(w_abs, w_mag)
    api.expect(abs(g_e - w_e) <= TOL * top + w_err, "electric energy %s instead of %s" % (g_e, w_e))
    api.expect(abs(g_m - w_m) <= TOL * top + w_erm, "magnetic energy %s instead of %s" % (g_m, w_m))
    api.expect(abs(g_t - w_e - w_m) <= TOL * top + w_err + w_erm, "total energy %s instead of %s" % (g_t, w_e + w_m))
    api.close("total losses", S.integral("P_total"), tot_c + tot_m, TOL, max(abs_c, abs_m))

    # field at the points
    got = np.asarray(S.var("H_p"))
    api.expect(len(got) == len(prob.pts), "number of points")
    if len(prob.pts):
        (ref, top) = field(prob, n, d, area, I, cur, out, mode, mask_c)
        api.close("field at the points", got, ref, TOL, top)


def back_of(x, a):
    """Sum with the value of the previous face: both faces of a voxel."""
    return big.back(x, a)


def field(prob, n, d, area, I, cur, out, mode, mask_c):
    """Biot-Savart field of the currents and field of the magnetic charges (direct sums)."""
    (x, y, z) = np.meshgrid(*[prob.c[a] + (np.arange(n[a]) + 0.5 - n[a] / 2) * d[a] for a in range(3)], indexing="ij")
    pos = np.stack([x, y, z], axis=-1).reshape(-1, 3)
    elements = []
    for a in range(3):
        e = np.eye(3)[a]
        flow = (I if mode == "face" else cur)[a].reshape(-1)
        use = np.flatnonzero(flow)
        elements.append((pos[use] + (0.5 * d[a] * e if mode == "face" else 0.0), flow[use, None] * d[a] * e[None, :]))
    at = np.concatenate([p for (p, _) in elements])
    vec = np.concatenate([v for (_, v) in elements])
    q = out.reshape(-1)
    hot = np.flatnonzero(q)
    (res, top) = ([], 0.0)
    for p in np.array(prob.pts):
        r = p - at
        h = np.cross(vec, r) / (4 * np.pi * np.linalg.norm(r, axis=1) ** 3)[:, None]
        r = p - pos[hot]
        g = -q[hot, None] * r / (4 * np.pi * model.MU0 * np.linalg.norm(r, axis=1) ** 3)[:, None]
        res.append(np.sum(h, axis=0) + np.sum(g, axis=0))
        top = max(top, float(np.sum(np.abs(h))), float(np.sum(np.abs(g))))
    return np.array(res), top


PROP = Prop("C39", [
    Part("electric", wires, check, quick=140, thorough=1500),
    Part("magnetic", magnetics, check, quick=100, thorough=1000),
    Part("huge", huge, check, quick=16, thorough=300),
    Part("bars", bars, check, quick=24, thorough=600),
], rule="conductors and cores of hundreds to thousands of voxels (boxes with holes and random gaps, plates, bars), all the faces and voxels checked "
        "against matrix-free equations with an own kernel; trivial without excitation or if the solver reports that it has not converged",
    quick_s=100)
