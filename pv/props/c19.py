"""C19: moves, padding, mirroring, axis permutation and scaling."""

import itertools

import numpy as np
from hypothesis import strategies as st

from pv import api, gen
from pv.engine import Part, Prop

TOL = 2e-6
PERMS = list(itertools.permutations(range(3)))


@st.composite
def cases(draw, tier, block=False):
    case = draw(gen.mixed(tier, block, kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_nv=24, max_src=2, pts=True, embed=False))
    case["perm"] = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5]))
    case["flip"] = [draw(st.booleans()) for _ in range(3)]
    case["lo"] = [draw(st.sampled_from([0, 0, 0, 1, 2, 7])) for _ in range(3)]
    case["hi"] = [draw(st.sampled_from([0, 0, 0, 1, 3, 6])) for _ in range(3)]
    case["shift"] = [draw(st.sampled_from([0.0, 0.0, 1.0, -3.5])) for _ in range(3)]
    case["voxel"] = draw(st.booleans())
    return case


def check(case, ctx):
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    perm = PERMS[case["perm"]]
    sc = prob.scale
    (other, vmap) = prob.moved(perm, case["flip"], case["lo"], case["hi"], [v * sc for v in case["shift"]])
    ctx.label("perm=%d%d%d" % perm, "mirror=%d" % sum(case["flip"]))
    if any(case["lo"] + case["hi"]):
        ctx.label("padded")
    tol = gen.any_tolerance(case)
    tol["biot_savart"] = "voxel" if case["voxel"] else "face"
    (_, sa) = prob.run(tol)
    (_, sb) = other.run(tol)
    (A, B) = (gen.Solution(sa), gen.Solution(sb))
    sign = np.array([-1.0 if f else 1.0 for f in case["flip"]])
    parity = sum(1 for i in range(3) for j in range(i) if perm[j] > perm[i]) % 2
    det = np.prod(sign) * (-1 if parity else 1)
    for name in gen.ELECTRIC + gen.MAGNETIC:
        (fa, fb) = (A.field(name), B.field(name))
        api.expect(sorted(vmap[i] for i in fa) == sorted(fb), name + ": other voxels")
        idx = sorted(fa)
        if not idx:
            continue
        va = np.array([fa[i] for i in idx])
        vb = np.array([fb[vmap[i]] for i in idx])
        if name == "J_c":
            va = va[:, perm] * sign
        elif name == "B_m":
            va = va[:, perm] * sign * det
        elif name in ("V_m", "Q_m"):
            # pseudo-scalars: the charges of an axial field change sign with the handedness
            va = va * det
        api.close("transformed problem: " + name, vb, va, TOL, floor[name])
    api.close("transformed problem: H_p", B.var("H_p"), A.var("H_p")[:, perm] * sign * det, TOL, floor["H_p"])
    for name in gen.INTEGRAL:
        api.close("transformed problem: " + name, B.integral(name), A.integral(name), TOL, floor[name])
    for src in A.sw["source"]:
        for q in ("V", "I", "S"):
            api.close("transformed problem: %s of %s" % (q, src), B.source(src)[q], A.source(src)[q], TOL, floor[q])
    for mat in A.sw["material"]:
        for q in ("P_electric", "P_magnetic"):
            api.close("transformed problem: %s of %s" % (q, mat), B.sw["material"][mat][q], A.sw["material"][mat][q], TOL, floor[q])


@st.composite
def scaled(draw, tier, block=False):
    case = draw(gen.mixed(tier, block, kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_nv=24, max_src=2, pts=True, scales=(1.0,)))
    case["k"] = draw(st.sampled_from([1e-3, 1e-2, 2.0, 0.125, 20.0]))
    case["g"] = draw(st.sampled_from([1.0, 1.0, 4.0, 0.1, 25.0]))
    case["voxel"] = draw(st.booleans())
    return case


def check_scaled(case, ctx):
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    import copy
    (k, g) = (case["k"], case["g"])
    q = copy.copy(prob)
    q.d = [v * k for v in prob.d]
    q.c = [v * k for v in prob.c]
    q.pts = [[v * k for v in p] for p in prob.pts]
    q.freq = prob.freq * g / k
    q.scale = prob.scale * g * k
    # currents stay, voltages and impedances grow with g
    q.sources = []
    for s in prob.sources:
        s = dict(s)
        if s["type"] == "voltage":
            for key in ("re", "im", "el_re", "el_im"):
                s[key] = s[key] * g
        else:
            for key in ("el_re", "el_im"):
                s[key] = s[key] / g
        q.sources.append(s)
    tol = gen.any_tolerance(case)
    tol["biot_savart"] = "voxel" if case["voxel"] else "face"
    tol["solver_options"]["direct_options"]["rel_tol"] = 1e-12
    (_, sa) = prob.run(tol)
    (_, sb) = q.run(tol)
    (A, B) = (gen.Solution(sa), gen.Solution(sb))
    ctx.label("k=%g" % k, "g=%g" % g)
    fac = {"V_c": g, "J_c": k ** -2, "S_c": k ** -3, "P_c": g * k ** -3, "V_m": 1.0, "B_m": 1 / k, "Q_m": k ** -2, "P_m": g * k ** -3, "H_p": 1 / k}
    for name, f in fac.items():
        api.close("scaled lengths: " + name, B.var(name), f * A.var(name), 2e-5, f * floor[name])
    ifac = {"P_electric": g, "P_magnetic": g, "P_total": g, "W_electric": k, "W_magnetic": k, "W_total": k, "S_total": g}
    for name, f in ifac.items():
        api.close("scaled lengths: " + name, B.integral(name), f * A.integral(name), 2e-5, f * floor[name])
    for src in A.sw["source"]:
        for t, f in (("V", g), ("I", 1.0), ("S", g)):
            api.close("scaled lengths: %s of %s" % (t, src), B.source(src)[t], f * A.source(src)[t], 2e-5, f * floor[t])


PROP = Prop("C19", [
    Part("moved", cases, check, quick=700, thorough=20000),
    Part("block", lambda tier: cases(tier, block=True), check, quick=40, thorough=2000),
    Part("scaled block", lambda tier: scaled(tier, block=True), check_scaled, quick=24, thorough=1000),
    Part("scaled", scaled, check_scaled, quick=350, thorough=10000),
], rule="random mixed problems and their image under a random axis permutation, mirroring, padding and shift, or under a change of the "
        "length and impedance scale; trivial without face or excitation")
