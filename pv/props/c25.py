"""C25: magnetic field at the evaluation points."""

import numpy as np
from hypothesis import strategies as st

from pv import api, gen, model
from pv.engine import Part, Prop

TOL = 1e-6


@st.composite
def cases(draw, tier, block=False):
    case = draw(gen.mixed(tier, block, kinds=draw(st.sampled_from([gen.MIXED, ("electric",)])), freqs=("dc", "ac"), max_nv=27, max_src=2))
    m = draw(st.sampled_from([1, 2, 4, 7]))
    # points on a half-voxel lattice and anywhere, inside and outside of the grid
    case["pts"] = [[draw(st.integers(-30, 60)) / 6.0 + draw(st.sampled_from([0.0, 0.07, 0.031])) for _ in range(3)] for _ in range(m)]
    if block:
        # many points (some of them twice)
        rng = np.random.default_rng(draw(st.integers(0, 10 ** 6)))
        m = draw(st.sampled_from([30, 110, 260]))
        pts = rng.uniform(-3, np.array(case["n"]) + 3, (m, 3))
        pts[rng.integers(0, m, 4)] = pts[rng.integers(0, m, 4)]
        case["pts"] += pts.tolist()
    # points which are very close to the previous one
    if draw(st.integers(0, 2)) == 0:
        eps = draw(st.sampled_from([1e-7, 1e-5, 1e-3]))
        case["pts"] = [[v + k * eps for v in p] for p in case["pts"] for k in range(2 if len(case["pts"]) < 8 else 1)]
    case["mode"] = draw(st.sampled_from(["face", "voxel"]))
    case["perm"] = draw(st.integers(1, 1000))
    case["far"] = draw(st.sampled_from([1, 1, 1, 1000]))
    return case


def check(case, ctx):
    pts_rel = case["pts"]
    (prob, ref, _) = gen.setup_case(dict(case, pts=[]), ctx)
    if prob is None:
        return
    corner = [prob.c[a] - 0.5 * prob.n[a] * prob.d[a] for a in range(3)]
    pts = [[float(corner[a] + case["far"] * p[a] * prob.d[a]) for a in range(3)] for p in pts_rel]
    # keep away from the singular points (centers of the voxels and of the faces)
    keep = []
    lattice = [model.center(prob.n, prob.d, prob.c, v) for v in set(ref.vc) | set(ref.vm)]
    lattice += [0.5 * (model.center(prob.n, prob.d, prob.c, i) + model.center(prob.n, prob.d, prob.c, j)) for (_, i, j) in ref.fc]
    lattice = np.array(lattice)
    inside = False
    for p in pts:
        r = float(np.min(np.max(np.abs((np.array(p) - lattice) / prob.d), axis=1)))
        if r > 0.05:
            keep.append(p)
            inside = inside or r < 0.5
    if not keep:
        ctx.trivial("no point")
        return
    pts = keep
    ctx.label(case["mode"], "points=%s" % (len(pts) if len(pts) < 8 else "many"), "near" if inside else "apart")
    tol = gen.any_tolerance(case)
    tol["biot_savart"] = case["mode"]
    prob.pts = pts
    (vox, sol) = prob.run(tol)
    S = gen.Solution(sol)
    got = S.var("H_p")
    exp = ref.field(pts, case["mode"])
    api.expect(np.shape(got) == (len(pts), 3), "field with the shape %s" % (np.shape(got),))
    for k, p in list(enumerate(pts))[-12:]:
        one = ref.field([p], case["mode"])
        api.close("field at point %d" % k, got[k], one[0], TOL, 1e-2 * ref.h_floor)
    api.expect(np.array_equal(np.asarray(sol["data_init"]["pts_cloud"]), np.array(pts)), "evaluation points differ")
    # order and subset do not matter
    order = gen.shuffled(range(len(pts)), case["perm"])
    order = order[:1 + case["perm"] % len(order)]
    prob.pts = [pts[k] for k in order]
    (_, other) = prob.run(tol)
    ref.field(pts, case["mode"])
    api.close("field at a subset of the points", gen.Solution(other).var("H_p"), got[order], TOL, ref.h_floor)
    api.close("all points", got, exp, TOL, ref.h_floor)


PROP = Prop("C25", [
    Part("field", cases, check, quick=1200, thorough=30000),
    Part("block", lambda tier: cases(tier, block=True), check, quick=60, thorough=2500),
    Part("large", lambda tier: cases(tier, block="large"), check, quick=16, thorough=300),
], rule="random electric and mixed problems with points inside and outside of the grid (away from the centers of the elements), both "
        "Biot-Savart modes, against the sum over the elements of the reference solution; trivial without face, excitation or points")
