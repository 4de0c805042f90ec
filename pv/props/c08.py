"""C08: evaluation points."""

import numpy as np
from hypothesis import strategies as st

from pv import api, gen, model
from pv.engine import Part, Prop


@st.composite
def cases(draw, tier):
    n = [draw(st.integers(1, 4)) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    w = draw(st.integers(1, 10))
    lab = [draw(st.sampled_from([-1] * w + [0, 1])) for _ in range(nv)]
    # points in eighths of a voxel relative to the lower corner
    n_pts = draw(st.sampled_from([0, 1, 2, 3, 6, 10]))
    pts = [[draw(st.integers(-16, 8 * n[a] + 16)) for a in range(3)] for _ in range(n_pts)]
    return {
        "n": n, "lab": lab, "pts": pts, "d": [draw(st.sampled_from([1.0, 0.5, 2.0, 1e-3])) for _ in range(3)],
        "c": [draw(st.sampled_from([0.0, 1.0, -0.25, 5000.0])) for _ in range(3)],
        "check": draw(st.sampled_from([True, True, True, False])), "full": draw(st.booleans()),
        "reduce": draw(st.integers(0, 4)) == 0, "factor": draw(st.sampled_from([None, None, None, [2, 1, 3]])),
    }


@st.composite
def large(draw, tier):
    case = draw(gen.coarse(tier, max_dom=2))
    return dict(case, pts={"seed": draw(st.integers(0, 10 ** 6)), "n": draw(st.sampled_from([40, 150, 700])), "wide": draw(st.sampled_from([0, 16, 2000]))},
                d=[draw(st.sampled_from([1.0, 0.5, 1e-3])) for _ in range(3)], c=[draw(st.sampled_from([0.0, -0.25, 5000.0])) for _ in range(3)],
                check=True, full=draw(st.sampled_from([False, False, True])), reduce=draw(st.booleans()), factor=draw(st.sampled_from([None, [2, 1, 3]])))


def check(case, ctx):
    case = gen.expand(case)
    import pypeec
    (n, d, c) = (case["n"], np.array(case["d"]), np.array(case["c"]))
    dom = {"a": [i for i, v in enumerate(case["lab"]) if v == 0], "b": [i for i, v in enumerate(case["lab"]) if v == 1]}
    used = dom["a"] + dom["b"]
    corner = c - np.array(n) * d / 2
    # shift off the lattice planes: no comparison is decided by rounding
    if isinstance(case["pts"], dict):
        spec = case["pts"]
        rng = np.random.default_rng(spec["seed"])
        case["pts"] = [[int(rng.integers(-spec["wide"], 8 * n[a] + spec["wide"])) for a in range(3)] for _ in range(spec["n"])]
    pts = [[float(corner[a] + (p[a] + 0.5) / 8 * d[a]) for a in range(3)] for p in case["pts"]]
    if not used and case["reduce"]:
        ctx.trivial("no voxel")
        return
    cen = np.array([model.center(n, d, c, i) for i in used]).reshape(-1, 3)
    valid = []
    for p in pts:
        dist = np.abs(cen - np.array(p))
        valid.append(not bool(np.any(np.all(dist <= d, axis=1))))
    ctx.label("check=%s" % case["check"], "full=%s" % case["full"], "n_pts=%d" % min(3, len(pts)), "invalid=%d" % min(2, valid.count(False)))
    if not pts or not used:
        ctx.trivial("no point or no voxel")
    # the points refer to the described voxels (before the resampling of the structure)
    geo = api.geometry_voxel(n, case["d"], case["c"], dom, pts=pts, check_cloud=case["check"], full_cloud=case["full"],
                             reduce=case["reduce"], resample=case["factor"])
    (ok, res) = api.attempt(pypeec.run_mesher_data, geo)
    if case["check"] and case["full"] and not all(valid):
        api.expect(not ok, "points %s too close to the structure are accepted" % [p for p, v in zip(pts, valid) if not v])
        return
    if not ok:
        raise res
    want = [p for p, v in zip(pts, valid) if v or not case["check"]]
    got = np.asarray(res["data_geom"]["pts_cloud"], dtype=float)
    api.expect(len(got) == len(want), "%d points instead of %d" % (len(got), len(want)))
    if want:
        api.expect(got.shape == (len(want), 3) and np.array_equal(got, np.array(want)), "points %s instead of %s" % (got.tolist(), want))
    api.expect(res["data_geom"]["voxel_status"]["n_cloud"] == len(want), "the summary counts another number of points")


PROP = Prop("C08", [Part("cloud", cases, check, quick=4000, thorough=80000), Part("large", large, check, quick=160, thorough=4000)],
            rule="random voxel structures and points on an eighth-voxel lattice around them; trivial without a point or a voxel")
