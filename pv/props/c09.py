"""C09: summary of the voxel structure."""

from hypothesis import strategies as st

from pv import api, gen, model
from pv.engine import Part, Prop

NAMES = ["a", "b", "c"]


@st.composite
def cases(draw, tier):
    n = [draw(st.integers(1, 5)) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    n_dom = draw(st.integers(1, 3))
    w = draw(st.integers(1, 10))
    return {
        "n": n, "n_dom": n_dom, "lab": [draw(st.sampled_from([-1] * w + list(range(n_dom)))) for _ in range(nv)],
        "d": [draw(st.sampled_from([1.0, 0.5, 2.0, 1e-3, 0.3])) for _ in range(3)],
        "c": [draw(st.sampled_from([0.0, 1.0, -0.25])) for _ in range(3)],
        "pts": draw(st.integers(0, 3)), "reduce": draw(st.booleans()),
        "factor": draw(st.one_of(st.none(), st.lists(st.integers(1, 3), min_size=3, max_size=3))),
        "overlap": draw(st.booleans()),
    }


@st.composite
def large(draw, tier):
    return dict(draw(gen.coarse(tier)), d=[draw(st.sampled_from([1.0, 0.3])) for _ in range(3)], c=[0.0, 1.0, -0.25], pts=draw(st.sampled_from([0, 3, 300])),
                reduce=draw(st.booleans()), factor=draw(st.sampled_from([None, None, [2, 1, 1]])), overlap=draw(st.booleans()))


def check(case, ctx):
    case = gen.expand(case)
    NAMES = gen.domain_names(globals()["NAMES"], case["n_dom"])
    dom = {NAMES[k]: [] for k in range(case["n_dom"])}
    for i, v in enumerate(case["lab"]):
        if v >= 0:
            dom[NAMES[v]].append(i)
    if not any(dom.values()):
        ctx.trivial("no voxel")
        if case["reduce"]:
            return
    rules = None
    if case["overlap"] and case["n_dom"] > 1 and dom[NAMES[0]]:
        # shared voxels are counted once after the resolution
        have = set(dom[NAMES[1]])
        for i in dom[NAMES[0]]:
            if i not in have:
                dom[NAMES[1]].append(i)
        rules = [{"domain_resolve": [NAMES[1]], "domain_keep": [NAMES[0]]}]
    pts = [[500.0 + i, 0.0, 1.0] for i in range(case["pts"])]
    out = api.mesh(api.geometry_voxel(case["n"], case["d"], case["c"], dom, pts=pts, check_cloud=True, full_cloud=True,
                                      reduce=case["reduce"], resample=case["factor"], rules=rules))["data_geom"]
    (n, d) = ([int(v) for v in out["n"]], [float(v) for v in out["d"]])
    idx = [int(i) for v in out["domain_def"].values() for i in v]
    vol = d[0] * d[1] * d[2]
    s = [a * b for a, b in zip(n, d)]
    total = n[0] * n[1] * n[2]
    comps = model.components(n, idx)
    ctx.label("reduce=%s" % case["reduce"], "resample" if case["factor"] else "plain", "comps=%d" % min(3, len(comps)))
    want = {
        "n_total": total, "n_used": len(idx), "A_xy": s[0] * s[1], "A_yz": s[1] * s[2], "A_xz": s[0] * s[2],
        "V_total": total * vol, "V_used": len(idx) * vol, "ratio": len(idx) / total, "n_domain": len(out["domain_def"]),
        "n_graph": len(comps), "n_cloud": len(pts),
    }
    got = out["voxel_status"]
    for key, val in want.items():
        api.expect(key in got, "%s is missing in the summary" % key)
        api.expect(abs(got[key] - val) <= 1e-12 * abs(val), "%s is %s instead of %s" % (key, got[key], val))
    api.close("structure size", out["s"], s, 1e-12)
    api.expect(len(out["graph_def"]) == len(comps), "number of components")
    # what was described
    f = case["factor"] or [1, 1, 1]
    scale = f[0] * f[1] * f[2]
    api.expect(len(idx) == scale * len(set(i for v in dom.values() for i in v)), "number of used voxels")
    v0 = case["d"][0] * case["d"][1] * case["d"][2]
    api.expect(abs(got["V_used"] - v0 * len(idx) / scale) <= 1e-9 * v0 * max(1, len(idx)), "used volume")


PROP = Prop("C09", [Part("summary", cases, check, quick=3000, thorough=60000), Part("large", large, check, quick=120, thorough=3000)],
            rule="random voxel structures with reduction, resampling and resolved conflicts, counted independently; trivial without any voxel")
