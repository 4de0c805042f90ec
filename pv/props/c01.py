"""C01: voxel index arrays."""

import numpy as np
from hypothesis import strategies as st

from pv import api, gen
from pv.engine import Part, Prop

NAMES = ["a", "b", "src", "dom 3", "Zed"]


@st.composite
def _grid(draw, tier):
    big = draw(st.integers(0, 9)) == 0
    hi = (12 if tier == "quick" else 30) if big else 5
    n = [draw(st.integers(1, hi)) for _ in range(3)]
    d = [draw(st.sampled_from([1.0, 0.5, 1e-3, 3.7e-5, 2.0])) for _ in range(3)]
    c = [draw(st.sampled_from([0.0, 1.0, -2.5, 1e-3])) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    n_dom = draw(st.integers(1, 4))
    if big:
        rng = np.random.default_rng(draw(st.integers(0, 10**6)))
        lab = [int(v) for v in rng.integers(-1, n_dom, nv)]
    else:
        lab = [draw(st.integers(-1, n_dom - 1)) for _ in range(nv)]
    return {"n": n, "d": d, "c": c, "lab": lab, "n_dom": n_dom, "order": draw(st.integers(0, 5))}


@st.composite
def large(draw, tier):
    return dict(draw(gen.coarse(tier)), d=[draw(st.sampled_from([1.0, 3.7e-5])) for _ in range(3)],
                c=[draw(st.sampled_from([0.0, -2.5])) for _ in range(3)], order=draw(st.integers(0, 5)))


def _domains(case):
    dom = {k: [] for k in gen.domain_names(NAMES, case["n_dom"])[:case["n_dom"]]}
    names = list(dom)
    for i, v in enumerate(gen.expand(case)["lab"]):
        if v >= 0:
            dom[names[v]].append(i)
    if case["order"]:
        rng = np.random.default_rng(case["order"])
        dom = {k: [v[i] for i in rng.permutation(len(v))] for k, v in dom.items()}
    return dom


def check_valid(case, ctx):
    dom = _domains(case)
    geo = api.geometry_voxel(case["n"], case["d"], case["c"], dom)
    out = api.mesh(geo)
    api.expect(out["status"] is True, "status is %r" % (out["status"],))
    data = out["data_geom"]
    ctx.label("n_dom=%d" % min(len(dom), 5), "flat" if 1 in case["n"] else "3d", "big" if max(case["n"]) > 5 else "small")
    if not any(dom.values()):
        ctx.trivial("empty structure")
    api.expect([int(v) for v in data["n"]] == case["n"], "voxel number %s instead of %s" % (data["n"], case["n"]))
    api.expect([float(v) for v in data["d"]] == case["d"], "voxel size %s instead of %s" % (data["d"], case["d"]))
    api.expect([float(v) for v in data["c"]] == case["c"], "centre %s instead of %s" % (data["c"], case["c"]))
    api.close("structure size", data["s"], [a * b for a, b in zip(case["n"], case["d"])], 1e-12)
    api.expect(data["reference"] is None, "a voxel structure should have no reference mesh")
    api.expect(set(data["domain_def"]) == set(dom), "domains %s instead of %s" % (list(data["domain_def"]), list(dom)))
    for tag, idx in dom.items():
        got = [int(v) for v in data["domain_def"][tag]]
        api.expect(sorted(got) == sorted(idx), "domain %s holds %s instead of %s" % (tag, sorted(got)[:20], sorted(idx)[:20]))


@st.composite
def invalid(draw, tier):
    case = draw(_grid("none"))
    case["bad"] = draw(st.sampled_from(["high", "high", "neg", "dup", "dup", "n_zero", "n_neg", "d_zero", "d_neg", "over"]))
    case["dom"] = draw(st.integers(0, 3))
    case["pos"] = draw(st.integers(0, 200))
    case["axis"] = draw(st.integers(0, 2))
    case["off"] = draw(st.sampled_from([0, 1, 5, 1000]))
    # later steps that could hide the defect
    case["later"] = draw(st.sampled_from([None, None, "random", "random", "rules", "reduce", "resample"]))
    return case


def check_invalid(case, ctx):
    dom = _domains(case)
    (n, d) = (list(case["n"]), list(case["d"]))
    nv = n[0] * n[1] * n[2]
    tag = list(dom)[case["dom"] % len(dom)]
    lst = dom[tag]
    bad = case["bad"]
    pos = case["pos"] % (len(lst) + 1)
    if bad == "high":
        lst.insert(pos, nv + case["off"])
    elif bad == "over":
        # outside by one voxel in the last layer only
        lst.insert(pos, nv)
    elif bad == "neg":
        lst.insert(pos, -1 - case["off"])
    elif bad == "dup":
        if not lst:
            lst.append(case["pos"] % nv)
            for k, v in dom.items():
                if k != tag and lst[0] in v:
                    v.remove(lst[0])
        lst.insert(pos, lst[case["pos"] % len(lst)])
    elif bad == "n_zero":
        n[case["axis"]] = 0
    elif bad == "n_neg":
        n[case["axis"]] = -n[case["axis"]]
    elif bad == "d_zero":
        d[case["axis"]] = 0.0
    elif bad == "d_neg":
        d[case["axis"]] = -d[case["axis"]]
    if bad == "d_zero":
        pass
    later = case.get("later")
    ctx.label(bad, str(later))
    import pypeec
    rules = [{"domain_resolve": [tag], "domain_keep": [k for k in dom if k != tag][:1]}] if later == "rules" and len(dom) > 1 else None
    geo = api.geometry_voxel(n, d, case["c"], dom, random=later == "random", rules=rules, reduce=later == "reduce",
                             resample=[2, 1, 2] if later == "resample" else None)
    api.refused("voxel structure with a defect (%s)" % bad, pypeec.run_mesher_data, geo)


PROP = Prop("C01", [
    Part("valid", _grid, check_valid, quick=2400, thorough=40000),
    Part("large", large, check_valid, quick=160, thorough=5000),
    Part("invalid", invalid, check_invalid, quick=1200, thorough=16000),
], rule="random grids (up to 12 voxels per axis, 30 in the thorough tier), random disjoint domains with shuffled voxel "
        "lists, and the same with one injected defect; a case is trivial when no domain has a voxel")
