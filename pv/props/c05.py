"""C05: reduction and resampling."""

import numpy as np
from hypothesis import strategies as st

from pv import api, gen
from pv.engine import Part, Prop

NAMES = ["q", "b", "src"]


@st.composite
def cases(draw, tier):
    hi = 5 if tier == "quick" else 8
    n = [draw(st.integers(1, hi)) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    n_dom = draw(st.integers(1, 3))
    # a few filled voxels leave borders to be removed
    lab = [-1] * nv
    for _ in range(draw(st.integers(0, min(nv, 12)))):
        lab[draw(st.integers(0, nv - 1))] = draw(st.integers(0, n_dom - 1))
    return {
        "n": n, "n_dom": n_dom, "lab": lab,
        "d": [draw(st.sampled_from([1.0, 0.5, 1e-3, 0.3])) for _ in range(3)],
        "c": [draw(st.sampled_from([0.0, 1.0, -0.25])) for _ in range(3)],
        "reduce": draw(st.booleans()),
        "factor": draw(st.one_of(st.none(), st.lists(st.integers(1, 4), min_size=3, max_size=3))),
        "order": draw(st.integers(0, 4)),
    }


@st.composite
def large(draw, tier):
    return dict(draw(gen.coarse(tier)), d=[draw(st.sampled_from([1.0, 0.3])) for _ in range(3)], c=[draw(st.sampled_from([0.0, -0.25])) for _ in range(3)],
                reduce=draw(st.booleans()), factor=draw(st.sampled_from([None, None, [2, 1, 1], [1, 1, 3], [1, 2, 1]])), order=draw(st.integers(0, 4)))


def check(case, ctx):
    case = gen.expand(case)
    (n, d, c) = (np.array(case["n"]), np.array(case["d"]), np.array(case["c"]))
    names = gen.domain_names(NAMES, case["n_dom"])
    dom = {names[k]: [] for k in range(case["n_dom"])}
    for i, v in enumerate(case["lab"]):
        if v >= 0:
            dom[names[v]].append(i)
    if case["order"]:
        rng = np.random.default_rng(case["order"])
        dom = {k: [v[i] for i in rng.permutation(len(v))] for k, v in dom.items()}
    if not any(dom.values()):
        ctx.trivial("no voxel")
        if case["reduce"]:
            return
    out = api.mesh(api.geometry_voxel(case["n"], case["d"], case["c"], dom, resample=case["factor"], reduce=case["reduce"]))["data_geom"]
    (n2, d2, c2) = (np.array(out["n"]), np.array(out["d"], dtype=float), np.array(out["c"], dtype=float))
    f = np.array(case["factor"] or [1, 1, 1])
    ctx.label("reduce=%s" % case["reduce"], "resample" if case["factor"] else "no resample")

    def tensor(i):
        return np.array([i % n[0], (i // n[0]) % n[1], i // (n[0] * n[1])])
    used = np.array([tensor(i) for v in dom.values() for i in v])
    (lo, hi) = (np.zeros(3, dtype=int), n.copy())
    if case["reduce"]:
        (lo, hi) = (used.min(axis=0), used.max(axis=0) + 1)
    want_n = (hi - lo) * f
    api.expect(list(n2) == list(want_n), "grid %s instead of %s" % (n2, want_n))
    api.close("voxel size", d2, d / f, 1e-12)
    corner = c - n * d / 2 + lo * d
    scale = float(np.max(np.abs(c)) + np.max(n * d))
    api.expect(np.max(np.abs((c2 - n2 * d2 / 2) - corner)) < 1e-12 * scale, "lower corner %s instead of %s" % (c2 - n2 * d2 / 2, corner))
    api.close("structure size", out["s"], n2 * d2, 1e-12)
    if case["factor"] is None and not case["reduce"]:
        api.expect(list(c2) == list(c), "centre %s instead of %s" % (c2, c))
    api.expect(list(out["domain_def"]) == list(dom), "domains %s" % list(out["domain_def"]))
    for tag, idx in dom.items():
        want = set()
        for i in idx:
            t = (tensor(i) - lo) * f
            for a in range(f[0]):
                for b in range(f[1]):
                    for e in range(f[2]):
                        want.add(int((t[0] + a) + want_n[0] * (t[1] + b) + want_n[0] * want_n[1] * (t[2] + e)))
        got = [int(v) for v in out["domain_def"][tag]]
        api.expect(len(got) == len(set(got)), "domain %s has repeated voxels" % tag)
        api.expect(set(got) == want, "domain %s: missing %s, additional %s" % (tag, sorted(want - set(got))[:5], sorted(set(got) - want)[:5]))


PROP = Prop("C05", [Part("space", cases, check, quick=3200, thorough=60000), Part("large", large, check, quick=120, thorough=3000)],
            rule="random sparse voxel structures with reduction on or off and a resampling factor up to 4 per axis; trivial without any voxel")
