"""C06: conflict resolution."""

from hypothesis import strategies as st

import numpy as np

from pv import api, gen
from pv.engine import Part, Prop

NAMES = ["a", "b", "c", "d"]


@st.composite
def cases(draw, tier):
    n = [draw(st.integers(1, 4)) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    n_dom = draw(st.integers(2, 4))
    p_over = draw(st.integers(0, 3))
    dom = [[] for _ in range(n_dom)]
    for i in range(nv):
        k = draw(st.integers(-1, n_dom - 1))
        if k >= 0:
            dom[k].append(i)
        if p_over and draw(st.integers(0, 4)) < p_over:
            q = draw(st.integers(0, n_dom - 1))
            if i not in dom[q]:
                dom[q].append(i)
    rules = []
    for _ in range(draw(st.integers(0, 5))):
        perm = draw(st.permutations(range(n_dom)))
        cut = draw(st.integers(1, n_dom - 1))
        end = draw(st.integers(cut + 1, n_dom))
        rules.append([list(perm[:cut]), list(perm[cut:end])])
    return {"n": n, "dom": dom, "rules": draw(st.sampled_from([None, rules, rules])), "off_rules": rules,
            "random": draw(st.sampled_from([False, False, True])), "unknown": draw(st.sampled_from([0] * 12 + [1, 2]))}


@st.composite
def large(draw, tier):
    """Many domains on one grid, mostly disjoint after the rules."""
    n = draw(st.sampled_from([[12, 10, 3], [30, 1, 9], [7, 7, 7]]))
    n_dom = draw(st.sampled_from([6, 15, 40, 130]))
    case = {"n": n, "dom": {"seed": draw(st.integers(0, 10 ** 6)), "n_dom": n_dom, "over": draw(st.sampled_from([0.0, 0.1, 0.6]))}, "unknown": 0}
    perm = draw(st.permutations(range(n_dom)))
    kind = draw(st.sampled_from(["chain", "first", "few", "none"]))
    if kind == "chain":
        rules = [[list(perm[k + 1:]), [perm[k]]] for k in range(n_dom - 1)]
    elif kind == "first":
        rules = [[[perm[k]], list(perm[:k])] for k in range(1, n_dom)]
    else:
        rules = [[list(perm[:3]), list(perm[3:5])], [[perm[4]], [perm[5]]]][:2 if kind == "few" else 0]
    return dict(case, rules=rules, off_rules=rules, random=draw(st.sampled_from([False, False, True])))


def _domains(case):
    spec = case["dom"]
    if not isinstance(spec, dict):
        return spec
    rng = np.random.default_rng(spec["seed"])
    nv = int(np.prod(case["n"]))
    dom = [[] for _ in range(spec["n_dom"])]
    for i in range(nv):
        k = int(rng.integers(-1, spec["n_dom"]))
        if k >= 0:
            dom[k].append(i)
        while rng.random() < spec["over"]:
            q = int(rng.integers(0, spec["n_dom"]))
            if i not in dom[q]:
                dom[q].append(i)
    return dom


def check(case, ctx):
    import pypeec
    case = dict(case, dom=_domains(case))
    NAMES = gen.domain_names(globals()["NAMES"], len(case["dom"]))
    dom = {NAMES[k]: v for k, v in enumerate(case["dom"])}
    conv = [{"domain_resolve": [NAMES[k] for k in r], "domain_keep": [NAMES[k] for k in q]} for (r, q) in case["off_rules"]]
    rules = None if case["rules"] is None else [dict(r) for r in conv]
    unknown = False
    if rules and case["unknown"]:
        key = "domain_keep" if case["unknown"] == 1 else "domain_resolve"
        rules[-1] = dict(rules[-1], **{key: rules[-1][key] + ["nothing"]})
        unknown = True
    geo = api.geometry_voxel(case["n"], [1.0] * 3, [0.0] * 3, dom, rules=rules, random=case["random"])
    if rules is None:
        # the rules are switched off
        geo["data_conflict"]["conflict_rules"] = conv
    want = {k: set(v) for k, v in dom.items()}
    if rules is not None and not unknown:
        for r in rules:
            keep = set().union(*(want[k] for k in r["domain_keep"]))
            for k in r["domain_resolve"]:
                want[k] = want[k] - keep
    owners = {}
    for k, v in want.items():
        for i in v:
            owners.setdefault(i, set()).add(k)
    shared = {i for i, v in owners.items() if len(v) > 1}
    before = sum(len(v) for v in dom.values()) - len(set().union(*map(set, dom.values())))
    ctx.label("shared" if before else "disjoint", "left" if shared else "resolved", "random" if case["random"] else "rules",
              "n_rules=%d" % min(2, len(rules or [])))
    if not any(dom.values()):
        ctx.trivial("no voxel")
    (ok, res) = api.attempt(pypeec.run_mesher_data, geo)
    if unknown:
        ctx.label("unknown name")
        api.expect(not ok, "an unknown domain name in a rule is accepted")
        return
    if shared and not case["random"]:
        api.expect(not ok, "voxels %s are shared after the resolution but accepted" % sorted(shared)[:5])
        return
    if not ok:
        raise res
    got = {k: [int(i) for i in v] for k, v in res["data_geom"]["domain_def"].items()}
    api.expect(list(got) == list(dom), "domains %s instead of %s" % (list(got), list(dom)))
    for k, v in got.items():
        api.expect(len(v) == len(set(v)), "domain %s has repeated voxels" % k)
    if not case["random"]:
        for k in dom:
            api.expect(set(got[k]) == want[k], "domain %s holds %s instead of %s" % (k, sorted(got[k]), sorted(want[k])))
        return
    count = {}
    for k, v in got.items():
        for i in v:
            count.setdefault(i, []).append(k)
    api.expect(set(count) == set(owners), "voxels lost %s or added %s" % (sorted(set(owners) - set(count)), sorted(set(count) - set(owners))))
    for i, v in count.items():
        api.expect(len(v) == 1 and v[0] in owners[i], "voxel %d is in %s, it belonged to %s" % (i, v, sorted(owners[i])))


PROP = Prop("C06", [Part("rules", cases, check, quick=4000, thorough=80000), Part("large", large, check, quick=200, thorough=4000)],
            rule="random overlapping domains with random rule lists (keep and resolve lists without a common name), with and without random "
                 "resolution and unknown names, against sequential set subtraction; trivial without any voxel",
            assumptions=["a rule never names the same domain as keep and resolve domain"])
