"""C07: connected components and connection checks."""

from hypothesis import strategies as st

from pv import api, gen, model
from pv.engine import Part, Prop

NAMES = ["a", "b", "c", "d", "e"]


@st.composite
def cases(draw, tier):
    hi = 4 if tier == "quick" else 6
    n = [draw(st.integers(1, hi)) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    n_dom = draw(st.integers(1, 5))
    w = draw(st.integers(1, 8))
    lab = [draw(st.sampled_from([-1] * w + list(range(n_dom)))) for _ in range(nv)]
    grp = st.lists(st.integers(0, n_dom - 1), min_size=1, max_size=3)
    checks = []
    for _ in range(draw(st.integers(0, 3))):
        checks.append({
            "kind": draw(st.sampled_from(["domain_connected", "domain_adjacent"])), "connected": draw(st.booleans()),
            "groups": draw(st.lists(grp, min_size=1, max_size=4)),
            "unknown": draw(st.integers(0, 15)) == 0,
        })
    return {"n": n, "n_dom": n_dom, "lab": lab, "checks": checks}


@st.composite
def stars(draw, tier):
    """Groups around a voxel (neighbours along single directions), mostly adjacent or connected."""
    n = [draw(st.integers(1, 5)) for _ in range(3)]
    mid = [draw(st.integers(0, v - 1)) for v in n]
    lab = [-1] * (n[0] * n[1] * n[2])
    lab[model.linear(n, mid)] = 0
    n_dom = draw(st.integers(2, 5))
    tips = [mid]
    for k in range(1, n_dom):
        # next to the centre or (sometimes) to another group
        p = list(tips[0] if draw(st.integers(0, 3)) else draw(st.sampled_from(tips)))
        a = draw(st.integers(0, 2))
        p[a] += draw(st.sampled_from([-1, 1]))
        if not 0 <= p[a] < n[a] or lab[model.linear(n, p)] != -1:
            continue
        lab[model.linear(n, p)] = k
        tips.append(p)
    used = [k for k in range(n_dom) if k in lab] if draw(st.booleans()) else list(range(n_dom))
    checks = [{"kind": draw(st.sampled_from(["domain_connected", "domain_adjacent", "domain_adjacent"])), "connected": draw(st.integers(0, 4)) > 0,
               "groups": [[k] for k in draw(st.permutations(used))], "unknown": False} for _ in range(draw(st.integers(1, 2)))]
    return {"n": n, "n_dom": n_dom, "lab": lab, "checks": checks}


@st.composite
def large(draw, tier):
    case = draw(gen.coarse(tier, max_dom=draw(st.sampled_from([4, 300]))))
    grp = st.lists(st.integers(0, case["n_dom"] - 1), min_size=1, max_size=4)
    case["checks"] = [{
        "kind": draw(st.sampled_from(["domain_connected", "domain_adjacent"])), "connected": draw(st.booleans()),
        "groups": draw(st.lists(grp, min_size=1, max_size=5)), "unknown": False,
    } for _ in range(draw(st.integers(0, 2)))]
    return case


def check(case, ctx):
    case = gen.expand(case)
    NAMES = gen.domain_names(globals()["NAMES"], case["n_dom"])
    import pypeec
    n = case["n"]
    dom = {NAMES[k]: [] for k in range(case["n_dom"])}
    for i, v in enumerate(case["lab"]):
        if v >= 0:
            dom[NAMES[v]].append(i)
    used = [i for i, v in enumerate(case["lab"]) if v >= 0]
    comps = model.components(n, used)
    integrity = {"domain_connected": {}, "domain_adjacent": {}}
    ok_all = True
    nei = {}
    for i in used:
        k = model.coords(n, i)
        lst = {i}
        for a in range(3):
            for s in (-1, 1):
                q = list(k)
                q[a] += s
                if 0 <= q[a] < n[a]:
                    lst.add(model.linear(n, q))
        nei[i] = lst
    for q, ch in enumerate(case["checks"]):
        groups = [[NAMES[k] for k in g] for g in ch["groups"]]
        if ch["unknown"]:
            groups[-1] = groups[-1] + ["nothing"]
        integrity[ch["kind"]]["chk%d" % q] = {"domain_group": groups, "connected": ch["connected"]}
        if ch["unknown"]:
            ok_all = False
            ctx.label("unknown name")
            continue
        sets = [set(i for name in g for i in dom[name]) for g in groups]
        sets = [s for s in sets if s]
        if ch["kind"] == "domain_connected":
            touch = [[bool(s & set(comp)) for s in sets] for comp in comps]
        else:
            touch = []
            for s in sets:
                around = set().union(*(nei[i] for i in s))
                touch.append([bool(around & t) for t in sets])
        if ch["connected"]:
            ok = any(all(row) for row in touch)
        else:
            ok = all(sum(row) <= 1 for row in touch)
        ctx.label("%s/%s/%s" % (ch["kind"][7:], ch["connected"], ok))
        ok_all = ok_all and ok
    if not used:
        ctx.trivial("no voxel")
    geo = api.geometry_voxel(n, [1.0, 2.0, 0.5], [0.0] * 3, dom, connected=integrity["domain_connected"], adjacent=integrity["domain_adjacent"])
    (ok, res) = api.attempt(pypeec.run_mesher_data, geo)
    api.expect(ok == ok_all, "checks %s: the structure is %s" % (case["checks"], "accepted" if ok else "refused with %r" % (res,)))
    if not ok:
        return
    got = res["data_geom"]["graph_def"]
    got = sorted(sorted(int(i) for i in g) for g in got)
    ctx.label("comps=%d" % min(len(comps), 3))
    api.expect(got == sorted(comps), "components %s instead of %s" % (got, sorted(comps)))


PROP = Prop("C07", [Part("graph", cases, check, quick=4000, thorough=80000), Part("star", stars, check, quick=3000, thorough=60000),
                    Part("large", large, check, quick=160, thorough=4000)],
            rule="random domain fillings (and groups placed around a voxel) with random connection and adjacency checks (overlapping, empty and unknown groups), against a flood "
                 "fill and explicit neighbour sets; trivial without any voxel")
