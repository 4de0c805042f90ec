"""C26: terminal values and source laws."""

import numpy as np
from hypothesis import strategies as st

from pv import api, gen, model
from pv.engine import Part, Prop

TOL = 2e-6


@st.composite
def cases(draw, tier, block=False):
    kinds = draw(st.sampled_from([gen.MIXED, ("electric",)]))
    case = draw(gen.mixed(tier, block, kinds=kinds, freqs=("dc", "ac"), max_src=3) if block else
                gen.problem_cases(kinds=kinds, freqs=("dc", "ac"), max_nv=18, max_src=3))
    extra = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        kind = draw(st.sampled_from(["current", "voltage"]))
        extra.append({
            "type": kind, "var": draw(st.sampled_from(["lumped", "distributed"])), "seed": draw(st.integers(0, 7)),
            "re": draw(st.sampled_from([1.0, 0.0, -2.0])), "im": draw(st.sampled_from([0.0, 0.75])),
            "el_re": draw(st.sampled_from([0.5, 2.0])) if kind == "voltage" else draw(st.sampled_from([0.0, 0.5])), "el_im": draw(st.sampled_from([0.0, 0.3])),
            "dom": [draw(st.integers(0, 20)) for _ in range(draw(st.integers(0, 3)))],
        })
    case["extra"] = extra
    case["first"] = draw(st.booleans())
    return case


def source_list(prob, case):
    """All the sources: (name, type, [(voxel, value, element)], lumped terminal law)."""
    dom = prob.domains()
    base = prob.problem()
    out = {}
    for k in prob.used_sources():
        spec = prob.sources[k - 1]
        idx = [i for q in base["source_def"]["src_%d" % k]["domain_list"] for i in dom[q]]
        law = (complex(spec["re"], spec["im"]), complex(spec["el_re"], spec["el_im"])) if spec["var"] == "lumped" else None
        out["src_%d" % k] = (spec["type"], [(i,) + prob.source_at(i)[1:] for i in idx], law)
    el = set(prob.electric)
    usable = [k for k in dom if set(dom[k]) <= el]
    overlap = False
    for j, spec in enumerate(case["extra"]):
        names = []
        for q in spec["dom"]:
            if usable[q % len(usable)] not in names:
                names.append(usable[q % len(usable)])
        idx = [i for k in names for i in dom[k]]
        (val, elem) = (complex(spec["re"], spec["im"]), complex(spec["el_re"], spec["el_im"]))
        (a, b) = ("I", "Y") if spec["type"] == "current" else ("V", "Z")
        if spec["var"] == "lumped":
            n = max(1, len(idx))
            rows = [(i, val / n, elem / n) if spec["type"] == "current" else (i, val, elem * n) for i in idx]
            law = (val, elem)
            v = {a + "_re": val.real, a + "_im": val.imag, b + "_re": elem.real, b + "_im": elem.imag}
        else:
            f = [prob._mult(spec["seed"], p) for p in range(len(idx))]
            rows = [(i, val * f[p], elem * f[-p - 1]) for p, i in enumerate(idx)]
            law = None
            v = {a + "_re": [r[1].real for r in rows], a + "_im": [r[1].imag for r in rows],
                 b + "_re": [r[2].real for r in rows], b + "_im": [r[2].imag for r in rows]}
        out["extra_%d" % j] = (spec["type"], rows, law)
        overlap = overlap or len(idx) > 0
        base["source_def"]["extra_%d" % j] = {"domain_list": names or ["void"], "source_type": spec["type"], "var_type": spec["var"]}
        base["sweep_solver"]["sim"]["param"]["source_val"]["extra_%d" % j] = v
    if case["first"]:
        base["source_def"] = dict(reversed(list(base["source_def"].items())))
    return base, out, overlap


def check(case, ctx):
    (prob, ref, _) = gen.setup_case(case, ctx)
    if prob is None:
        return
    (base, sources, overlap) = source_list(prob, case)
    flat = [(i, s[0], val, el) for s in sources.values() for (i, val, el) in s[1]]
    ref = model.Model(prob.n, prob.d, prob.c, prob.freq, ref.rho, ref.chi, flat)
    floor = gen.floors(ref)
    if any(len(s[1]) == 0 for s in sources.values()):
        ctx.label("empty source")
    ctx.label("overlap" if overlap else "separate", "sources=%d" % len(sources))
    geo = prob.geometry()
    geo["data_voxelize"]["domain_index"]["void"] = []
    vox = api.mesh(geo)
    sol = api.solve(vox, base, gen.any_tolerance(case))
    S = gen.Solution(sol)
    V = S.field("V_c")
    got = S.sw["source"]
    vol = prob.d[0] * prob.d[1] * prob.d[2]
    div = {i: v * vol for i, v in S.field("S_c").items()}
    api.expect(set(got) == set(sources), "sources %s instead of %s" % (list(got), list(sources)))
    fp = 1.0 if prob.freq == 0 else 0.5
    # currents of the voxels from the source laws, ideal voltage sources from the divergence
    cur = {}
    rest = dict(div)
    ideal = []
    for name, (kind, rows, _) in sources.items():
        cur[name] = {}
        for (i, val, el) in rows:
            if kind == "current":
                cur[name][i] = val - el * V[i]
            elif el != 0:
                cur[name][i] = (val - V[i]) / el
            else:
                ideal.append((name, i))
                api.close("voltage of source " + name, V[i], val, TOL, floor["V"])
                continue
            rest[i] -= cur[name][i]
    for (name, i) in ideal:
        cur[name][i] = rest.pop(i)
    # every current is injected by a source
    api.close("current balance of the voxels", list(rest.values()), [0.0] * len(rest), 5 * TOL, floor["I"] + floor["V"])
    q0 = 0
    for name, (kind, rows, law) in sources.items():
        g = got[name]
        api.expect(g["source_type"] == kind, "type of source " + name)
        q = list(range(q0, q0 + len(rows)))
        q0 += len(rows)
        if not rows:
            api.expect(g["V"] == 0 and g["I"] == 0 and g["S"] == 0, "empty source %s with V=%s I=%s S=%s" % (name, g["V"], g["I"], g["S"]))
            continue
        idx = [r[0] for r in rows]
        api.close("V of " + name, g["V"], np.mean([V[i] for i in idx]), 1e-9, 1e-3 * floor["V"])
        api.close("I of " + name, g["I"], sum(cur[name].values()), TOL, floor["I"])
        api.close("S of " + name, g["S"], fp * sum(V[i] * np.conj(cur[name][i]) for i in idx), TOL, floor["S"])
        if law is not None and kind == "current":
            api.close("law of " + name, g["I"] + law[1] * g["V"], law[0], TOL, floor["I"] + abs(law[1]) * floor["V"])
        elif law is not None:
            api.close("law of " + name, g["V"] + law[1] * g["I"], law[0], TOL, floor["V"] + abs(law[1]) * floor["I"])
        # reference
        Vr = np.array([ref.V_vc[ref.vc.index(i)] for i in idx])
        api.close("V of %s (reference)" % name, g["V"], np.mean(Vr), TOL, floor["V"])
        api.close("I of %s (reference)" % name, g["I"], np.sum(ref.I_src[q]), TOL, floor["I"])
        api.close("S of %s (reference)" % name, g["S"], fp * np.sum(Vr * np.conj(ref.I_src[q])), TOL, floor["S"])
    api.close("total power", S.integral("S_total"), sum(g["S"] for g in got.values()), 1e-9, 1e-3 * floor["S"])


PROP = Prop("C26", [
    Part("terminals", cases, check, quick=2200, thorough=40000),
    Part("block", lambda tier: cases(tier, block=True), check, quick=64, thorough=2500),
    Part("large", lambda tier: cases(tier, block="large"), check, quick=16, thorough=400),
], rule="random electric and mixed problems, with additional sources that overlap the others or have no domain; the source laws are "
        "checked voxel by voxel on the returned potentials and against the dense reference; trivial without face or excitation")
