"""C18: linearity in the sources and reciprocity."""

import copy

import numpy as np
from hypothesis import strategies as st

from pv import api, gen
from pv.engine import Part, Prop

TOL = 2e-6


def _scaled(val, f):
    """Source values times a complex factor (the internal elements stay)."""
    out = {}
    for name, v in val.items():
        v = copy.deepcopy(v)
        for key in ("I", "V"):
            if key + "_re" in v:
                z = (np.array(v[key + "_re"]) + 1j * np.array(v[key + "_im"])) * f(name)
                v[key + "_re"] = z.real.tolist()
                v[key + "_im"] = z.imag.tolist()
        out[name] = v
    return out


@st.composite
def linear(draw, tier, block=False):
    case = draw(gen.mixed(tier, block, kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_nv=24, max_src=3, pts=True))
    case["alpha"] = [draw(st.sampled_from([2.0, -1.0, 0.5, 0.0, 1e3, 1e-4])), draw(st.sampled_from([0.0, 1.0, -3.0]))]
    case["split"] = draw(st.integers(0, 3))
    return case


def check_linear(case, ctx):
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    alpha = complex(*case["alpha"])
    if alpha == 0:
        alpha = 1j
    problem = prob.problem()
    par = problem["sweep_solver"]["sim"]["param"]
    names = list(par["source_val"])
    part = set(names[:case["split"]])
    sweeps = {"all": 1.0, "scale": alpha}
    for key in sweeps:
        problem["sweep_solver"][key] = {"init": None, "param": dict(par, source_val=_scaled(par["source_val"], lambda n: sweeps[key]))}
    problem["sweep_solver"]["one"] = {"init": None, "param": dict(par, source_val=_scaled(par["source_val"], lambda n: 1.0 if n in part else 0.0))}
    problem["sweep_solver"]["two"] = {"init": None, "param": dict(par, source_val=_scaled(par["source_val"], lambda n: 0.0 if n in part else alpha))}
    vox = api.mesh(prob.geometry())
    sol = api.solve(vox, problem, gen.any_tolerance(case))
    S = {key: gen.Solution(sol, key) for key in problem["sweep_solver"]}
    gen.compare("scaled sources", S["scale"], S["all"], floor, TOL, scale=alpha)
    ctx.label("parts=%d" % len(part))
    # superposition of two excitations (fields and terminals, not the powers)
    for name in ("V_c", "J_c", "S_c", "V_m", "B_m", "Q_m", "H_p"):
        got = S["one"].var(name) + S["two"].var(name) / alpha
        api.close("superposition: " + name, got, S["all"].var(name), TOL, 2 * floor[name])
    for src in names:
        for q in ("V", "I"):
            got = S["one"].source(src)[q] + S["two"].source(src)[q] / alpha
            api.close("superposition: %s of %s" % (q, src), got, S["all"].source(src)[q], TOL, 2 * floor[q])


@st.composite
def recip(draw, tier, block=False):
    case = draw(gen.mixed(tier, block, kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_nv=24, min_nv=4, max_src=3))
    while len(case["sources"]) < 2:
        case["sources"].append(dict(case["sources"][0]))
    kind = draw(st.sampled_from(["current", "voltage", "mixed"]))
    for i, s in enumerate(case["sources"]):
        s["var"] = "lumped"
        s["type"] = kind if kind != "mixed" else ("current", "voltage")[i % 2]
    if block:
        used = [i for i, m in enumerate(case["mat"]) if m]
        case["src"] = [0] * len(case["mat"])
        for k in range(draw(st.integers(4, 12))):
            case["src"][draw(st.sampled_from(used))] = 1 + k % len(case["sources"])
    else:
        case["src"] = [draw(st.sampled_from([0, 0, 1, 2, 0, min(3, len(case["sources"]))])) for _ in case["mat"]]
    return case


def check_recip(case, ctx):
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    used = prob.used_sources()
    if len(used) < 2:
        ctx.trivial("single terminal")
        return
    problem = prob.problem()
    par = problem["sweep_solver"]["sim"]["param"]
    base = par["source_val"]
    del problem["sweep_solver"]["sim"]
    (a, b) = ("src_%d" % used[0], "src_%d" % used[1])
    for drive in (a, b):
        val = _scaled(base, lambda n: 0.0)
        key = "I" if "I_re" in val[drive] else "V"
        val[drive][key + "_re"] = 1.0
        problem["sweep_solver"][drive] = {"init": None, "param": dict(par, source_val=val)}
    vox = api.mesh(prob.geometry())
    sol = api.solve(vox, problem, gen.any_tolerance(case))
    S = {key: gen.Solution(sol, key) for key in (a, b)}
    (ta, tb) = (problem["source_def"][a]["source_type"], problem["source_def"][b]["source_type"])
    ctx.label("recip-%s-%s" % (ta, tb))
    ra = S[b].source(a)["V" if ta == "current" else "I"]
    rb = S[a].source(b)["V" if tb == "current" else "I"]
    if ta != tb:
        rb = -rb
    own = max(abs(S[a].source(a)["V" if ta == "current" else "I"]), abs(S[b].source(b)["V" if tb == "current" else "I"]))
    big = max(abs(ra), abs(rb), own if ta == tb else 1.0)
    if max(abs(ra), abs(rb)) < 1e-9 * big:
        ctx.trivial("uncoupled terminals")
    api.expect(abs(ra - rb) <= TOL * big, "transfer %s -> %s is %s, the other direction %s" % (a, b, rb, ra))


PROP = Prop("C18", [
    Part("linear", linear, check_linear, quick=500, thorough=16000),
    Part("linear block", lambda tier: linear(tier, block=True), check_linear, quick=24, thorough=1000),
    Part("reciprocity", recip, check_recip, quick=600, thorough=16000),
    Part("reciprocity block", lambda tier: recip(tier, block=True), check_recip, quick=40, thorough=1500),
], rule="random mixed problems solved with scaled, partial and exchanged excitations; trivial without face, excitation or coupled terminals")
