"""C22: sweeps."""

import copy

import numpy as np
from hypothesis import strategies as st

from pv import api, gen
from pv.engine import Part, Prop

TOL = 5e-6
NAMES = ["s0", "b", "zeta", "1", "sim_a", "A", "é", "x y", "_"]


@st.composite
def cases(draw, tier, jobs=False, block=False):
    case = draw(gen.mixed(tier, block, kinds=gen.MIXED, freqs=("ac",), max_nv=8 if jobs else 18, max_src=2, pts=True))
    n = draw(st.sampled_from([2, 3, 3, 4, 5, 9]))
    case["sweeps"] = [{
        "freq": draw(st.sampled_from([0.0, 1.0, 1.0, 2.0, 0.5])), "init": draw(st.integers(-1, n)), "deep": draw(st.booleans()),
        "src": draw(st.sampled_from([1.0, 1.0, 0.0, -2.0])), "rho": draw(st.sampled_from([1.0, 1.0, 2.0])),
    } for _ in range(n)]
    case["seq"] = draw(st.integers(0, 1000))
    case["n_jobs"] = draw(st.sampled_from([1, 2, -1])) if jobs else 0
    case["n_threads"] = draw(st.sampled_from([None, 1, 2]))
    case["stop"] = draw(st.booleans())
    case["coupling"] = draw(st.sampled_from(["direct", "segregated"]))
    # several sweeps start from the same one
    if draw(st.integers(0, 2)) == 0:
        case["star"] = True
    return case


def build(case, prob):
    """Sweeps with acyclic initial guesses (a sweep refers to an earlier one in a random order)."""
    base = prob.problem()
    par = base["sweep_solver"]["sim"]["param"]
    rank = list(np.random.default_rng(case["seq"]).permutation(len(case["sweeps"])))
    sweeps = {}
    for k, s in enumerate(case["sweeps"]):
        p = copy.deepcopy(par)
        p["freq"] = par["freq"] * s["freq"]
        for v in p["source_val"].values():
            for tag in v:
                if tag[0] in "IV":
                    v[tag] = (np.array(v[tag]) * s["src"]).tolist()
        for v in p["material_val"].values():
            for tag in v:
                if tag == "rho_re":
                    v[tag] = (np.array(v[tag]) * s["rho"]).tolist()
        init = s["init"]
        if s.get("deep") and init >= 0 and rank[k] > 0:
            # a long chain: the sweep that comes just before
            init = rank.index(rank[k] - 1)
        if case.get("star") and rank[k] > 0:
            init = rank.index(0)
        ok = 0 <= init < len(rank) and rank[init] < rank[k]
        sweeps[NAMES[k]] = {"init": NAMES[init] if ok else None, "param": p}
    return base, sweeps


def fact(spec):
    """RMS factor of the powers."""
    return 0.5 if spec["param"]["freq"] else 1.0


def check(case, ctx):
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    (base, sweeps) = build(case, prob)
    for s in case["sweeps"]:
        if s["src"] == 0.0:
            ctx.label("zero excitation")
    chain = sum(1 for s in sweeps.values() if s["init"] is not None)
    ctx.label("n=%d" % len(sweeps), "chained=%d" % chain, "jobs=%d" % case["n_jobs"])
    vox = api.mesh(prob.geometry())
    tol = gen.any_tolerance(case)
    tol["parallel_sweep"] = {"n_jobs": case["n_jobs"], "n_threads": case["n_threads"]}
    if case.get("coupling") == "segregated":
        ctx.label("segregated")
        tol["solver_options"]["coupling"] = "segregated"
    sol = api.solve(vox, dict(base, sweep_solver=sweeps), tol)
    if case.get("coupling") == "segregated" and not all(s["solver_ok"] for s in sol["data_sweep"].values()):
        # strongly coupled problems diverge with the segregated iterations
        api.expect(sol["status"] is False, "a run without convergence reports a success")
        ctx.trivial("not converged")
        return
    api.expect(set(sol["data_sweep"]) == set(sweeps), "sweeps %s instead of %s" % (list(sol["data_sweep"]), list(sweeps)))
    api.expect(sol["status"] is True, "the run reports a failure")
    tol1 = copy.deepcopy(tol)
    tol1["parallel_sweep"] = {"n_jobs": 0, "n_threads": None}
    big = {k: 4 * v for k, v in floor.items()}
    for name, spec in sweeps.items():
        one = api.solve(vox, dict(base, sweep_solver={name: {"init": None, "param": spec["param"]}}), tol1)
        api.expect(sol["data_sweep"][name]["freq"] == spec["param"]["freq"], "frequency of sweep %s" % name)
        # the chained sweep starts from the solution of the other one
        init = spec["init"]
        power = 0.0
        if init is not None:
            power = sol["data_sweep"][init]["integral"]["S_total"] * fact(spec) / fact(sweeps[init])
        api.close("initial power of sweep %s (started from %s)" % (name, init), sol["data_sweep"][name]["conv"]["power_init"], power, 1e-6, 1e-290)
        gen.compare("sweep " + name, gen.Solution(sol, name), gen.Solution(one, name), big, TOL)


@st.composite
def invalid(draw, tier):
    case = draw(cases(tier))
    case["bad"] = draw(st.sampled_from(["unknown", "self", "cycle", "cycle3", "cycle_tail", "bad_param"]))
    case["at"] = draw(st.integers(0, 10))
    return case


def check_invalid(case, ctx):
    import pypeec
    prob = gen.Problem(case)
    if not prob.well_posed:
        ctx.trivial("no conductor")
        return
    (base, sweeps) = build(case, prob)
    names = list(sweeps)
    k = case["at"] % len(names)
    ctx.label(case["bad"])
    if case["bad"] == "unknown":
        sweeps[names[k]]["init"] = "unknown sweep"
    elif case["bad"] == "self":
        sweeps[names[k]]["init"] = names[k]
    elif case["bad"] == "cycle":
        (a, b) = (names[k], names[(k + 1) % len(names)])
        sweeps[a]["init"] = b
        sweeps[b]["init"] = a
    elif case["bad"] == "cycle3":
        for i, a in enumerate(names):
            sweeps[a]["init"] = names[(i + 1) % len(names)]
    elif case["bad"] == "cycle_tail":
        # a valid sweep, a cycle and a sweep that hangs at the cycle
        p = sweeps[names[0]]["param"]
        sweeps = {"t": {"init": "x", "param": p}, "ok": {"init": None, "param": p}, "x": {"init": "y", "param": p}, "y": {"init": "x", "param": p}}
    elif case["bad"] == "bad_param":
        sweeps[names[k]]["param"] = copy.deepcopy(sweeps[names[k]]["param"])
        mat = sweeps[names[k]]["param"]["material_val"]
        del mat[list(mat)[0]]
    vox = api.mesh(prob.geometry())
    api.refused("sweeps with a defect (%s)" % case["bad"], pypeec.run_solver_data, vox, dict(base, sweep_solver=sweeps), api.tolerance())


PROP = Prop("C22", [
    Part("sweeps", cases, check, quick=330, thorough=10000),
    Part("block", lambda tier: cases(tier, block=True), check, quick=24, thorough=800),
    Part("invalid", invalid, check_invalid, quick=200, thorough=4000),
    Part("jobs", lambda tier: cases(tier, jobs=True), check, quick=16, thorough=300),
], rule="random mixed problems with two to five sweeps (frequencies, excitations, resistivities, chained initial guesses, parallel jobs) "
        "against separate runs, and sweep sets with one defect; trivial without face or excitation", quick_s=48)
