"""C23: convergence flags and residuals."""

import copy

import numpy as np
from hypothesis import strategies as st

from pv import api, gen
from pv.engine import Part, Prop


@st.composite
def cases(draw, tier):
    case = draw(gen.problem_cases(kinds=gen.MIXED, freqs=("dc", "ac", "ac"), max_nv=18, max_src=3))
    case["single"] = draw(st.booleans())
    case["it"] = {
        "coupling": draw(st.sampled_from(["direct", "direct", "segregated"])),
        "solver": draw(st.sampled_from(["gmres", "gcrot"])),
        "n_inner": draw(st.sampled_from([1, 2, 3, 5, 10, 200])), "n_outer": draw(st.sampled_from([1, 1, 2, 5, 20])),
        "n_max": draw(st.sampled_from([1, 2, 5, 40])), "n_min": draw(st.sampled_from([0, 1, 4])),
        "relax": draw(st.sampled_from([1.0, 0.7, 0.3])),
        "tol": draw(st.sampled_from([1e-1, 1e-3, 1e-6, 1e-8, 1e-10])), "abs": draw(st.sampled_from([1e-30, 1e-30, 1e-2])),
    }
    case["power"] = {
        "stop": draw(st.sampled_from([False, False, False, True])), "n_min": draw(st.integers(0, 4)), "n_cmp": draw(st.integers(0, 3)),
        "rel_tol": draw(st.sampled_from([1e-1, 1e-6])), "abs_tol": draw(st.sampled_from([1e-30, 1.0])),
    }
    case["res"] = {
        "ignore_status": draw(st.booleans()), "ignore_res": draw(st.sampled_from([False, False, True])),
        "rel_tol": draw(st.sampled_from([1e-12, 1e-8, 1e-4, 1e-2, 10.0])), "abs_tol": draw(st.sampled_from([1e-12, 1e-3, 10.0])),
    }
    case["cond"] = {
        "check": draw(st.sampled_from([True, True, True, False])),
        "electric": draw(st.sampled_from([1e-4, 0.3, 3.0, 1e8, 1e8])), "magnetic": draw(st.sampled_from([1e-4, 0.3, 3.0, 1e8, 1e8])),
    }
    case["chain"] = draw(st.sampled_from(["none", "none", "free", "init"]))
    return case


def options(case, ref):
    (it, cd) = (case["it"], case["cond"])
    (ce, cm) = (condition(ref, "electric"), condition(ref, "magnetic"))
    inner = {"solver": it["solver"], "rel_tol": it["tol"], "abs_tol": it["abs"], "n_inner": it["n_inner"], "n_outer": it["n_outer"]}
    tol = gen.any_tolerance(case)
    so = tol["solver_options"]
    so["coupling"] = it["coupling"]
    so["direct_options"] = dict(inner)
    so["segregated_options"] = {
        "rel_tol": it["tol"], "abs_tol": it["abs"], "relax_electric": it["relax"], "relax_magnetic": it["relax"],
        "n_min": it["n_min"], "n_max": it["n_max"], "iter_electric_options": dict(inner), "iter_magnetic_options": dict(inner),
    }
    so["power_options"] = dict(case["power"])
    so["tolerance_options"] = dict(case["res"])
    tol["condition_options"].update(check=cd["check"], tolerance_electric=cd["electric"] * (ce or 1.0), tolerance_magnetic=cd["magnetic"] * (cm or 1.0))
    return tol


def parts(ref):
    (a, b, c, d) = (len(ref.fc), len(ref.vc), len(ref.sources), len(ref.fm))
    return np.cumsum([0, a, b, c, d, len(ref.vm)])


def condition(ref, kind):
    """Condition number (norm one) of the Schur complement with the diagonal of the dense operators."""
    o = parts(ref)
    if kind == "electric":
        z = np.diag(ref.M[o[0]:o[1], o[0]:o[1]])
        (B, C, D) = (ref.M[o[0]:o[1], o[1]:o[3]], ref.M[o[1]:o[3], o[0]:o[1]], ref.M[o[1]:o[3], o[1]:o[3]])
    else:
        z = ref.Rm
        p = np.diag(np.diag(ref.P))
        (B, C, D) = (ref.M[o[3]:o[4], o[4]:], p @ ref.Am, np.eye(len(ref.vm)))
    if D.shape[0] == 0:
        return 0.0
    S = D - C @ (B / z[:, None]) if len(z) else D
    with np.errstate(all="ignore"):
        try:
            return float(np.linalg.cond(S, 1))
        except np.linalg.LinAlgError:
            return float("inf")


def unknowns(prob, ref, S):
    """Solution vector rebuilt from the returned fields, and the unknowns that cannot be rebuilt."""
    x = np.zeros(len(ref.rhs), dtype=complex)
    known = np.ones(len(ref.rhs), dtype=bool)
    o = parts(ref)
    (flow_c, _) = S.face_flows("J_c")
    x[o[0]:o[1]] = [flow_c[a, i] for (a, i, _) in ref.fc]
    x[o[1]:o[2]] = S.var("V_c")
    for q, s in enumerate(ref.sources):
        k = prob.src[s[0]]
        if sum(1 for t in ref.sources if prob.src[t[0]] == k) == 1:
            x[o[2] + q] = S.source("src_%d" % k)["I"]
        else:
            known[o[2] + q] = False
    if ref.fm:
        (flow_m, _) = S.face_flows("B_m")
        x[o[3]:o[4]] = [flow_m[a, i] for (a, i, _) in ref.fm]
    x[o[4]:] = S.var("V_m")
    return x, known


def check_sweep(prob, ref, S, tol, ctx, name, again):
    sw = S.sw
    (ss, cs) = (sw["solver_status"], sw["condition_status"])
    so = tol["solver_options"]
    o = parts(ref)
    dof = (o[3], o[5] - o[3], o[5])
    api.expect((ss["n_dof_electric"], ss["n_dof_magnetic"], ss["n_dof_total"]) == tuple(int(v) for v in dof), "degrees of freedom %s" % ss)
    res = np.asarray(sw["res"])
    api.expect(res.shape == (dof[2],), "residual vector with shape %s" % (res.shape,))
    # the residual is the one of the returned solution
    (x, known) = unknowns(prob, ref, S)
    row_ok = ~np.any((ref.M != 0)[:, ~known], axis=1)
    true = ref.M @ x - ref.rhs
    err = float(np.linalg.norm(2e-8 * (np.abs(ref.M) @ np.abs(x) + np.abs(ref.rhs)))) + 1e-300
    norm_rhs = float(np.linalg.norm(ref.rhs))
    api.close("residual norm", ss["res_val"], np.linalg.norm(res), 1e-9, 1e-290)
    if np.all(known):
        ctx.label("full residual")
        api.expect(abs(np.linalg.norm(true) - ss["res_val"]) <= err, "residual %.4e instead of %.4e" % (ss["res_val"], np.linalg.norm(true)))
        api.expect(np.max(np.abs(np.sort(np.abs(true)) - np.sort(np.abs(res)))) <= err, "residual vector differs from the one of the returned solution")
    for (k1, k2) in ((0, 1), (1, 2), (3, 4), (4, 5)):
        # equations that do not depend on the distribution of the current inside of a source
        seg = np.where(row_ok[o[k1]:o[k2]])[0] + o[k1]
        rest = o[k2] - o[k1] - len(seg)
        if rest == 0 and len(seg):
            api.expect(np.max(np.abs(np.sort(np.abs(true[seg])) - np.sort(np.abs(res[o[k1]:o[k2]])))) <= err, "residual vector differs in block %d" % k1)
    api.expect(ss["res_val"] >= np.linalg.norm(true[row_ok]) - err, "residual %.4e, larger in reality: %.4e" % (ss["res_val"], np.linalg.norm(true[row_ok])))
    # threshold
    to = so["tolerance_options"]
    api.close("residual limit", ss["res_thr"], max(to["rel_tol"] * norm_rhs, to["abs_tol"]), 1e-9)
    # flags
    api.expect(sw["solver_ok"] is ss["status"] and sw["condition_ok"] is cs["status"], "flags differ from the status summaries")
    api.expect(sw["has_converged"] is (sw["solver_ok"] and sw["condition_ok"]), "has_converged is %s" % sw["has_converged"])
    below = ss["res_val"] < ss["res_thr"]
    ok = sw["solver_ok"]
    power = so["power_options"]["stop"]
    it = so["direct_options"]
    limit = max(it["rel_tol"] * norm_rhs, it["abs_tol"])
    if not to["ignore_res"]:
        api.expect(below or not ok, "residual %.3e above the limit %.3e reported as converged" % (ss["res_val"], ss["res_thr"]))
    if to["ignore_status"]:
        api.expect(ok == (below or to["ignore_res"]), "solver_ok is %s (status ignored, ignore_res=%s, below=%s)" % (ok, to["ignore_res"], below))
    elif not power:
        api.expect(not ok or np.linalg.norm(true[row_ok]) <= 10 * limit + err, "aborted iterations reported as converged (residual %.3e, limit %.3e)" % (
            np.linalg.norm(true[row_ok]), limit))
    generous = so["coupling"] == "direct" and it["n_inner"] == 200 and it["n_outer"] == 20 and it["rel_tol"] >= 1e-6
    if generous and (below or to["ignore_res"]):
        api.expect(ok, "converged solution reported as failure")
    ctx.label("ok" if ok else "not ok", so["coupling"], "below" if below else "above")
    # condition
    co = tol["condition_options"]
    if co["check"]:
        logic = cs["cond_electric"] < co["tolerance_electric"] and cs["cond_magnetic"] < co["tolerance_magnetic"]
        api.expect(sw["condition_ok"] is bool(logic), "condition_ok is %s for %s" % (sw["condition_ok"], cs))
        for kind in ("electric", "magnetic"):
            (got, exp) = (cs["cond_" + kind], condition(ref, kind))
            if exp == 0 or exp < 1e12:
                # a lower bound found with random vectors: a single run may miss the large entries
                k = 0
                while got < 0.02 * exp and k < 12:
                    k += 1
                    got = max(got, again(name)["condition_status"]["cond_" + kind])
                api.expect(0.02 * exp <= got <= 1.001 * exp, "%s condition %.4e instead of %.4e" % (kind, got, exp))
    else:
        api.expect(sw["condition_ok"] is True, "condition reported as failure without check")
    ctx.label("cond ok" if sw["condition_ok"] else "cond bad")
    # power
    conv = sw["conv"]
    total = sum(s["S"] for s in sw["source"].values())
    scale = ref.fp * float(np.sum(np.abs(x[o[1]:o[2]])) * sum(abs(s["I"]) for s in sw["source"].values())) + 1e-300
    api.close("final power", conv["power_final"], total, 1e-6, scale)
    api.expect(len(conv["power_vec"]) == ss["n_iter"], "%d powers for %d iterations" % (len(conv["power_vec"]), ss["n_iter"]))
    if so["coupling"] == "segregated" and not power:
        api.expect(ss["n_iter"] <= so["segregated_options"]["n_max"], "%d iterations" % ss["n_iter"])
    return total


def check(case, ctx):
    if case["single"]:
        # one voxel per source
        seen = set()
        case = dict(case, src=[s if s and not (s in seen or seen.add(s)) else 0 for s in case["src"]])
    (prob, ref, _) = gen.setup_case(case, ctx)
    if prob is None:
        return
    tol = options(case, ref)
    base = prob.problem()
    vox = api.mesh(prob.geometry())
    refs = {"sim": ref}
    if case["chain"] != "none":
        par = copy.deepcopy(base["sweep_solver"]["sim"]["param"])
        par["freq"] = 0.5 * par["freq"] if case["chain"] == "free" or not par["freq"] else 0.0
        base["sweep_solver"]["two"] = {"init": "sim" if case["chain"] == "init" else None, "param": par}
        other = gen.Problem(case)
        other.freq = par["freq"]
        refs["two"] = other.reference()
    sol = api.solve(vox, base, tol)
    power = {}
    for name, r in refs.items():
        power[name] = check_sweep(prob, r, gen.Solution(sol, name), tol, ctx, name, lambda q: api.solve(vox, base, tol)["data_sweep"][q])
        init = base["sweep_solver"][name]["init"]
        exp = 0.0 if init is None else power[init] * r.fp / refs[init].fp
        api.close("initial power", sol["data_sweep"][name]["conv"]["power_init"], exp, 1e-6, 1e-290)
    flags = [sol["data_sweep"][name]["has_converged"] for name in refs]
    api.expect(sol["status"] is all(flags), "status %s for sweeps with %s" % (sol["status"], flags))
    ctx.label("status %s" % sol["status"])


@st.composite
def stop_cases(draw, tier):
    case = draw(gen.problem_cases(kinds=gen.MIXED, freqs=("dc", "ac", "ac"), max_nv=18, max_src=3))
    case["it"] = {
        "coupling": draw(st.sampled_from(["direct", "segregated"])), "solver": draw(st.sampled_from(["gmres", "gcrot"])),
        "n_inner": draw(st.sampled_from([1, 1, 2, 3])), "n_outer": draw(st.sampled_from([4, 12, 30])),
        "n_max": draw(st.sampled_from([3, 8, 30])), "n_min": draw(st.sampled_from([0, 2, 5])),
        "relax_electric": draw(st.sampled_from([1.0, 0.7, 0.3])), "relax_magnetic": draw(st.sampled_from([1.0, 0.8, 0.4])),
        "tol": draw(st.sampled_from([1e-2, 1e-5, 1e-12, 1e-12])), "in_tol": draw(st.sampled_from([1e-1, 1e-4, 1e-12])),
    }
    case["power"] = {
        "n_min": draw(st.integers(0, 9)), "n_cmp": draw(st.integers(0, 5)),
        "rel_tol": draw(st.sampled_from([1e-12, 1e-6, 1e-4, 1e-3, 1e-2, 1e-1, 0.5])),
        # relative to the largest power of the iterations
        "abs": draw(st.sampled_from([1e-15, 1e-15, 1e-4, 1e-2, 0.3])),
    }
    return case


def reached(power, opt, slack):
    """Whether the criteria on the power stops the iterations after the last of the given powers."""
    n_cmp = opt["n_cmp"]
    if len(power) < max(2, n_cmp + 1, opt["n_min"]):
        return False
    diff = [abs(power[-1] - power[-1 - j]) for j in range(1, n_cmp + 1)]
    return max(diff, default=0.0) <= max(opt["rel_tol"] * abs(power[-1]), opt["abs_tol"]) * slack


def check_stop(case, ctx):
    (prob, ref, _) = gen.setup_case(case, ctx)
    if prob is None:
        return
    it = case["it"]
    tol = gen.any_tolerance(case)
    so = tol["solver_options"]
    so["coupling"] = it["coupling"]
    inner = {"solver": it["solver"], "rel_tol": it["tol"], "abs_tol": 1e-300, "n_inner": it["n_inner"], "n_outer": it["n_outer"]}
    so["direct_options"] = inner
    sub = dict(inner, rel_tol=it["in_tol"])
    so["segregated_options"] = {
        "rel_tol": it["tol"], "abs_tol": 1e-300, "relax_electric": it["relax_electric"], "relax_magnetic": it["relax_magnetic"],
        "n_min": it["n_min"], "n_max": it["n_max"], "iter_electric_options": sub, "iter_magnetic_options": dict(sub),
    }
    so["tolerance_options"] = {"ignore_status": False, "ignore_res": True, "rel_tol": 1e-3, "abs_tol": 1e-9}
    so["power_options"] = {"stop": False, "n_min": 0, "n_cmp": 0, "rel_tol": 1.0, "abs_tol": 1.0}
    vox = api.mesh(prob.geometry())
    free = api.solve(vox, prob.problem(), tol)["data_sweep"]["sim"]
    every = [complex(v) for v in free["conv"]["power_vec"]]
    scale = max([abs(v) for v in every], default=0.0)
    limit = max(it["tol"] * float(np.linalg.norm(ref.rhs)), 1e-300)
    far = free["solver_status"]["res_val"] > 10 * limit
    if it["coupling"] == "segregated":
        k = free["solver_status"]["n_iter"]
        api.expect(k <= it["n_max"], "%d iterations, limited to %d" % (k, it["n_max"]))
        api.expect(k >= min(it["n_min"], it["n_max"]), "%d iterations, at least %d" % (k, it["n_min"]))
        api.expect(k == it["n_max"] or not far, "iterations given up after %d of %d" % (k, it["n_max"]))
        ctx.label("segregated %s" % ("exhausted" if k == it["n_max"] else "finished"))
        if k < it["n_max"] and k > max(it["n_min"], 1):
            # the iterations end as soon as the residuum is small enough
            less = copy.deepcopy(tol)
            less["solver_options"]["segregated_options"].update(n_max=k - 1)
            early = api.solve(vox, prob.problem(), less)["data_sweep"]["sim"]
            api.expect(not early["solver_ok"], "converged after %d iterations but %d computed" % (k - 1, k))
    if not scale or not np.isfinite(scale):
        ctx.trivial("no power")
        return
    opt = dict(case["power"])
    opt["abs_tol"] = opt.pop("abs") * scale
    so["power_options"] = dict(opt, stop=True)
    sw = api.solve(vox, prob.problem(), tol)["data_sweep"]["sim"]
    got = [complex(v) for v in sw["conv"]["power_vec"]]
    n = len(got)
    api.expect(n == sw["solver_status"]["n_iter"] and n <= len(every), "%d iterations with the power criteria, %d without" % (n, len(every)))
    for k in range(n):
        api.close("power of iteration %d" % k, got[k], every[k], 1e-6, scale)
    api.expect(n == len(every) or reached(every[:n], opt, 1 + 1e-5), "stopped after %d of %d iterations with the powers %s" % (n, len(every), every[:n]))
    for k in range(n):
        api.expect(not reached(every[:k], opt, 1 - 1e-5), "not stopped after %d iterations with the powers %s" % (k, every[:k]))
    if reached(every[:n], opt, 1 - 1e-5):
        api.expect(sw["solver_ok"] is True, "power has converged, but the status is %s" % sw["solver_ok"])
        ctx.label("power stop", "after %s" % ("2-3" if n < 4 else "4-8" if n < 9 else "more"))
    elif not reached(every[:n], opt, 1 + 1e-5):
        api.expect(sw["solver_ok"] is free["solver_ok"], "status %s without any effect of the power criteria" % sw["solver_ok"])
        api.expect(not far or not sw["solver_ok"], "aborted iterations reported as converged")
        ctx.label("power not used")
    ctx.label(it["coupling"])


@st.composite
def diverge_cases(draw, tier):
    """Strongly coupled problems for which the segregated iterations diverge (until the numbers overflow)."""
    case = draw(gen.block_cases(tier, kinds=("electromagnetic", "electric"), freqs=("ac",), max_used=40, hi=6, max_mat=2, max_src=2))
    case["boost"] = draw(st.sampled_from([1.0, 30.0, 1e3, 1e5]))
    case["it"] = {
        "solver": draw(st.sampled_from(["gmres", "gcrot"])), "relax": draw(st.sampled_from([1.0, 1.0, 0.7])),
        "n_inner": draw(st.sampled_from([10, 200])), "n_max": draw(st.sampled_from([20, 60, 150, 300])),
    }
    case["coupled"] = draw(st.sampled_from([100.0, 100.0, 1000.0]))
    return case


def check_diverge(case, ctx):
    materials = [dict(m, chi_re=[case["coupled"]] * 3) for m in case["materials"]]
    case = dict(case, materials=materials, wl=case["wl"] * case["boost"])
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    it = case["it"]
    tol = gen.any_tolerance(case)
    so = tol["solver_options"]
    so["coupling"] = "segregated"
    inner = {"solver": it["solver"], "rel_tol": 1e-11, "abs_tol": 1e-300, "n_inner": it["n_inner"], "n_outer": 5}
    so["segregated_options"] = {
        "rel_tol": 1e-10, "abs_tol": 1e-300, "relax_electric": it["relax"], "relax_magnetic": it["relax"], "n_min": 2, "n_max": it["n_max"],
        "iter_electric_options": inner, "iter_magnetic_options": dict(inner),
    }
    base = prob.problem()
    par = copy.deepcopy(base["sweep_solver"]["sim"]["param"])
    par["freq"] = 0.0
    base["sweep_solver"]["dc"] = {"init": None, "param": par}
    still = gen.Problem(case)
    still.freq = 0.0
    refs = {"sim": ref, "dc": still.reference()}
    sol = api.solve(api.mesh(prob.geometry()), base, tol)
    flags = []
    for (name, r) in refs.items():
        S = gen.Solution(sol, name)
        flags.append(S.sw["has_converged"])
        api.expect(S.sw["solver_status"]["n_iter"] <= it["n_max"], "%d iterations" % S.sw["solver_status"]["n_iter"])
        api.expect(np.all(np.isfinite(S.var("V_c"))) and np.all(np.isfinite(S.var("J_c"))), "solution without numbers")
        # the residuals of ill-conditioned problems say less about the solution
        if S.sw["solver_ok"]:
            f = gen.floors(r)
            err = api.maxabs(S.var("J_c") - r.J_c)
            api.expect(err <= 1e-2 * f["J_c"], "current densities reported as converged are wrong by %.3e (%.3e)" % (err, f["J_c"]))
        elif S.sw["var"]["J_c"]["var"].size and api.maxabs(S.var("J_c")) > 1e100:
            ctx.label("overflow")
        ctx.label("%s %s" % (name, "converged" if S.sw["solver_ok"] else "diverged"))
    api.expect(sol["status"] is all(flags), "status %s for sweeps with %s" % (sol["status"], flags))


MAGNITUDES = [1e-30, 1e-12, 1e-6, 1e-3, 1.0, 1e3, 1e6, 1e12, 1e30]


@st.composite
def extreme_cases(draw, tier):
    """Valid problems with extreme values."""
    case = draw(gen.problem_cases(kinds=gen.MIXED, freqs=("dc", "ac", "ac"), max_nv=18, max_src=3))
    vals = draw(st.sampled_from([MAGNITUDES[2:7], MAGNITUDES[1:8], MAGNITUDES]))
    pick = lambda zero: draw(st.sampled_from(vals + [0.0] * 4 * zero))
    for m in case["materials"]:
        (m["rho_re"], m["chi_re"]) = ([pick(0) for _ in range(3)], [pick(0) for _ in range(3)])
        (m["rho_im"], m["chi_im"]) = ([pick(1) for _ in range(3)], [pick(1) for _ in range(3)])
    for s in case["sources"]:
        (s["re"], s["im"], s["el_re"], s["el_im"]) = (pick(1), pick(1), pick(1), pick(1))
    if case["wl"]:
        case["wl"] = pick(0)
    case["coupling"] = draw(st.sampled_from(["direct", "segregated"]))
    case["solver"] = draw(st.sampled_from(["gmres", "gcrot"]))
    return case


def check_extreme(case, ctx):
    prob = gen.Problem(case)
    if not prob.well_posed:
        ctx.trivial("no conductor")
        return
    tol = gen.any_tolerance(case)
    so = tol["solver_options"]
    so["coupling"] = case["coupling"]
    so["direct_options"]["solver"] = case["solver"]
    so["segregated_options"]["n_max"] = 30
    so["tolerance_options"] = {"ignore_status": True, "ignore_res": False, "rel_tol": 1e-6, "abs_tol": 1e-300}
    base = prob.problem()
    (ok, sol) = api.attempt(pypeec_solver(), api.mesh(prob.geometry()), base, tol)
    if not ok:
        # the values do not allow a factorization
        api.expect("singular" in str(sol) or "factorization" in str(sol), "a valid problem ends in %s" % sol)
        ctx.label("singular")
        return
    sw = sol["data_sweep"]["sim"]
    ss = sw["solver_status"]
    api.expect(sw["solver_ok"] is bool(ss["res_val"] < ss["res_thr"]), "solver_ok is %s for a residuum of %s" % (sw["solver_ok"], ss))
    api.expect(sw["has_converged"] is (sw["solver_ok"] and sw["condition_ok"]), "has_converged is %s" % sw["has_converged"])
    api.expect(sol["status"] is sw["has_converged"], "status is %s" % sol["status"])
    co = tol["condition_options"]
    cs = sw["condition_status"]
    logic = cs["cond_electric"] < co["tolerance_electric"] and cs["cond_magnetic"] < co["tolerance_magnetic"]
    api.expect(sw["condition_ok"] is bool(logic), "condition_ok is %s for %s" % (sw["condition_ok"], cs))
    ctx.label("solver %s, condition %s" % (sw["solver_ok"], sw["condition_ok"]))


def pypeec_solver():
    import pypeec
    return pypeec.run_solver_data


PROP = Prop("C23", [
    Part("status", cases, check, quick=900, thorough=30000),
    Part("stop", stop_cases, check_stop, quick=500, thorough=15000),
    Part("diverge", diverge_cases, check_diverge, quick=40, thorough=1500),
    Part("extreme", extreme_cases, check_extreme, quick=250, thorough=8000),
], rule="random mixed problems solved with truncated or generous iterations, random residual and condition limits; the residual is "
        "recomputed with the dense reference operator from the returned fields; trivial without face or excitation")
