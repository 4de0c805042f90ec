"""C27: aggregated quantities, indices and counters."""

import numpy as np
from hypothesis import strategies as st

from pv import api, gen, model
from pv.engine import Part, Prop

TOL = 1e-8


@st.composite
def cases(draw, tier, block=False):
    kinds = draw(st.sampled_from([gen.MIXED, gen.MIXED, ("electric",)]))
    case = draw(gen.mixed(tier, block, kinds=kinds, freqs=("dc", "ac", "ac"), max_nv=27, max_src=3, max_mat=3, pts=True) if block else
                gen.problem_cases(kinds=kinds, freqs=("dc", "ac", "ac"), max_nv=27, max_src=3, pts=True))
    # electromagnetic materials defined as an electric and a magnetic material of the same domains
    case["split"] = draw(st.booleans())
    case["truncate"] = draw(st.integers(0, 3)) == 0
    return case


def check(case, ctx):
    prob = gen.Problem(case)
    if not prob.well_posed:
        ctx.trivial("no conductor")
        return
    gen.labels(prob, ctx)
    base = prob.problem()
    mdef = base["material_def"]
    mval = base["sweep_solver"]["sim"]["param"]["material_val"]
    if case["split"]:
        for name in list(mdef):
            if mdef[name]["material_type"] == "electromagnetic":
                ctx.label("split")
                for (suffix, kind, tag) in (("_m", "magnetic", "chi_"), ("_e", "electric", "rho_")):
                    mdef[name + suffix] = dict(mdef[name], material_type=kind)
                    mval[name + suffix] = {tag + t: mval[name][tag + t] for t in ("re", "im")}
                del mdef[name], mval[name]
    dom = prob.domains()
    vox = api.mesh(prob.geometry())
    tol = gen.any_tolerance(case)
    if case["truncate"]:
        # sums hold for every solution, also for the aborted ones
        tol["solver_options"]["direct_options"].update(n_inner=2, n_outer=1)
    sol = api.solve(vox, base, tol)
    S = gen.Solution(sol)
    (P_c, P_m) = (S.field("P_c"), S.field("P_m"))
    vol = prob.d[0] * prob.d[1] * prob.d[2]
    # densities have one row per voxel
    init = sol["data_init"]
    api.expect(sorted(S.vc) == prob.electric, "electric voxel indices")
    api.expect(sorted(S.vm) == prob.magnetic, "magnetic voxel indices")
    for name, n in (("V_c", 0), ("P_c", 0), ("S_c", 0), ("J_c", 3), ("V_m", 0), ("P_m", 0), ("Q_m", 0), ("B_m", 3)):
        cnt = len(prob.electric) if name.endswith("_c") else len(prob.magnetic)
        var = S.sw["var"][name]
        api.expect(np.shape(var["var"]) == ((cnt, 3) if n else (cnt,)), "shape of %s: %s" % (name, np.shape(var["var"])))
        api.expect(var["cat"] == ("vector" if n else "scalar") + ("_electric" if name.endswith("_c") else "_magnetic"), "category of " + name)
    api.expect(np.shape(S.sw["var"]["H_p"]["var"]) == (len(prob.pts), 3) and S.sw["var"]["H_p"]["cat"] == "cloud", "shape of H_p")
    # losses
    floor_e = vol * sum(abs(v) for v in P_c.values()) + 1e-290
    floor_m = vol * sum(abs(v) for v in P_m.values()) + 1e-290
    tot_e = tot_m = 0.0
    api.expect(set(S.sw["material"]) == set(mdef), "materials %s instead of %s" % (list(S.sw["material"]), list(mdef)))
    for name, spec in mdef.items():
        idx = [i for k in spec["domain_list"] for i in dom[k]]
        pe = vol * sum(P_c[i] for i in idx) if spec["material_type"] != "magnetic" else 0.0
        pm = vol * sum(P_m[i] for i in idx) if spec["material_type"] != "electric" else 0.0
        got = S.sw["material"][name]
        # the losses of a face between two materials are shared by them
        api.close("electric losses of " + name, got["P_electric"], pe, TOL, floor_e)
        api.close("magnetic losses of " + name, got["P_magnetic"], pm, TOL, floor_m)
        api.close("losses of " + name, got["P_total"], pe + pm, TOL, floor_e + floor_m)
        tot_e += got["P_electric"]
        tot_m += got["P_magnetic"]
    I = S.sw["integral"]
    api.close("sum of the electric losses", I["P_electric"], tot_e, TOL, floor_e)
    api.close("sum of the magnetic losses", I["P_magnetic"], tot_m, TOL, floor_m)
    api.close("density of the electric losses", I["P_electric"], vol * sum(P_c.values()), TOL, floor_e)
    api.close("density of the magnetic losses", I["P_magnetic"], vol * sum(P_m.values()), TOL, floor_m)
    api.close("total losses", I["P_total"], I["P_electric"] + I["P_magnetic"], TOL, floor_e + floor_m)
    api.close("total energy", I["W_total"], I["W_electric"] + I["W_magnetic"], TOL, abs(I["W_electric"]) + abs(I["W_magnetic"]) + 1e-290)
    src = S.sw["source"]
    api.close("total power", I["S_total"], sum(s["S"] for s in src.values()), TOL, sum(abs(s["S"]) for s in src.values()) + 1e-290)
    # geometry
    api.expect(list(init["n"]) == list(prob.n), "n %s" % (init["n"],))
    api.close("d", init["d"], prob.d, 1e-12)
    api.close("c", init["c"], prob.c, 1e-12, 1.0)
    span = max(abs(v) for v in prob.c) + max(prob.n[a] * prob.d[a] for a in range(3))
    for key, idx in (("pts_net_c", S.vc), ("pts_net_m", S.vm)):
        exp = np.array([model.center(prob.n, prob.d, prob.c, i) for i in idx]).reshape((len(idx), 3))
        api.close(key, init[key], exp, 1e-11, span)
    api.close("pts_cloud", np.reshape(init["pts_cloud"], (-1, 3)), np.array(prob.pts).reshape((-1, 3)), 1e-12, span)
    (fc, fm) = (model.faces(prob.n, prob.electric), model.faces(prob.n, prob.magnetic))
    for key, lst in (("idx_fc", fc), ("idx_fm", fm)):
        exp = sorted(a * prob.nv + i for (a, i, _) in lst)
        api.expect(sorted(int(v) for v in init[key]) == exp, "%s %s instead of %s" % (key, sorted(int(v) for v in init[key]), exp))
    cur = sorted(i for i in range(prob.nv) if prob.src[i] and prob.sources[prob.src[i] - 1]["type"] == "current")
    vlt = sorted(i for i in range(prob.nv) if prob.src[i] and prob.sources[prob.src[i] - 1]["type"] == "voltage")
    for key, exp in (("idx_src_c", cur), ("idx_src_v", vlt)):
        api.expect(sorted(int(v) for v in init[key]) == exp, "%s %s instead of %s" % (key, init[key], exp))
    (nc, nm) = (len(prob.electric), len(prob.magnetic))
    exp = {
        "n_voxel_total": prob.nv, "n_face_total": 3 * prob.nv, "n_voxel_used": nc + nm, "n_face_used": len(fc) + len(fm),
        "n_voxel_electric": nc, "n_voxel_magnetic": nm, "n_face_electric": len(fc), "n_face_magnetic": len(fm),
        "n_src_current": len(cur), "n_src_voltage": len(vlt), "ratio_voxel": (nc + nm) / prob.nv,
        "ratio_face": (len(fc) + len(fm)) / (3 * prob.nv),
    }
    got = init["problem_status"]
    for key, val in exp.items():
        api.expect(abs(got[key] - val) < 1e-9, "%s is %s instead of %s" % (key, got[key], val))
    if not fc:
        ctx.trivial("no face")


PROP = Prop("C27", [
    Part("sums", cases, check, quick=1500, thorough=40000),
    Part("block", lambda tier: cases(tier, block=True), check, quick=80, thorough=3000),
    Part("large", lambda tier: cases(tier, block="large"), check, quick=24, thorough=800),
], rule="random electric and mixed problems (electromagnetic materials also as two materials, converged and aborted iterations): sums of "
        "the returned densities, indices from a plain enumeration of the grid; trivial without face")
