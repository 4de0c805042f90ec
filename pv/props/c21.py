"""C21: equivalent ways to give the material and source values."""

import copy

from hypothesis import strategies as st

from pv import api, gen
from pv.engine import Part, Prop

TOL = 2e-6


@st.composite
def cases(draw, tier, block=False):
    case = draw(gen.mixed(tier, block, kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_nv=24, max_src=3, pts=True))
    for m in case["materials"]:
        m["var"] = draw(st.sampled_from(["lumped", "lumped", "distributed"]))
    for s in case["sources"]:
        s["var"] = "lumped"
    for key in ("mat_dist", "mat_aniso", "src_dist", "em_split"):
        case["do_" + key] = draw(st.booleans())
    case["first"] = draw(st.booleans())
    return case


def transform(case, geo, problem, ctx):
    problem = copy.deepcopy(problem)
    dom = geo["data_voxelize"]["domain_index"]
    par = problem["sweep_solver"]["sim"]["param"]
    parts = {k: [k] for k in problem["material_def"]}
    for name in list(problem["material_def"]):
        spec = problem["material_def"][name]
        val = par["material_val"][name]
        idx = [i for k in spec["domain_list"] for i in dom[k]]
        if case["do_mat_aniso"] and spec["orientation_type"] == "isotropic":
            ctx.label("isotropic as anisotropic")
            spec["orientation_type"] = "anisotropic"
            for tag in val:
                val[tag] = [[v] * 3 for v in val[tag]] if spec["var_type"] == "distributed" else [val[tag]] * 3
        if case["do_mat_dist"] and spec["var_type"] == "lumped":
            ctx.label("lumped as distributed material")
            spec["var_type"] = "distributed"
            for tag in val:
                val[tag] = [copy.copy(val[tag]) for _ in idx]
        if case["do_em_split"] and spec["material_type"] == "electromagnetic":
            ctx.label("electromagnetic as two materials")
            (e, m) = (copy.deepcopy(spec), copy.deepcopy(spec))
            e["material_type"] = "electric"
            m["material_type"] = "magnetic"
            del problem["material_def"][name]
            del par["material_val"][name]
            items = [(name + "_e", e, {t: v for t, v in val.items() if t.startswith("rho")}),
                     (name + "_m", m, {t: v for t, v in val.items() if t.startswith("chi")})]
            for (nn, sp, vv) in items if case["first"] else items[::-1]:
                problem["material_def"][nn] = sp
                par["material_val"][nn] = vv
            parts[name] = [name + "_e", name + "_m"]
    for name, spec in problem["source_def"].items():
        if not case["do_src_dist"]:
            continue
        ctx.label("lumped as distributed source", "dist-" + spec["source_type"])
        val = par["source_val"][name]
        cnt = sum(len(dom[k]) for k in spec["domain_list"])
        spec["var_type"] = "distributed"
        for tag in val:
            f = {"I": 1.0 / cnt, "Y": 1.0 / cnt, "V": 1.0, "Z": float(cnt)}[tag[0]]
            val[tag] = [val[tag] * f for _ in range(cnt)]
    return problem, parts


def check(case, ctx):
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    (geo, problem) = (prob.geometry(), prob.problem())
    (problem2, parts) = transform(case, geo, problem, ctx)
    if problem == problem2:
        ctx.trivial("nothing changed")
    tol = gen.any_tolerance(case)
    vox = api.mesh(geo)
    A = gen.Solution(api.solve(vox, problem, tol))
    B = gen.Solution(api.solve(vox, problem2, tol))
    gen.compare("equivalent values", A, B, floor, TOL, materials={})
    for name, lst in parts.items():
        for q in ("P_electric", "P_magnetic", "P_total"):
            tot = sum(B.sw["material"][p][q] for p in lst)
            api.close("equivalent values: %s of material %s" % (q, name), tot, A.sw["material"][name][q], TOL, floor[q])
    if len(lst) == 2:
        api.expect(B.sw["material"][lst[0]]["P_magnetic"] == 0 or lst[0].endswith("_m"), "magnetic losses of an electric material")


PROP = Prop("C21", [Part("equivalent", cases, check, quick=800, thorough=26000), Part("block", lambda tier: cases(tier, block=True), check, quick=50, thorough=2000)],
            rule="random mixed problems given in two equivalent ways (lumped/distributed, isotropic/anisotropic, electromagnetic as two "
                 "materials); trivial without face, excitation or change")
