"""C20: names, order and splitting of the domains and materials."""

import copy

import numpy as np
from hypothesis import strategies as st

from pv import api, gen
from pv.engine import Part, Prop

TOL = 2e-6
WORDS = ["Coil", "a", "zz", "0", "x y", "core-1", "B", "none", "ü", "dom", "A_1", "src", "mat", "_", "99", "Null", "Z z", "m", "n", "w"]


@st.composite
def cases(draw, tier, block=False):
    case = draw(gen.mixed(tier, block, kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_nv=24, max_src=3, pts=True))
    case["order"] = 0
    case["perm"] = draw(st.integers(1, 10 ** 6))
    for key in ("rename", "reorder", "voxels", "split", "split_mat", "sweeps"):
        case["do_" + key] = draw(st.booleans())
    case["split_at"] = [draw(st.integers(0, 9)) for _ in range(3)]
    return case


def _voxel_values(dom, definition, value):
    """Values of a material or source keyed by voxel (only for the distributed ones)."""
    if definition["var_type"] == "lumped":
        return None
    idx = [i for k in definition["domain_list"] for i in dom[k]]
    return {tag: dict(zip(idx, v)) for tag, v in value.items()}


def transform(case, geo, problem):
    """Equivalent geometry and problem; maps of the source and material names."""
    rng = np.random.default_rng(case["perm"])
    geo = copy.deepcopy(geo)
    problem = copy.deepcopy(problem)
    dom = geo["data_voxelize"]["domain_index"]
    par = problem["sweep_solver"]["sim"]["param"]
    mixed = [("material_def", "material_val"), ("source_def", "source_val")]
    cache = {}
    for (d, v) in mixed:
        for name in problem[d]:
            cache[d, name] = _voxel_values(dom, problem[d][name], par[v][name])

    def shuffled(lst):
        lst = list(lst)
        return [lst[i] for i in rng.permutation(len(lst))]

    # voxel order
    if case["do_voxels"]:
        dom = {k: shuffled(v) for k, v in dom.items()}
    # split the domains
    if case["do_split"]:
        new, repl = {}, {}
        for k, v in dom.items():
            cut = int(rng.integers(0, len(v) + 1)) if rng.integers(0, 4) else len(v)
            parts = {k + "_p1": v[:cut], k + "_p2": v[cut:]}
            new.update(parts)
            repl[k] = list(parts)
        dom = new
        for (d, _) in mixed:
            for spec in problem[d].values():
                spec["domain_list"] = [p for k in spec["domain_list"] for p in repl[k]]
    # split one material into two with the same values
    parts = {name: [name] for name in problem["material_def"]}
    if case["do_split_mat"]:
        for name in list(problem["material_def"]):
            spec = problem["material_def"][name]
            if len(spec["domain_list"]) > 1:
                cut = 1 + int(rng.integers(0, len(spec["domain_list"]) - 1))
                (one, two) = (copy.deepcopy(spec), copy.deepcopy(spec))
                (one["domain_list"], two["domain_list"]) = (spec["domain_list"][:cut], spec["domain_list"][cut:])
                problem["material_def"][name] = one
                problem["material_def"][name + "_b"] = two
                par["material_val"][name + "_b"] = copy.deepcopy(par["material_val"][name])
                cache["material_def", name + "_b"] = cache["material_def", name]
                parts[name] = [name, name + "_b"]
    # orders
    if case["do_reorder"]:
        dom = {k: dom[k] for k in shuffled(dom)}
        for (d, v) in mixed:
            problem[d] = {k: problem[d][k] for k in shuffled(problem[d])}
            par[v] = {k: par[v][k] for k in shuffled(par[v])}
            for spec in problem[d].values():
                spec["domain_list"] = shuffled(spec["domain_list"])
    # the values follow their voxels
    for (d, v) in mixed:
        for name, spec in problem[d].items():
            vox = cache[d, name]
            if vox is not None:
                idx = [i for k in spec["domain_list"] for i in dom[k]]
                par[v][name] = {tag: [vals[i] for i in idx] for tag, vals in vox.items()}
    # names
    src_map = {k: k for k in problem["source_def"]}
    sweep = "sim"
    if case["do_rename"]:
        words = shuffled(WORDS) + ["extra_%d" % i for i in range(200)]
        dmap = dict(zip(dom, words))
        dom = {dmap[k]: v for k, v in dom.items()}
        words = shuffled(WORDS) + ["extra_%d" % i for i in range(200)]
        mmap = dict(zip(problem["material_def"], words))
        words = shuffled(WORDS) + ["extra_%d" % i for i in range(200)]
        src_map = dict(zip(problem["source_def"], words))
        for (d, v, m) in (("material_def", "material_val", mmap), ("source_def", "source_val", src_map)):
            problem[d] = {m[k]: dict(s, domain_list=[dmap[q] for q in s["domain_list"]]) for k, s in problem[d].items()}
            par[v] = {m[k]: s for k, s in par[v].items()}
        parts = {k: [mmap[q] for q in v] for k, v in parts.items()}
        sweep = shuffled(WORDS)[0]
    problem["sweep_solver"] = {sweep: problem["sweep_solver"]["sim"]}
    if case["do_sweeps"]:
        # other sweeps around it
        extra = copy.deepcopy(problem["sweep_solver"][sweep])
        extra["param"]["freq"] = extra["param"]["freq"] * 2.0 + 1.0
        problem["sweep_solver"] = {"first sweep": extra, sweep: problem["sweep_solver"][sweep], "last sweep": copy.deepcopy(extra)}
    geo["data_voxelize"]["domain_index"] = dom
    return geo, problem, src_map, parts, sweep


def check(case, ctx):
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    (geo, problem) = (prob.geometry(), prob.problem())
    (geo2, problem2, src_map, parts, sweep) = transform(case, geo, problem)
    tol = gen.any_tolerance(case)
    for key in ("rename", "reorder", "voxels", "split", "split_mat", "sweeps"):
        if case["do_" + key]:
            ctx.label(key)
    if not any(case["do_" + k] for k in ("rename", "reorder", "voxels", "split", "split_mat", "sweeps")):
        ctx.trivial("nothing changed")
    A = gen.Solution(api.solve(api.mesh(geo), problem, tol))
    B = gen.Solution(api.solve(api.mesh(geo2), problem2, tol), sweep)
    api.expect(set(B.sw["source"]) == set(src_map.values()), "sources %s instead of %s" % (list(B.sw["source"]), list(src_map.values())))
    api.expect(set(B.sw["material"]) == {p for v in parts.values() for p in v}, "materials %s" % list(B.sw["material"]))
    gen.compare("reorganised problem", A, B, floor, TOL, sources=src_map, materials={})
    for name, lst in parts.items():
        for q in ("P_electric", "P_magnetic", "P_total"):
            tot = sum(B.sw["material"][p][q] for p in lst)
            api.close("reorganised problem: %s of material %s" % (q, name), tot, A.sw["material"][name][q], TOL, floor[q])
    # the values of the base problem follow their voxels (reference model)
    gen.check_against(prob, A.raw, ref, 1e-6)


PROP = Prop("C20", [Part("reorganised", cases, check, quick=800, thorough=26000), Part("block", lambda tier: cases(tier, block=True), check, quick=50, thorough=2000)],
            rule="random mixed problems and an equivalent description with other names, orders, voxel orders, split domains and materials; "
                 "trivial without face, excitation or change")
