"""C24: ill-posed problems are refused."""

import copy

import numpy as np
from hypothesis import strategies as st

from pv import api, gen, model
from pv.engine import Part, Prop

DEFECTS = ("mat_unknown", "src_unknown", "mat_missing", "src_missing", "mat_tag", "src_tag", "src_outside", "src_partly_outside",
           "src_magnetic", "no_conductor", "no_conductor_domain", "no_source", "empty_source", "component", "component", "component",
           "length_mat", "length_src", "length_mat", "length_src", "kind_mat", "kind_src", "other_domain_length", "typo_domain")


@st.composite
def cases(draw, tier):
    case = draw(gen.problem_cases(kinds=gen.MIXED, freqs=("dc", "ac"), max_nv=27, max_src=3))
    case["defect"] = draw(st.sampled_from(DEFECTS))
    case["pick"] = [draw(st.integers(0, 1000)) for _ in range(4)]
    return case


def pick(lst, k):
    lst = list(lst)
    return lst[k % len(lst)] if lst else None


def inject(case, prob):
    """Good and bad version of (geometry, problem); None if the defect does not apply."""
    (k0, k1, k2, k3) = case["pick"]
    kind = case["defect"]
    geo = prob.geometry()
    good = prob.problem()
    bad = copy.deepcopy(good)
    par = bad["sweep_solver"]["sim"]["param"]
    (mdef, sdef, mval, sval) = (bad["material_def"], bad["source_def"], par["material_val"], par["source_val"])
    dom = geo["data_voxelize"]["domain_index"]
    dom["void"] = []
    empty = [i for i in range(prob.nv) if not prob.mat[i]]
    m = pick(mdef, k0)
    s = pick(sdef, k0)
    if kind in ("mat_unknown", "src_unknown"):
        lst = (mdef[m] if kind == "mat_unknown" else sdef[s])["domain_list"]
        lst.insert(k1 % (len(lst) + 1), "no_such_domain")
    elif kind == "typo_domain":
        lst = (mdef[m] if k1 % 2 else sdef[s])["domain_list"]
        lst[k2 % len(lst)] = lst[k2 % len(lst)].upper()
    elif kind == "mat_missing":
        mval["other"] = mval.pop(m)
    elif kind == "src_missing":
        sval["other"] = sval.pop(s)
    elif kind == "mat_tag":
        del mval[m][pick(mval[m], k1)]
    elif kind == "src_tag":
        del sval[s][pick(sval[s], k1)]
    elif kind in ("src_outside", "src_partly_outside"):
        if not empty:
            return None
        some = empty[:1 + k1 % len(empty)]
        dom["air"] = list(some)
        s = "air_src" if kind == "src_outside" else s
        if kind == "src_outside":
            v = k2 % 2
            sdef[s] = {"domain_list": ["air"], "source_type": ["current", "voltage"][v], "var_type": "lumped"}
            sval[s] = {t: 1.0 for t in (("V_re", "V_im", "Z_re", "Z_im") if v else ("I_re", "I_im", "Y_re", "Y_im"))}
        else:
            if sdef[s]["var_type"] == "distributed":
                for t in sval[s]:
                    sval[s][t] = sval[s][t] + [0.5] * len(some)
            sdef[s]["domain_list"].append("air")
    elif kind == "src_magnetic":
        mags = [i for i in prob.magnetic if i not in prob.electric]
        if not mags:
            return None
        name = prob.domain_name(pick(mags, k1))
        v = k2 % 2
        sdef["mag_src"] = {"domain_list": [name], "source_type": ["current", "voltage"][v], "var_type": "lumped"}
        sval["mag_src"] = {t: 1.0 for t in (("V_re", "V_im", "Z_re", "Z_im") if v else ("I_re", "I_im", "Y_re", "Y_im"))}
    elif kind == "no_conductor":
        for name, spec in list(mdef.items()):
            if spec["material_type"] != "magnetic":
                spec["material_type"] = "magnetic"
                for t in ("re", "im"):
                    mval[name].setdefault("chi_" + t, mval[name].get("rho_" + t))
        if k1 % 2:
            for name, spec in sdef.items():
                spec["domain_list"] = ["void"] if k3 % 3 else []
                if spec["var_type"] == "distributed":
                    sval[name] = {t: [] for t in sval[name]}
    elif kind == "no_conductor_domain":
        for name, spec in mdef.items():
            if spec["material_type"] != "magnetic":
                spec["domain_list"] = ["void"] if k3 % 3 else []
                if spec["var_type"] == "distributed":
                    mval[name] = {t: [] for t in mval[name]}
    elif kind == "no_source":
        for name in list(sdef):
            del sdef[name], sval[name]
    elif kind == "empty_source":
        for name, spec in sdef.items():
            spec["domain_list"] = ["void"] if k3 % 3 else []
            if spec["var_type"] == "distributed":
                sval[name] = {t: [] for t in sval[name]}
    elif kind == "component":
        # sources of one connected group of voxels removed
        groups = model.components(prob.n, sorted(prob.electric))
        g = set(pick(groups, k1))
        q = copy.copy(prob)
        q.src = [0 if i in g else v for i, v in enumerate(prob.src)]
        if not any(q.src):
            return None
        return geo, good, q.geometry(), q.problem()
    elif kind in ("length_mat", "length_src", "kind_mat", "kind_src", "other_domain_length"):
        (d, v) = (sdef, sval) if kind.endswith("src") else (mdef, mval)
        name = pick(d, k0)
        tag = pick(v[name], k1)
        val = v[name][tag]
        if kind == "other_domain_length":
            # a domain leaves the material, its values stay
            if d[name]["var_type"] != "distributed" or len(d[name]["domain_list"]) < 2:
                return None
            d[name]["domain_list"].pop(k2 % len(d[name]["domain_list"]))
        elif d[name]["var_type"] == "distributed":
            if kind.startswith("kind"):
                if len(val) == 0 or (isinstance(val[0], list) and k2 % 2):
                    v[name][tag] = [r[:2] for r in val] if val else [1.0]
                elif len(val) == 1:
                    return None
                else:
                    v[name][tag] = 1.0
            else:
                # also wrong lengths that broadcast or match other counts (one, three, number of voxels of the grid)
                opts = [val[:-1], val + val[-1:], val[:1], val + val, (val * 3)[:3], (val * prob.nv)[:prob.nv]]
                opts = [o for o in opts if len(o) != len(val)]
                new = pick(opts, k2)
                if k3 % 2:
                    for t in v[name]:
                        v[name][t] = pick([o for o in [v[name][t] * prob.nv]], 0)[:len(new)]
                else:
                    v[name][tag] = new
        elif kind == "kind_mat" and d[name]["orientation_type"] == "anisotropic":
            v[name][tag] = pick([val[:2], val + [1.0], 1.0, val[:1]], k2)
        elif kind.startswith("kind"):
            cnt = sum(len(dom[q]) for q in d[name]["domain_list"])
            v[name][tag] = pick([[val], [val] * 3, [val] * cnt, [val] * 2], k2)
        else:
            return None
    return prob.geometry(), good, geo, bad


def check(case, ctx):
    import pypeec
    prob = gen.Problem(case)
    if not prob.well_posed:
        ctx.trivial("no conductor")
        return
    out = inject(case, prob)
    if out is None:
        ctx.trivial("defect does not apply")
        return
    (geo, good, geo_bad, bad) = out
    ctx.label(case["defect"])
    tol = gen.any_tolerance(case)
    vox = api.mesh(geo)
    api.solve(vox, good, tol)
    vox_bad = api.mesh(geo_bad)
    api.refused("problem with the defect %s" % case["defect"], pypeec.run_solver_data, vox_bad, bad, tol)
    # the good one is still accepted
    api.solve(vox_bad if case["defect"] not in ("src_outside", "src_partly_outside", "component") else vox, good, tol)


@st.composite
def islands(draw, tier, sizes=([9, 1, 1], [5, 5, 1], [1, 6, 4], [4, 4, 3], [3, 3, 3], [12, 2, 1])):
    """Scattered voxels: many components, also single voxels, conductors separated by magnetic or unused voxels."""
    n = draw(st.sampled_from([list(v) for v in sizes]))
    return {
        "n": n, "seed": draw(st.integers(0, 10 ** 6)), "fill": draw(st.sampled_from([0.15, 0.3, 0.5, 0.7])),
        "drop": draw(st.sampled_from([0, 0, 1, 1, 1, 2])), "pick": draw(st.integers(0, 30)), "prefer": draw(st.sampled_from(["single", "any", "large"])),
        "more": draw(st.integers(0, 2)), "freq": draw(st.sampled_from([0.0, 1e4])), "floating": draw(st.booleans()),
        "kinds": draw(st.lists(st.sampled_from(["electric", "electric", "magnetic", "electromagnetic", "unused"]), min_size=1, max_size=3)),
    }


def check_islands(case, ctx):
    import pypeec
    n = case["n"]
    nv = n[0] * n[1] * n[2]
    rng = np.random.default_rng(case["seed"])
    kind = {i: case["kinds"][int(rng.integers(0, len(case["kinds"])))] for i in range(nv) if rng.random() < case["fill"]}
    groups = model.components(n, sorted(kind))
    need = model.components(n, sorted(i for i in kind if "electr" in kind[i]))
    if not need:
        ctx.trivial("no conductor")
        return
    order = sorted(range(len(need)), key=lambda k: len(need[k]) if case["prefer"] == "single" else -len(need[k]) if case["prefer"] == "large" else k)
    drop = set(order[(case["pick"] + j) % len(order) if case["prefer"] == "any" else j] for j in range(min(case["drop"], len(order))))
    src = {}
    for (k, e) in enumerate(need):
        if k not in drop:
            for i in rng.permutation(e)[:1 + int(rng.integers(0, case["more"] + 1))]:
                # at least one voltage source per component, or an admittance
                src[int(i)] = "voltage" if case["floating"] or i % 2 else "current"
    if not src:
        ctx.trivial("no source at all")
        return
    dom = {}
    for (i, k) in kind.items():
        dom.setdefault("%s_%s" % (k, src.get(i, "none")), []).append(i)
    mdef, mval, sdef, sval = {}, {}, {}, {}
    for k in sorted(set(kind.values()) - {"unused"}):
        mdef[k] = {"domain_list": [t for t in dom if t.split("_")[0] == k], "material_type": k, "orientation_type": "isotropic", "var_type": "lumped"}
        mval[k] = dict({"rho_re": 1e-6, "rho_im": 0.0} if k != "magnetic" else {}, **({"chi_re": 5.0, "chi_im": 1.0} if k != "electric" else {}))
    for s in sorted(set(src.values())):
        sdef[s] = {"domain_list": [t for t in dom if t.split("_")[1] == s], "source_type": s, "var_type": "lumped"}
        sval[s] = {t: v for t, v in ((("V_re", 1.0), ("V_im", 0.0), ("Z_re", 0.1), ("Z_im", 0.0)) if s == "voltage" else
                                     (("I_re", 1.0), ("I_im", 0.0), ("Y_re", 2.0), ("Y_im", 0.0)))}
    vox = api.mesh(api.geometry_voxel(n, [1e-3, 2e-3, 1e-3], [0.0, 0.0, 0.0], dom))
    data = {"material_def": mdef, "source_def": sdef, "sweep_solver": {"sim": {"init": None, "param": {"freq": case["freq"], "material_val": mval, "source_val": sval}}}}
    ctx.label("components=%d" % min(6, len(groups)), "dropped=%d" % len(drop), "single" if any(len(need[k]) == 1 for k in drop) else "several")
    if drop:
        api.refused("components without a source: %s" % [need[k] for k in sorted(drop)], pypeec.run_solver_data, vox, data, api.tolerance())
    else:
        api.solve(vox, data, api.tolerance())


PROP = Prop("C24", [
    Part("islands", islands, check_islands, quick=900, thorough=20000),
    Part("many islands", lambda tier: islands(tier, [(18, 16, 2), (8, 7, 8), (150, 2, 1), (40, 30, 1), (300, 1, 1)]), check_islands, quick=48, thorough=1500),
    Part("defects", cases, check, quick=1500, thorough=40000),
], rule="random mixed well-posed problems (accepted) and the same with one defect (refused with an error), scattered voxels with and without a source in every component; trivial if the defect does not apply")
