"""C36: repeatability and histories of runs."""

import copy
import os
import pickle

import numpy as np
from hypothesis import strategies as st

from pv import api, files, fresh, gen, plots
from pv.engine import Part, Prop

TOL = 5e-6
NAMES = {"geometry": ".json", "problem": ".yaml", "tolerance": ".json", "voxel": ".pck", "solution": ".pck"}
CHANGES = ["d", "d", "c", "rho", "chi", "freq", "src", "order", "grow", "same", "pts", "new"]


@st.composite
def cases(draw, tier):
    probs = [draw(gen.problem_cases(kinds=draw(st.sampled_from([gen.MIXED, ("electric",)])), freqs=("dc", "ac", "ac"), max_nv=12, max_src=2, pts=True))]
    for _ in range(draw(st.integers(1, 2))):
        change = draw(st.sampled_from(CHANGES))
        q = copy.deepcopy(probs[-1])
        if change == "d":
            turn = draw(st.integers(0, 2))
            q["d"] = q["d"][turn:] + q["d"][:turn] if turn else [draw(st.sampled_from(gen.D_BASE)) for _ in range(3)]
        elif change == "c":
            q["c"] = [1.5, -2.25, 0.5]
        elif change in ("rho", "chi"):
            for m in q["materials"]:
                m[change + "_re"] = [draw(st.sampled_from([0.5, 2.0, 7.0])) for _ in range(3)]
        elif change == "freq":
            q["wl"] = draw(st.sampled_from([0.0, 0.3, 3.0]))
        elif change == "src":
            for s in q["sources"]:
                s["re"] = draw(st.sampled_from([-2.0, 1.0, 3.0]))
                s["type"] = draw(st.sampled_from(["current", "voltage"]))
        elif change == "order":
            q["order"] = draw(st.integers(0, 50))
        elif change == "grow":
            q["embed"] = {"lo": [1, 0, 0], "hi": [0, 2, 0], "axis": 0, "pos": 0, "gap": 0}
        elif change == "pts":
            q["pts"] = [[draw(st.integers(-12, 12)) for _ in range(3)] for _ in range(draw(st.integers(0, 3)))]
        elif change == "new":
            q = draw(gen.problem_cases(kinds=gen.MIXED, freqs=("dc", "ac"), max_nv=12, max_src=2, pts=True))
        probs.append(q)
    k = st.integers(0, len(probs) - 1)
    op = st.one_of(
        st.tuples(st.just("solve"), k, st.integers(0, 23)),
        st.tuples(st.just("solve"), k, st.sampled_from([0, 1, 12, 13])),
        st.tuples(st.just("mesh"), k, st.integers(0, 2)),
        st.tuples(st.just("fail"), k, st.integers(0, 5)),
        st.tuples(st.just("plot"), k, st.integers(0, 1)),
        st.tuples(st.just("file"), k, st.integers(0, 5)),
        st.tuples(st.sampled_from(["png", "stl", "shape"]), st.just(0), st.integers(1, 15)),
    ).map(list)
    return {"probs": probs, "ops": draw(st.lists(op, min_size=3, max_size=7))}


@st.composite
def solver_cases(draw, tier):
    """Two similar problems solved several times."""
    one = draw(gen.problem_cases(kinds=draw(st.sampled_from([gen.MIXED, ("electric",)])), freqs=("ac",), min_nv=4, max_nv=18, max_src=2))
    two = copy.deepcopy(one)
    turn = draw(st.integers(1, 2))
    two["d"] = draw(st.sampled_from([one["d"], one["d"][turn:] + one["d"][:turn], [2.0 * v for v in one["d"]]]))
    op = st.tuples(st.just("solve"), st.integers(0, 1), st.sampled_from([0, 12])).map(list)
    base = draw(st.sampled_from([0, 0, 1, 2, 4, 6, 9]))
    return {"probs": [one, two], "ops": [["solve", k, i + base] for (_, k, i) in draw(st.lists(op, min_size=2, max_size=4))]}


def options(i):
    """Numerical options number i."""
    tol = api.tolerance(mult_type=["fft", "direct"][i % 2], fft_options__matrix_split=bool(i // 2 % 2), fft_options__library=["SciPy", "NumPy"][i // 4 % 2],
                        biot_savart=["face", "voxel"][i // 6 % 2], solver_options__coupling=["direct", "segregated"][1 if i in (5, 9) else 0])
    tol["solver_options"]["direct_options"]["solver"] = ["gmres", "gcrot"][i // 3 % 2]
    if i >= 12 or i == 7:
        tol["integral_simplify"] = [1.5, 0.5][i // 12]
    return tol


def geometry(prob, i):
    return prob.geometry(resample=[None, [2, 1, 1], None][i], reduce=i == 2)


def run_mesh(geo):
    import pypeec
    return pypeec.run_mesher_data(geo)


def run_solve(geo, problem, tol):
    import pypeec
    return pypeec.run_solver_data(pypeec.run_mesher_data(geo), problem, tol)


def drawing(kind, i, folder):
    """Geometry with external files (always the same file names), content number i."""
    bits = [(i >> b) & 1 for b in range(4)]
    geo = api.geometry_voxel([1, 1, 1], [1.0, 1.0, 1.0], [0.0, 0.0, 0.0], {})
    geo["mesh_type"] = kind
    path = os.path.join(folder, "file." + kind)
    if kind == "png":
        from PIL import Image
        img = Image.new("RGBA", (2, 2))
        img.putdata([(255, 0, 0, 255) if b else (0, 0, 9, 255) for b in bits])
        img.save(path)
        geo["data_voxelize"] = {
            "param": {"d": [1.0, 1.0, 0.5], "c": [0.0, 0.0, 0.0], "size": [2, 2]},
            "domain_color": {"a": [[255, 0, 0, 255]], "b": [[0, 0, 9, 255]]},
            "layer_stack": [{"n_layer": 1, "filename_list": [path]}],
        }
    elif kind == "stl":
        size = [1.0 + bits[0] + 2.0 * bits[1], 1.0 + bits[2], 1.0 + bits[3]]
        tri = [((0, 2, 6, 4), 0), ((1, 5, 7, 3), 0), ((0, 4, 5, 1), 0), ((2, 3, 7, 6), 0), ((0, 1, 3, 2), 0), ((4, 6, 7, 5), 0)]
        with open(path, "w") as fid:
            fid.write("solid a\n")
            for (quad, _) in tri:
                for f in ((quad[0], quad[1], quad[2]), (quad[0], quad[2], quad[3])):
                    fid.write("facet normal 0 0 0\nouter loop\n")
                    for v in f:
                        fid.write("vertex %f %f %f\n" % tuple(size[a] * ((v >> a) & 1) for a in range(3)))
                    fid.write("endloop\nendfacet\n")
            fid.write("endsolid a\n")
        geo["data_voxelize"] = {
            "param": {"d": [1.0, 1.0, 1.0], "xyz_min": [-0.1, -0.1, -0.1], "xyz_max": [4.1, 3.1, 2.1]},
            "domain_stl": {"a": [{"scale": 1.0, "offset": [0.0, 0.0, 0.0], "filename": path}]},
        }
    else:
        geo["data_voxelize"] = {
            "param": {"dx": 1.0, "dy": 1.0, "dz": 1.0, "cz": 0.0, "simplify": None, "construct": None, "xy_min": [-5.0, -5.0], "xy_max": [5.0, 5.0]},
            "layer_stack": [{"n_layer": 1 + bits[3], "tag_layer": "bot"}],
            "geometry_shape": {"a": [{
                "shape_layer": ["bot"], "shape_operation": "add", "shape_type": "pad",
                "shape_data": {"diameter": 2.6 + bits[0], "coord": [[0.2 + bits[1], 0.1], [-2.3, 1.2 * bits[2]]]},
            }]},
        }
    return geo


def run_solve_file(folder):
    """Mesh and solve with files, the names are always the same."""
    import pypeec
    path = {k: os.path.join(folder, k + e) for k, e in NAMES.items()}
    pypeec.run_mesher_file(path["geometry"], path["voxel"])
    pypeec.run_solver_file(path["voxel"], path["problem"], path["tolerance"], path["solution"])
    return [pickle.loads(files.content(path[k])) for k in ("voxel", "solution")]


def failing(geo, problem, tol, i):
    """A run that fails at some stage."""
    import pypeec
    vox = pypeec.run_mesher_data(geo)
    (problem, tol) = (copy.deepcopy(problem), copy.deepcopy(tol))
    if i == 0:
        geo = copy.deepcopy(geo)
        geo["data_voxelize"]["domain_index"] = {"x": [-1]}
        return api.attempt(pypeec.run_mesher_data, geo)
    if i == 1:
        problem["sweep_solver"]["sim"]["param"]["material_val"] = {}
    elif i == 2:
        tol["fft_options"]["library"] = "FFTW"
    elif i == 3:
        tol["solver_options"]["direct_options"].update(n_inner=1, n_outer=1)
        tol["solver_options"]["tolerance_options"].update(ignore_res=False, rel_tol=1e-14, abs_tol=1e-300)
        tol["solver_options"]["segregated_options"].update(n_min=0, n_max=1)
    elif i == 4:
        problem["sweep_solver"]["sim"]["init"] = "sim"
    elif i == 5:
        tol["condition_options"].update(check=True, tolerance_electric=1e-3, tolerance_magnetic=1e-3)
    return api.attempt(pypeec.run_solver_data, vox, problem, tol)


def check(case, ctx):
    import pypeec
    server = fresh.server()
    probs, floor = [], []
    for p in case["probs"]:
        prob = gen.Problem(p)
        if not prob.well_posed:
            ctx.trivial("no conductor")
            return
        ref = prob.reference()
        if prob.pts:
            ref.field(prob.pts)
        probs.append(prob)
        floor.append(gen.floors(ref))
    # the inputs are shared by all the runs
    data = [(prob.geometry(), prob.problem()) for prob in probs]
    tols = {}
    kept = []
    wanted = {}
    vox = {}
    n_run = 0
    for (pos, (op, k, i)) in enumerate(case["ops"]):
        (geo, problem) = data[k]
        what = "step %d (%s %d %d)" % (pos, op, k, i)
        ctx.label(op)
        if op == "mesh":
            if i == 1 and probs[k].nv > 40:
                i = 0
            g = geometry(probs[k], i)
            got = api.must(what, run_mesh, g)
            (ok, exp) = server.run("pv.props.c36", "run_mesh", g)
            api.expect(ok, "%s: only fails without history: %s" % (what, exp))
            files.same_result(what, got, exp, 1e-12)
            kept.append((what, got, pickle.dumps(got)))
            n_run += 1
        elif op == "solve":
            tol = tols.setdefault(i, options(i))
            if k not in vox:
                vox[k] = api.mesh(geo)
            got = api.must(what, pypeec.run_solver_data, vox[k], problem, tol)
            if (k, i) not in wanted:
                (ok, exp) = server.run("pv.props.c36", "run_solve", *copy.deepcopy((geo, problem, tol)))
                api.expect(ok, "%s: only fails without history: %s" % (what, exp))
                wanted[k, i] = exp
            else:
                ctx.label("repeated")
            exp = wanted[k, i]
            (A, B) = (gen.Solution(got), gen.Solution(exp))
            gen.compare(what, A, B, floor[k], TOL)
            for key in ("idx_vc", "idx_vm", "idx_fc", "idx_fm", "idx_src_c", "idx_src_v", "n", "d", "c", "pts_cloud"):
                api.expect(np.array_equal(np.asarray(got["data_init"][key]), np.asarray(exp["data_init"][key])), "%s: %s depends on the history" % (what, key))
            api.expect(got["status"] == exp["status"] and A.sw["solver_ok"] == B.sw["solver_ok"] and A.sw["condition_ok"] == B.sw["condition_ok"],
                       "%s: the status depends on the history" % what)
            kept.append((what, got, pickle.dumps(got)))
            n_run += 1
        elif op == "fail":
            api.attempt(failing, geo, problem, tols.setdefault(0, options(0)), i)
        elif op == "plot":
            if k not in vox:
                vox[k] = api.mesh(geo)
            sols = [g for (w, g, _) in kept if "data_sweep" in g]
            with plots.Capture():
                if i == 0 or not sols:
                    api.must(what, pypeec.run_viewer_data, vox[k], {"x": plots.viewer_entry("domain")}, plot_mode="debug")
                else:
                    api.must(what, pypeec.run_plotter_data, sols[-1], {"x": plots.plotter_entry("norm_voxel"), "m": plots.plotter_entry("material")},
                             plot_mode="debug")
        elif op in ("png", "stl", "shape"):
            with files.scratch() as tmp:
                g = drawing(op, i, tmp)
                got = api.must(what, run_mesh, g)
                (ok, exp) = server.run("pv.props.c36", "run_mesh", g)
            api.expect(ok, "%s: only fails without history: %s" % (what, exp))
            files.same_result(what, got, exp, 1e-12)
            n_run += 1
        elif op == "file":
            tol = tols.setdefault(i, options(i))
            with files.scratch() as tmp:
                for (key, val) in (("geometry", geo), ("problem", problem), ("tolerance", tol)):
                    files.write_config(os.path.join(tmp, key + NAMES[key]), files.plain(val))
                (vox_got, sol_got) = api.must(what, run_solve_file, tmp)
                (ok, exp) = server.run("pv.props.c36", "run_solve_file", tmp)
            api.expect(ok, "%s: only fails without history: %s" % (what, exp))
            files.same_result(what, vox_got, exp[0], 1e-12)
            gen.compare(what, gen.Solution(sol_got), gen.Solution(exp[1]), floor[k], TOL)
            n_run += 1
        for (w, obj, raw) in kept:
            if obj is not got if op in ("mesh", "solve", "png", "stl", "shape") else True:
                api.same("result of %s after %s" % (w, what), obj, pickle.loads(raw))
    if n_run < 2:
        ctx.trivial("less than two runs")


PROP = Prop("C36", [
    Part("histories", cases, check, quick=450, thorough=12000),
    Part("solver", solver_cases, check, quick=300, thorough=9000),
], rule="random sequences of meshing, solving with various numerical options, failing runs, plots and file runs on related problems in one process; "
        "meshing of PNG, STL and shape data with the same file names and other content, solving with files of the same name; every result is compared with the same run in a process without history, and again with its own copy after every later run; trivial with "
        "less than two runs", quick_s=40.0)
