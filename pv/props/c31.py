"""C31: runs with files."""

import os
import pickle

from hypothesis import strategies as st

from pv import api, files, gen
from pv.engine import Part, Prop

CONFIG = [".json", ".js", ".yaml", ".yml", ".gz", ".gzip"]
DATA = [".json", ".js", ".gz", ".gzip", ".pck", ".pkl", ".pickle"]


@st.composite
def cases(draw, tier, block=False):
    kinds = draw(st.sampled_from([gen.MIXED, ("electric",)]))
    case = draw(gen.mixed(tier, block, kinds=kinds, freqs=("dc", "ac"), max_nv=12, max_src=2, pts=True))
    case["ext"] = {"geometry": draw(st.sampled_from(CONFIG)), "problem": draw(st.sampled_from(CONFIG)), "tolerance": draw(st.sampled_from(CONFIG)),
                   "voxel": draw(st.sampled_from(DATA)), "solution": draw(st.sampled_from(DATA))}
    case["way"] = draw(st.sampled_from(["python", "python", "cli", "cli_short"]))
    case["resample"] = draw(st.sampled_from([None, None, [2, 1, 1]]))
    case["sweeps"] = draw(st.integers(1, 2))
    case["old"] = draw(st.booleans())
    case["again"] = draw(st.lists(st.sampled_from(["geometry", "problem", "tolerance"]), max_size=2, unique=True)) if draw(st.booleans()) else []
    case["dir"] = draw(st.sampled_from(["", "sub", "a b"]))
    return case


def load(path):
    """Plain reader of a result file; the JSON files are decoded with the package that PyPEEC documents."""
    import scisave
    if path.endswith((".pck", ".pkl", ".pickle")):
        with open(path, "rb") as fid:
            return pickle.load(fid)
    return scisave.load_data(path)


def check(case, ctx):
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    geo = files.plain(prob.geometry(resample=case["resample"]))
    base = files.plain(prob.problem())
    if case["resample"] and any(m["var"] == "distributed" for m in list(prob.materials) + list(prob.sources)):
        geo = files.plain(prob.geometry())
    if case["sweeps"] == 2:
        base["sweep_solver"]["two"] = {"init": "sim", "param": dict(base["sweep_solver"]["sim"]["param"], freq=2.0 * prob.freq)}
    tol = files.plain(gen.any_tolerance(case))
    ext = case["ext"]
    ctx.label(case["way"], "in" + ext["geometry"], "out" + ext["voxel"], "out" + ext["solution"])
    with files.scratch() as tmp:
        run_once(case, prob, floor, geo, base, tol, tmp, case["old"])
        if case.get("again"):
            # the same names with other data: nothing is remembered from the first run
            ctx.label(*["again-" + k for k in case["again"]])
            if "geometry" in case["again"]:
                geo["data_voxelize"]["param"]["d"] = [2.5 * v for v in geo["data_voxelize"]["param"]["d"]]
                geo["data_point"]["pts_cloud"] = []
            if "problem" in case["again"]:
                for sweep in base["sweep_solver"].values():
                    sweep["param"]["freq"] = 1.5 * sweep["param"]["freq"]
                    sweep["param"]["source_val"] = {k: {t: scaled(x, -2.0) for t, x in v.items()} for k, v in sweep["param"]["source_val"].items()}
            if "tolerance" in case["again"]:
                tol["integral_simplify"] = 0.5
                tol["biot_savart"] = "voxel" if tol["biot_savart"] == "face" else "face"
            run_once(case, prob, None, geo, base, tol, tmp, False)


def scaled(val, fact):
    return [scaled(v, fact) for v in val] if isinstance(val, list) else fact * val


def run_once(case, prob, floor, geo, base, tol, tmp, old):
    """Run in memory and with files, and compare."""
    import pypeec
    ext = case["ext"]
    ref_vox = api.mesh(geo)
    ref_sol = api.solve(ref_vox, base, tol)
    work = os.path.join(tmp, case["dir"])
    os.makedirs(work, exist_ok=True)
    path = {k: os.path.join(work, k + e) for k, e in ext.items()}
    for (k, data) in (("geometry", geo), ("problem", base), ("tolerance", tol)):
        files.write_config(path[k], data)
    if old:
        for k in ("voxel", "solution"):
            with open(path[k], "wb") as fid:
                fid.write(b"old content that is longer than nothing" * 1000)
    before = {k: files.content(path[k]) for k in ("geometry", "problem", "tolerance")}
    if case["way"] == "python":
        res = (api.must("run_mesher_file", pypeec.run_mesher_file, path["geometry"], path["voxel"]),)
    else:
        argv = ["-q", "me", "-ge", path["geometry"], "-vo", path["voxel"]]
        if case["way"] == "cli":
            argv = ["mesher", "--geometry", path["geometry"], "--voxel", path["voxel"]]
        code = api.must("command line", pypeec.run_arguments, argv)
        api.expect(code == 0, "the command line mesher returns %r" % (code,))
    vox = load(path["voxel"])
    files.same_result("voxel file", vox, ref_vox)
    first = files.content(path["voxel"])
    if case["way"] == "python":
        api.must("run_solver_file", pypeec.run_solver_file, path["voxel"], path["problem"], path["tolerance"], path["solution"])
    else:
        argv = ["-q", "so", "-vo", path["voxel"], "-pr", path["problem"], "-to", path["tolerance"], "-so", path["solution"]]
        if case["way"] == "cli":
            argv = ["solver", "--solution", path["solution"], "--tolerance", path["tolerance"], "--problem", path["problem"], "--voxel", path["voxel"]]
        code = api.must("command line", pypeec.run_arguments, argv)
        api.expect(code == 0, "the command line solver returns %r" % (code,))
    sol = load(path["solution"])
    files.same_result("solution file", sol, ref_sol)
    for name in base["sweep_solver"]:
        if floor is not None and not (case["resample"] and geo["data_resampling"]["use_resample"]) and name == "sim":
            gen.compare("solution file", gen.Solution(sol, name), gen.Solution(ref_sol, name), floor, 1e-7)
    # nothing but the outputs is written
    api.expect(files.content(path["voxel"]) == first, "the solver changes the voxel file")
    for k in before:
        api.expect(files.content(path[k]) == before[k], "the %s file is changed" % k)
    extra = set(files.tree(tmp)) - {os.path.relpath(p, tmp) for p in path.values()} - {case["dir"] + "/"}
    api.expect(not extra, "additional files %s" % sorted(extra))


PROP = Prop("C31", [
    Part("files", cases, check, quick=700, thorough=20000),
    Part("block", lambda tier: cases(tier, block="large"), check, quick=24, thorough=600),
], rule="random problems meshed and solved with files of every format (Python functions and command line) against the runs in memory, also twice with the same file names and other data; "
        "trivial without face or excitation")
