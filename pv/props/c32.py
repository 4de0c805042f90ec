"""C32: failing runs and exit codes."""

import contextlib
import copy
import gzip
import io
import json
import os
import pickle
import subprocess
import sys

from hypothesis import strategies as st

from pv import api, boot, files, formats, plots
from pv.engine import HarnessError, Part, Prop

CONFIG = [".json", ".js", ".yaml", ".yml", ".gz", ".gzip"]
DATA = [".json", ".gz", ".pck", ".pkl", ".pickle", ".js", ".gzip"]
STEPS = {
    "mesher": (("geometry",), "voxel"),
    "solver": (("voxel", "problem", "tolerance"), "solution"),
    "viewer": (("voxel", "viewer"), None),
    "plotter": (("solution", "plotter"), None),
}
OPTION = {
    "mesher": {"geometry": ("-ge", "--geometry"), "voxel": ("-vo", "--voxel")},
    "solver": {"voxel": ("-vo", "--voxel"), "problem": ("-pr", "--problem"), "tolerance": ("-to", "--tolerance"), "solution": ("-so", "--solution")},
    "viewer": {"voxel": ("-vo", "--voxel"), "viewer": ("-vi", "--viewer")},
    "plotter": {"solution": ("-so", "--solution"), "plotter": ("-pl", "--plotter")},
}
SHORT = {"mesher": "me", "solver": "so", "viewer": "vi", "plotter": "pl"}
SENTINEL = b"result of an earlier run\n" * 40

_BASE = {}


def quiet():
    return io.TextIOWrapper(io.BytesIO(), encoding="utf-8")


def base(k):
    """Data of a small valid problem (built once)."""
    if k in _BASE:
        return copy.deepcopy(_BASE[k])
    dom = [{"sink": [0], "core": [1], "src": [2]}, {"src": [0], "core": [1, 2], "sink": [3]}][k]
    geo = api.geometry_voxel([3 + k, 1, 1], [1.0, 0.5, 2.0], [0.0, 0.0, 0.0], dom, pts=[[0.0, 5.0, 1.0]] if k else [])
    mat = {"type": "electric", "orientation_type": "isotropic", "var_type": "lumped"}
    problem = {
        "material_def": {"cond": dict(mat, domain_list=["sink", "core", "src"], material_type="electric")},
        "source_def": {
            "in": {"domain_list": ["src"], "source_type": "current", "var_type": "lumped"},
            "out": {"domain_list": ["sink"], "source_type": "voltage", "var_type": "lumped"},
        },
        "sweep_solver": {
            "dc": {"init": None, "param": {
                "freq": 0.0, "material_val": {"cond": {"rho_re": 1.0, "rho_im": 0.0}},
                "source_val": {"in": {"I_re": 1.0, "I_im": 0.0, "Y_re": 0.0, "Y_im": 0.0}, "out": {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}},
            }},
        },
    }
    del problem["material_def"]["cond"]["type"]
    tol = api.tolerance()
    viewer = {"dom": plots.viewer_entry("domain"), "con": plots.viewer_entry("graph")}
    plotter = {"mat": plots.plotter_entry("material"), "J": plots.plotter_entry("arrow_voxel"), "conv": plots.plotter_entry("convergence")}
    vox = api.mesh(geo)
    sol = api.solve(vox, problem, tol)
    _BASE[k] = {"geometry": geo, "problem": problem, "tolerance": tol, "viewer": viewer, "plotter": plotter, "voxel": vox, "solution": sol}
    return copy.deepcopy(_BASE[k])


FAULTS = ["none", "missing", "directory", "empty", "truncated", "garbage", "bad_ext", "wrong_type", "refused", "refused", "refused", "swapped",
          "out_ext", "out_missing_dir", "out_is_dir", "domain", "physics", "status_key", "tag"]


@st.composite
def cases(draw, tier):
    step = draw(st.sampled_from(["mesher", "mesher", "solver", "solver", "viewer", "plotter"]))
    fault = draw(st.sampled_from(FAULTS))
    return {
        "step": step, "fault": fault, "base": draw(st.integers(0, 1)), "way": draw(st.sampled_from(["python", "cli", "cli_long"])),
        "which": draw(st.integers(0, 2)), "at": draw(st.integers(0, 10000)), "old": draw(st.booleans()),
        "ext": draw(st.lists(st.integers(0, 6), min_size=4, max_size=4)), "folder": draw(st.sampled_from(["", "run", "a.b"])),
        "save": draw(st.booleans()),
    }


def schema(name, data):
    if name == "geometry":
        return formats.geometry(data)
    if name == "problem":
        return formats.problem(data)
    if name == "tolerance":
        return formats.TOLERANCE
    return formats.plots(data, plots.VIEWER if name == "viewer" else plots.PLOTTER)


def write_data(path, data):
    import scisave
    if path.endswith((".pck", ".pkl", ".pickle")):
        with open(path, "wb") as fid:
            pickle.dump(data, fid)
    else:
        scisave.write_data(path, data)


def damage(kind, raw, ext, at):
    """Damaged content of a file."""
    if kind == "empty":
        return b""
    if kind == "truncated":
        # the end of the JSON, gzip and pickle streams is always needed
        return raw[:max(1, min(len(raw) - 1, int(len(raw) * (at % 1000) / 1000.0)))]
    return [b"\x00\xff\xfe\x01 not a file", b"{\"a\": [1, 2", b"a: [1, 2\nb: }{", b"\x1f\x8b\x08\x00garbage", b"\x80\x05garbage."][at % 5]


def physics(data, at):
    """Well-formed problems and geometries that cannot be used."""
    geo = data["geometry"]
    problem = data["problem"]
    par = problem["sweep_solver"]["dc"]["param"]
    k = at % 6
    if k == 0:
        geo["data_voxelize"]["domain_index"]["sink"] = [len(SENTINEL)]
        del par["material_val"]["cond"]
    elif k == 1:
        geo["data_voxelize"]["domain_index"]["src"] = geo["data_voxelize"]["domain_index"]["core"]
        par["freq"] = -1.0
    elif k == 2:
        geo["data_point"] = {"check_cloud": True, "full_cloud": True, "pts_cloud": [[0.0, 0.0, 0.0]]}
        problem["sweep_solver"]["dc"]["init"] = "other"
    elif k == 3:
        geo["data_integrity"]["domain_connected"] = {"x": {"domain_group": [["sink"], ["src"]], "connected": False}}
        par["material_val"]["cond"]["rho_re"] = [1.0, 2.0]
    elif k == 4:
        geo["data_integrity"]["domain_adjacent"] = {"x": {"domain_group": [["sink"], ["core"]], "connected": False}}
        problem["material_def"]["cond"]["domain_list"] = ["sink", "core"]
    elif k == 5:
        geo["data_conflict"]["conflict_rules"] = [{"domain_resolve": ["nope"], "domain_keep": ["core"]}]
        geo["data_conflict"]["resolve_rules"] = True
        problem["source_def"]["in"]["var_type"] = "distributed"
        par["source_val"]["in"] = {"I_re": [1.0, 1.0], "I_im": [0.0, 0.0], "Y_re": [0.0, 0.0], "Y_im": [0.0, 0.0]}


def command(case, path, extra=()):
    argv = ["-q"] if case["way"] == "cli" else []
    argv.append(SHORT[case["step"]] if case["way"] == "cli" else case["step"])
    for (name, opt) in OPTION[case["step"]].items():
        argv += [opt[0] if case["way"] == "cli" else opt[1], path[name]]
    return argv + list(extra)


def check(case, ctx):
    import pypeec
    (step, fault) = (case["step"], case["fault"])
    (inputs, output) = STEPS[step]
    data = base(case["base"])
    config = [k for k in inputs if k in ("geometry", "problem", "tolerance", "viewer", "plotter")]
    result = [k for k in inputs if k in ("voxel", "solution")]
    target = inputs[case["which"] % len(inputs)]
    if fault in ("refused", "domain", "physics"):
        target = config[case["which"] % len(config)]
    if fault == "status_key":
        target = result[0] if result else None
    if (fault.startswith("out") and output is None) or (fault == "tag" and output is not None) or target is None \
            or (fault in ("domain", "physics") and target not in ("geometry", "problem")):
        fault = "none"
    at = case["at"]
    kwargs = {}
    if fault == "physics":
        physics(data, at)
    elif fault == "refused":
        lst = formats.defects(schema(target, data[target]), data[target])
        change = lst[at % len(lst)]
        data[target] = formats.apply(data[target], change)
        ctx.label("refused " + target)
    elif fault == "domain":
        if target == "geometry":
            del data["geometry"]["data_voxelize"]["domain_index"]
        else:
            data["problem"]["source_def"]["in"]["domain_list"] = ["unknown domain"]
    elif fault == "wrong_type":
        data[target] = [[], [1, 2, 3], "text", 5, None, {}][at % (5 if target in ("viewer", "plotter") else 6)]
    elif fault == "status_key":
        del data[target][["status", "data_geom" if target == "voxel" else "data_init"][at % 2]]
    elif fault == "swapped" and len(inputs) == 1:
        data[target] = data["tolerance"]
    if step in ("viewer", "plotter"):
        kwargs["plot_mode"] = "save" if case["save"] else "debug"
        if fault == "tag":
            if step == "plotter" and at % 2:
                kwargs["tag_sweep"] = [["nope"], ["dc", "nope"], ["DC"]][at // 2 % 3]
            else:
                first = "mat" if step == "plotter" else "dom"
                kwargs["tag_plot"] = [["nope"], [first, "nope"], [first + "x"]][at // 2 % 3]
        elif case["save"]:
            kwargs["tag_plot"] = ["mat"] if step == "plotter" else ["dom"]
    ctx.label(step, case["way"], fault)
    with files.scratch() as tmp:
        work = os.path.join(tmp, case["folder"])
        os.makedirs(work, exist_ok=True)
        ext = {}
        for (i, k) in enumerate(list(inputs) + ([output] if output else [])):
            lst = CONFIG if k in config else DATA
            ext[k] = lst[case["ext"][i] % len(lst)]
        if fault == "truncated" and ext[target] in (".yaml", ".yml"):
            ext[target] = ".json"
        if fault == "bad_ext":
            ext[target] = [".txt", "", ".json.bak", ".YAML", ".pkl" if target in config else ".yaml"][at % 5]
        if fault == "out_ext":
            ext[output] = [".txt", "", ".yaml", ".JSON"][at % 4]
        path = {k: os.path.join(work, k + e) for k, e in ext.items()}
        for k in inputs:
            if k in config:
                files.write_config(path[k], files.plain(data[k]))
            elif fault == "bad_ext" and k == target:
                with open(path[k], "wb") as fid:
                    pickle.dump(data[k], fid)
            else:
                write_data(path[k], data[k])
        if fault == "missing":
            os.remove(path[target])
        elif fault == "directory":
            os.remove(path[target])
            os.mkdir(path[target])
        elif fault in ("empty", "truncated", "garbage"):
            raw = files.content(path[target])
            with open(path[target], "wb") as fid:
                fid.write(damage(fault, raw, ext[target], at))
        elif fault == "swapped" and len(inputs) > 1:
            other = [k for k in inputs if k != target and (k in config) == (target in config)] or [k for k in inputs if k != target]
            other = other[at % len(other)]
            (path[target], path[other]) = (path[other], path[target])
        if fault == "out_missing_dir":
            path[output] = os.path.join(work, "nowhere", "out" + ext[output])
        elif fault == "out_is_dir":
            os.mkdir(path[output])
        elif output is not None and case["old"]:
            with open(path[output], "wb") as fid:
                fid.write(SENTINEL)
        if step in ("viewer", "plotter"):
            kwargs["folder"] = os.path.join(tmp, "images")
            os.mkdir(kwargs["folder"])
        before = files.tree(tmp)
        fct = getattr(pypeec, "run_%s_file" % step)
        args = [path[k] for k in inputs] + ([path[output]] if output else [])
        if case["way"] == "python":
            with plots.Capture():
                (ok, res) = api.attempt(fct, *args, **kwargs)
        else:
            extra = []
            if "plot_mode" in kwargs:
                extra += ["-pm", kwargs["plot_mode"], "-f", kwargs["folder"]]
            if "tag_plot" in kwargs:
                extra += ["-tp"] + kwargs["tag_plot"]
            if "tag_sweep" in kwargs:
                extra += ["-ts"] + kwargs["tag_sweep"]
            with plots.Capture(), contextlib.redirect_stderr(quiet()), contextlib.redirect_stdout(quiet()):
                res = api.must("command line", pypeec.run_arguments, command(case, path, extra))
            api.expect(isinstance(res, int) and not isinstance(res, bool), "the command line returns %r" % (res,))
            ok = res == 0
        after = files.tree(tmp)
        if fault == "none":
            api.expect(ok, "%s: a valid run fails with %s" % (step, api._short(res) if isinstance(res, Exception) else res))
            if output is not None:
                name = os.path.relpath(path[output], tmp)
                api.expect(name in after and after[name] not in (b"", SENTINEL), "%s: a successful run without a new output" % step)
                after.pop(name)
                before.pop(name, None)
            elif case["save"]:
                new = set(after) - set(before)
                api.expect(len(new) == 1, "%s: a successful run writes %s" % (step, sorted(new)))
                after = {k: v for k, v in after.items() if k not in new}
        else:
            api.expect(not ok, "%s: a run with a fault (%s of %s) succeeds" % (step, fault, target))
        changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        api.expect(not changed, "%s: a run with the fault %s changes the files %s" % (step, fault, changed))


# -- command line usage -----------------------------------------------------------------------
@st.composite
def usage(draw, tier):
    return {
        "step": draw(st.sampled_from(sorted(STEPS))), "way": draw(st.sampled_from(["cli", "cli_long"])),
        "kind": draw(st.sampled_from(["help", "help_step", "version", "none", "unknown_command", "unknown_option", "missing_option", "missing_value",
                                      "extra", "choice", "no_tag", "extract", "twice_command", "case", "extract_no_path"])),
        "at": draw(st.integers(0, 1000)), "base": 0,
    }


def check_usage(case, ctx):
    import pypeec
    (step, kind, at) = (case["step"], case["kind"], case["at"])
    (inputs, output) = STEPS[step]
    data = base(0)
    good = False
    with files.scratch() as tmp:
        path = {k: os.path.join(tmp, k + ".json") for k in list(inputs) + ([output] if output else [])}
        for k in inputs:
            if k in ("voxel", "solution"):
                write_data(path[k], data[k])
            else:
                files.write_config(path[k], files.plain(data[k]))
        argv = command(case, path, ["-pm", "debug"] if output is None else [])
        n = 2 if argv[0] == "-q" else 1
        opts = [argv[i:i + 2] for i in range(n, len(argv), 2)]
        if kind in ("help", "version"):
            (argv, good) = ([{"help": ["-h", "--help"], "version": ["-v", "--version"]}[kind][at % 2]], True)
        elif kind == "help_step":
            (argv, good) = (argv[:n] + [["-h", "--help"][at % 2]], True)
        elif kind == "none":
            argv = [[], ["-q"], ["--quiet"]][at % 3]
        elif kind == "unknown_command":
            argv[n - 1] = ["mesh", "solve", "run", "", "x" + argv[n - 1]][at % 5]
        elif kind == "case":
            argv[n - 1] = argv[n - 1].upper()
        elif kind == "unknown_option":
            argv += [["--unknown", "1"], ["-z"], ["--verbose"]][at % 3]
        elif kind == "missing_option":
            need = opts[:len(inputs) + (1 if output else 0)]
            drop = need[at % len(need)]
            argv = argv[:n] + [a for o in opts if o is not drop for a in o]
        elif kind == "missing_value":
            drop = at % len(opts)
            argv = argv[:n] + [a for (i, o) in enumerate(opts) if i != drop for a in o] + opts[drop][:1]
        elif kind == "extra":
            argv += ["something"]
        elif kind == "twice_command":
            argv += [argv[n - 1]]
        elif kind == "choice":
            argv += ["-pm", ["window", "QT", "png", "none"][at % 4]]
        elif kind == "no_tag":
            argv += ["-tp"]
        elif kind == "extract":
            # the archives are not part of the source tree: the command cannot succeed
            folder = os.path.join(os.path.dirname(pypeec.__file__), "data")
            name = ["examples", "documentation"][at % 2]
            if os.path.exists(os.path.join(folder, name + ".zip")):
                ctx.trivial("archive available")
                return
            argv = [name, os.path.join(tmp, "extracted")]
        elif kind == "extract_no_path":
            argv = [["examples", "documentation"][at % 2]]
        ctx.label(kind, step)
        before = files.tree(tmp)
        with contextlib.redirect_stderr(quiet()), contextlib.redirect_stdout(quiet()):
            code = api.must("command line", pypeec.run_arguments, argv)
        api.expect(isinstance(code, int) and not isinstance(code, bool), "the command line returns %r" % (code,))
        api.expect((code == 0) == good, "the command line returns %r for the arguments %s" % (code, [os.path.basename(a) for a in argv]))
        api.expect(files.tree(tmp) == before, "the command line changes the files for the arguments %s" % [os.path.basename(a) for a in argv])


# -- processes --------------------------------------------------------------------------------
CODE = "import sys; from pypeec.script import run_script; run_script()"


@st.composite
def processes(draw, tier):
    return {
        "step": draw(st.sampled_from(["mesher", "solver", "plotter"])), "way": draw(st.sampled_from(["cli", "cli_long"])),
        "fault": draw(st.sampled_from(["none", "missing", "garbage", "refused", "usage", "out_ext"])), "at": draw(st.integers(0, 1000)), "base": draw(st.integers(0, 1)),
    }


def check_process(case, ctx):
    (step, fault, at) = (case["step"], case["fault"], case["at"])
    (inputs, output) = STEPS[step]
    if output is None and fault == "out_ext":
        fault = "usage"
    data = base(case["base"])
    config = [k for k in inputs if k not in ("voxel", "solution")]
    target = config[at % len(config)]
    if fault == "refused":
        lst = formats.defects(schema(target, data[target]), data[target])
        data[target] = formats.apply(data[target], lst[at % len(lst)])
    ctx.label(step, fault)
    with files.scratch() as tmp:
        path = {k: os.path.join(tmp, k + ".json") for k in list(inputs) + ([output] if output else [])}
        for k in inputs:
            if k in ("voxel", "solution"):
                write_data(path[k], data[k])
            else:
                files.write_config(path[k], files.plain(data[k]))
        if fault == "missing":
            os.remove(path[target])
        elif fault == "garbage":
            with open(path[target], "wb") as fid:
                fid.write(b"garbage")
        elif fault == "out_ext":
            path[output] += ".txt"
        argv = command(case, path, ["-pm", "debug"] if output is None else [])
        if fault == "usage":
            argv = argv[:-2] + ["--nope"]
        before = files.tree(tmp)
        env = dict(os.environ, PYTHONPATH=boot.REPO)
        try:
            proc = subprocess.run([sys.executable, "-c", CODE] + argv, cwd=tmp, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, timeout=120)
        except subprocess.TimeoutExpired:
            raise HarnessError("the process takes too long")
        if proc.returncode < 0:
            raise HarnessError("the process ends with the signal %d" % -proc.returncode)
        good = fault == "none"
        api.expect((proc.returncode == 0) == good, "%s with the fault %s: exit code %d\n%s"
                   % (step, fault, proc.returncode, proc.stdout.decode(errors="replace")[-1500:]))
        new = set(files.tree(tmp)) - set(before)
        want = {os.path.basename(path[output])} if good and output is not None else set()
        api.expect(new == want, "%s with the fault %s writes %s" % (step, fault, sorted(new)))


PROP = Prop("C32", [
    Part("faults", cases, check, quick=2500, thorough=60000),
    Part("usage", usage, check_usage, quick=600, thorough=6000),
    Part("process", processes, check_process, quick=24, thorough=600),
], rule="steps run with files that are missing, damaged, refused or cannot be written (Python and command line), wrong usages of the command line, "
        "and separate processes; trivial if the archive of the examples is available")
