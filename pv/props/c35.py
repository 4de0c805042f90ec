"""C35: selection of plots and sweeps, pictures."""

import contextlib
import copy
import os
import shutil
import struct
import subprocess
import sys
import time

from hypothesis import strategies as st

from pv import api, boot, files, plots
from pv.engine import Part, Prop
from pv.props import c32

NAMES = ["b", "a", "ab", "x1", "J c", "Ünit", "plot.1", "plot", "z-9", "A", "current density in the windings (peak value, first harmonic)"]
SWEEPS = ["dc", "c", "sim 1", "zz"]
_SOL = {}


def solution(n_sweep):
    """Solution with several sweeps (built once)."""
    if n_sweep not in _SOL:
        data = c32.base(1)
        par = data["problem"]["sweep_solver"]["dc"]["param"]
        sweeps = {}
        for (i, name) in enumerate(SWEEPS[:n_sweep]):
            p = copy.deepcopy(par)
            p["freq"] = float(i)
            sweeps[name] = {"init": None, "param": p}
        data["problem"]["sweep_solver"] = sweeps
        sol = api.solve(data["voxel"], data["problem"], data["tolerance"])
        sol["data_sweep"] = {k: sol["data_sweep"][k] for k in sweeps}
        _SOL[n_sweep] = (data["voxel"], sol)
    return copy.deepcopy(_SOL[n_sweep])


@st.composite
def cases(draw, tier):
    step = draw(st.sampled_from(["viewer", "plotter", "plotter"]))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=0, max_size=5, unique=True))
    lays = plots.VIEWER if step == "viewer" else ("material", "norm_voxel", "arrow_voxel", "norm_point", "convergence", "residuum")
    n_sweep = draw(st.integers(1, 3))

    def selection(lst):
        return draw(st.one_of(st.none(), st.just([]), st.lists(st.sampled_from(lst or ["b"]), min_size=1, max_size=6), st.permutations(lst)))
    return {
        "step": step, "plots": [[k, draw(st.sampled_from(lays)), draw(st.sampled_from([[60, 50], [80, 40], None]))] for k in names],
        "n_sweep": n_sweep, "tag_plot": selection(names), "tag_sweep": selection(SWEEPS[:n_sweep]),
        "mode": draw(st.sampled_from(["save", "save", "save", "debug"])), "folder": draw(st.sampled_from(["given", "given", "relative", None])),
        "name": draw(st.sampled_from(["pic", None, "a_b", "v1.2", "run.png"])), "way": draw(st.sampled_from(["data", "data", "file", "cli"])),
        "bad": draw(st.sampled_from([None, None, None, None, "plot", "sweep", "name", "folder", "mode", "type"])), "at": draw(st.integers(0, 100)),
    }


def png_size(path):
    with open(path, "rb") as fid:
        raw = fid.read(24)
    return list(struct.unpack(">II", raw[16:24]))


def check(case, ctx):
    import pypeec
    step = case["step"]
    (vox, sol) = solution(case["n_sweep"])
    data = {}
    for (i, (tag, lay, size)) in enumerate(case["plots"]):
        win = plots.window(image=size)
        if step == "viewer":
            data[tag] = plots.viewer_entry(lay, win=win)
            data[tag]["data_plot"]["title"] = "content %d" % i
        elif lay in ("convergence", "residuum"):
            data[tag] = plots.plotter_entry(lay, win=win)
        else:
            data[tag] = plots.plotter_entry(lay, var="H_p" if lay.endswith("point") else "J_c", title="content %d" % i, win=win)
    names = list(data)
    sweeps = list(sol["data_sweep"])
    (tp, ts) = (case["tag_plot"], case["tag_sweep"] if step == "plotter" else None)
    tp = tp if tp is None else [t for t in tp if t in names]
    way = case["way"]
    bad = case["bad"] if (case["bad"] != "sweep" or step == "plotter") else "plot"
    kwargs = {"plot_mode": case["mode"]}
    if bad == "plot":
        tp = (tp or names[:1]) + [["nothing", "", (names + ["x"])[0].upper() + "_", "p"][case["at"] % 4]]
        tp = tp[::-1] if case["at"] % 2 else tp
    elif bad == "sweep":
        ts = (ts or sweeps[:1]) + [["nothing", "", sweeps[0].upper(), "d"][case["at"] % 4]]
        ts = ts[::-1] if case["at"] % 2 else ts
    elif bad in ("name", "folder", "type"):
        way = "data" if way == "cli" else way
    if bad == "mode":
        kwargs["plot_mode"] = ["png", "SAVE", "", "none"][case["at"] % 4]
    if way == "cli" and (tp == [] or ts == []):
        way = "file"
    # a name that looks like an option or an unencodable name cannot be given on the command line
    if tp is not None:
        kwargs["tag_plot"] = tp
    if ts is not None:
        kwargs["tag_sweep"] = ts
    if bad == "type":
        kwargs[["tag_plot", "folder", "name"][case["at"] % 3]] = [names[0] if names else "x", 5, ["x"]][case["at"] % 3]
    sel_p = names if tp is None else [t for t in dict.fromkeys(tp)]
    sel_s = sweeps if ts is None else [t for t in dict.fromkeys(ts)]
    with contextlib.ExitStack() as stack:
        tmp = stack.enter_context(files.scratch())
        cap = stack.enter_context(plots.Capture())
        here = os.getcwd()
        stack.callback(os.chdir, here)
        work = os.path.join(tmp, "work")
        os.makedirs(os.path.join(work, "rel"))
        os.makedirs(os.path.join(tmp, "img"))
        os.chdir(work)
        target = {"given": os.path.join(tmp, "img"), "relative": "rel", None: None}[case["folder"]]
        if target is not None and "folder" not in kwargs:
            kwargs["folder"] = target
        if case["name"] is not None and way != "cli" and "name" not in kwargs:
            kwargs["name"] = case["name"]
        if bad == "name":
            kwargs["name"] = ""
        elif bad == "folder":
            kwargs["folder"] = ""
        out = {"given": "img", "relative": "work/rel", None: "work"}[case["folder"]]
        prefix = "pypeec" if (case["name"] is None or way == "cli") else case["name"]
        src = vox if step == "viewer" else sol
        (p_src, p_cfg) = (os.path.join(tmp, "src.pkl"), os.path.join(tmp, "cfg.json"))
        if way != "data":
            c32.write_data(p_src, src)
            files.write_config(p_cfg, data)
        before = files.tree(tmp)
        if way == "cli":
            argv = ["-q", step, "--voxel" if step == "viewer" else "--solution", p_src, "--" + step, p_cfg, "--plot_mode", kwargs["plot_mode"]]
            if "folder" in kwargs:
                argv += ["--folder", kwargs["folder"]]
            if tp is not None:
                argv += ["--tag_plot"] + tp
            if ts is not None:
                argv += ["--tag_sweep"] + ts
            with contextlib.redirect_stderr(c32.quiet()), contextlib.redirect_stdout(c32.quiet()):
                (ok, res) = (True, api.must("command line", pypeec.run_arguments, argv))
            (ok, res) = (res == 0, res)
        elif way == "file":
            (ok, res) = api.attempt(getattr(pypeec, "run_%s_file" % step), p_src, p_cfg, **kwargs)
        else:
            (ok, res) = api.attempt(getattr(pypeec, "run_%s_data" % step), src, data, **kwargs)
        after = files.tree(tmp)
        api.expect(all(after.get(k) == v for k, v in before.items()), "%s: existing files are changed" % step)
        new = sorted(set(after) - set(before))
        ctx.label(step, way, str(case["mode"]), "bad " + bad if bad else "valid", "all" if tp is None else "plots=%d" % min(3, len(sel_p)))
        if bad:
            api.expect(not ok, "%s: unknown %s accepted (plots %s, sweeps %s)" % (step, bad, tp, ts))
            api.expect(not new, "%s: a refused run writes %s" % (step, new))
            return
        api.expect(ok, "%s: a valid selection fails with %s" % (step, api._short(res) if isinstance(res, Exception) else res))
        tags = list(sel_p) if step == "viewer" else ["%s_%s" % (s, p) for s in sel_s for p in sel_p]
        want = sorted("%s/%s_%s.png" % (out, prefix, t) for t in tags) if case["mode"] == "save" else []
        api.expect(new == want, "%s: writes %s instead of %s" % (step, new, want))
        if not tags:
            ctx.trivial("nothing selected")
        n_plot = len(cap.plots) + len(cap.figures)
        api.expect(n_plot == len(tags), "%s: creates %d plots instead of %d" % (step, n_plot, len(tags)))
        if case["mode"] != "save":
            return
        shown = set()
        for t in tags:
            path = os.path.join(tmp, out, "%s_%s.png" % (prefix, t))
            (kind, plot) = cap.plot_of(path if case["folder"] == "given" else os.path.join(os.getcwd(), os.path.relpath(path, os.getcwd())))
            if kind is None:
                (kind, plot) = next((("matplotlib", f) for f in cap.figures if any(os.path.realpath(s) == os.path.realpath(path) for s in f["shots"])), (None, None))
            api.expect(kind is not None, "%s: %s is not a picture" % (step, t))
            tag = t if step == "viewer" else next(p for s in sel_s for p in sel_p if "%s_%s" % (s, p) == t)
            i = names.index(tag)
            (_, lay, size) = case["plots"][i]
            api.expect(kind == data[tag]["framework"], "%s: %s shows a plot of %s" % (step, t, kind))
            key = id(plot["plotter"] if kind == "pyvista" else plot["figure"])
            api.expect(key not in shown, "%s: %s is a copy of another picture" % (step, t))
            shown.add(key)
            if kind == "pyvista":
                api.expect(plot["texts"] == ["content %d" % i], "%s: %s shows the plot %s" % (step, t, plot["texts"]))
                api.expect(plot["off_screen"] is True, "%s: opens a window" % step)
                got = plot["size"]
                api.expect((list(got) if got is not None else None) == size, "%s: picture size %s instead of %s" % (step, got, size))
            else:
                label = plot["figure"].axes[0].get_xlabel()
                api.expect(("iteration" in label) == (lay == "convergence"), "%s: %s shows the plot '%s'" % (step, t, label))
                if size is not None:
                    got = png_size(path)
                    api.expect(max(abs(got[0] - size[0]), abs(got[1] - size[1])) <= 1, "%s: picture size %s instead of %s" % (step, got, size))


# -- real pictures ----------------------------------------------------------------------------
@contextlib.contextmanager
def display(tmp):
    """Virtual display on a free number, or None."""
    exe = shutil.which("Xvfb")
    if exe is None:
        yield None
        return
    (r, w) = os.pipe()
    with open(os.path.join(tmp, "xvfb.log"), "w") as log:
        proc = subprocess.Popen([exe, "-displayfd", str(w), "-screen", "0", "320x240x24", "-nolisten", "tcp"], pass_fds=(w,), stdin=subprocess.DEVNULL,
                                stdout=log, stderr=log)
    os.close(w)
    os.set_blocking(r, False)
    try:
        txt = b""
        t_end = time.time() + 20
        while time.time() < t_end and not txt.endswith(b"\n") and proc.poll() is None:
            try:
                txt += os.read(r, 32)
            except BlockingIOError:
                pass
            time.sleep(0.05)
        yield ":%d" % int(txt) if txt.strip().isdigit() else None
    finally:
        os.close(r)
        proc.terminate()
        try:
            proc.wait(10)
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait(10)


@st.composite
def renders(draw, tier):
    step = draw(st.sampled_from(["viewer", "plotter"]))
    n = 3 if step == "viewer" else 5
    return {"step": step, "pick": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True)), "size": draw(st.sampled_from([[60, 50], [90, 40]]))}


def check_render(case, ctx):
    """The real rendering in a separate process on a virtual display."""
    step = case["step"]
    (vox, sol) = solution(1)
    win = plots.window(image=case["size"])
    if step == "viewer":
        data = {lay: plots.viewer_entry(lay, win=win) for lay in plots.VIEWER}
    else:
        data = {lay: plots.plotter_entry(lay, win=win) for lay in ("material", "norm_voxel", "arrow_voxel", "convergence", "residuum")}
    tags = [list(data)[i] for i in case["pick"]]
    with files.scratch() as tmp:
        with display(tmp) as number:
            if number is None:
                ctx.trivial("no display")
                return
            (p_src, p_cfg, img) = (os.path.join(tmp, "src.pkl"), os.path.join(tmp, "cfg.json"), os.path.join(tmp, "img"))
            os.mkdir(img)
            c32.write_data(p_src, vox if step == "viewer" else sol)
            files.write_config(p_cfg, data)
            argv = ["-q", step, "--voxel" if step == "viewer" else "--solution", p_src, "--" + step, p_cfg, "--plot_mode", "save", "--folder", img, "--tag_plot"] + tags
            env = dict(os.environ, PYTHONPATH=boot.REPO, DISPLAY=number)
            try:
                proc = subprocess.run([sys.executable, "-c", c32.CODE] + argv, cwd=tmp, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                      stderr=subprocess.STDOUT, timeout=100)
            except subprocess.TimeoutExpired:
                ctx.trivial("rendering too slow")
                return
        if proc.returncode < 0 or proc.returncode >= 128:
            ctx.trivial("rendering not available")
            return
        api.expect(proc.returncode == 0, "%s: exit code %d\n%s" % (step, proc.returncode, proc.stdout.decode(errors="replace")[-1500:]))
        ctx.label(step)
        want = sorted("pypeec_%s%s.png" % ("dc_" if step == "plotter" else "", t) for t in tags)
        api.expect(sorted(os.listdir(img)) == want, "%s: pictures %s instead of %s" % (step, sorted(os.listdir(img)), want))
        for name in want:
            path = os.path.join(img, name)
            api.expect(files.content(path).startswith(b"\x89PNG"), "%s is not a picture" % name)
            size = png_size(path)
            api.expect(max(abs(size[0] - case["size"][0]), abs(size[1] - case["size"][1])) <= 1, "%s: size %s instead of %s" % (name, size, case["size"]))
        all_raw = [files.content(os.path.join(img, name)) for name in want]
        api.expect(len(set(all_raw)) == len(all_raw), "%s: two plots give the same picture" % step)


PROP = Prop("C35", [
    Part("selection", cases, check, quick=1200, thorough=30000),
    Part("render", renders, check_render, quick=8, thorough=80),
], rule="random plot descriptions, selections, folders and names (Python and command line), refused selections; real pictures on a virtual display in "
        "separate processes; trivial if nothing is selected or no display can be used",
   assumptions=["in the part 'selection' the pictures of PyVista are replaced by a mark of the plotter (no display); the part 'render' makes real ones"])
