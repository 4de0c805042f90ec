"""C38: the plot modes (windows, notebook, debug) show the same selected plots."""

import contextlib
import copy
import os
import signal
import sys

import numpy as np
from hypothesis import strategies as st

from pv import api, files, plots
from pv.engine import Part, Prop
from pv.props import c32, c35

TITLES = ["Plot", "a / b", " ", "Ünit 1", "50 % of %s"]


class Interrupt(Exception):
    """The application has not ended on an interrupt."""


class Desk:
    """
    The desktop: what is on the screen while the event loop runs, and how the user ends it.

    Qt is real (with the "offscreen" platform), and so are the windows of Matplotlib. The 3D widget
    cannot be created without OpenGL: the plotter of PyVista is put into an empty Qt window.
    """

    def __init__(self):
        self.reset("close", 0)

    def reset(self, end, code):
        (self.end, self.code) = (end, code)
        (self.loops, self.screen, self.left, self.quits) = (0, None, None, 0)
        self.three = []

    def loop(self, app):
        from PyQt5 import QtWidgets
        self.loops += 1
        app.processEvents()
        self.screen = []
        for win in app.topLevelWidgets():
            if isinstance(win, QtWidgets.QMainWindow) and win.isVisible():
                bar = [t.isVisible() for t in win.findChildren(QtWidgets.QToolBar)]
                self.screen.append({"window": win, "title": win.windowTitle(), "size": [win.width(), win.height()], "bar": any(bar), "icon": not win.windowIcon().isNull()})
        try:
            if self.end == "interrupt":
                os.kill(os.getpid(), signal.SIGINT)
                for _ in range(1000):
                    pass
                raise Interrupt()
        finally:
            self.left = [w for w in app.topLevelWidgets() if isinstance(w, QtWidgets.QMainWindow) and w.isVisible()]
            for win in app.topLevelWidgets():
                win.close()
            app.processEvents()
        return self.code


DESK = Desk()
_CLASS = []


def stand_in():
    """Application and 3D window (made once per process as the application is a singleton)."""
    if _CLASS:
        return _CLASS[0]
    os.environ["QT_QPA_PLATFORM"] = "offscreen"
    import pyvista
    from PyQt5 import QtGui, QtWidgets

    class App(QtWidgets.QApplication):
        def exec(self, *_):
            return DESK.loop(self)

        exec_ = exec

        def quit(self):
            DESK.quits += 1

    class Window(pyvista.Plotter):
        def __init__(self, show=True, app=None, window_size=None, off_screen=None, allow_quit_keypress=True, toolbar=True, menu_bar=True, editor=True,
                     update_app_icon=None, app_window_class=None, title=None, **kwargs):
            super().__init__(off_screen=True, window_size=window_size, **kwargs)
            self.app_window = QtWidgets.QMainWindow()
            self.app_window.setWindowTitle(title if title is not None else "PyVista")
            if window_size is not None:
                self.app_window.resize(*window_size)
            DESK.three.append({"plotter": self, "window": self.app_window, "tool": bool(toolbar), "menu": bool(menu_bar), "size": window_size})
            if show:
                self.app_window.show()

        def set_icon(self, img):
            if not os.path.isfile(img):
                raise ValueError("no icon")
            self.app_window.setWindowIcon(QtGui.QIcon(img))

        def close(self):
            self.app_window.close()
            super().close()

    _CLASS.append((App, Window))
    return _CLASS[0]


@contextlib.contextmanager
def desktop(cap, shown):
    """Put the stand-ins in place; `shown` gets the plots displayed in the notebook."""
    import matplotlib
    import matplotlib.pyplot as plt
    import pyvista
    from PyQt5 import QtWidgets
    (App, Window) = stand_in()
    import pyvistaqt
    saved = [(QtWidgets, "QApplication", QtWidgets.QApplication), (pyvistaqt, "BackgroundPlotter", pyvistaqt.BackgroundPlotter),
             (pyvista, "set_jupyter_backend", pyvista.set_jupyter_backend), (pyvista, "set_plot_theme", pyvista.set_plot_theme), (plt, "show", plt.show)]
    back = matplotlib.get_backend()
    handler = signal.getsignal(signal.SIGINT)
    show0 = plt.show

    def show_3d(self, *args, **kwargs):
        shown.append(("pyvista", self, kwargs))

    def show_2d(*args, **kwargs):
        if kwargs.get("block") is not False:
            raise RuntimeError("the figures are shown with a blocking call")
        if matplotlib.get_backend().lower() == "qtagg":
            show0(*args, **kwargs)
        else:
            for num in plt.get_fignums():
                shown.append(("matplotlib", plt.figure(num), kwargs))
    try:
        QtWidgets.QApplication = App
        pyvistaqt.BackgroundPlotter = Window
        pyvista.set_jupyter_backend = lambda *a, **k: None
        pyvista.set_plot_theme = lambda *a, **k: None
        pyvista.Plotter.show = show_3d
        plt.show = show_2d
        yield
    finally:
        plt.close("all")
        for (obj, name, old) in saved:
            setattr(obj, name, old)
        signal.signal(signal.SIGINT, handler)
        matplotlib.use(back)


@st.composite
def cases(draw, tier):
    step = draw(st.sampled_from(["viewer", "plotter", "plotter"]))
    names = draw(st.lists(st.sampled_from(c35.NAMES), min_size=0, max_size=4, unique=True))
    lays = plots.VIEWER if step == "viewer" else ("material", "norm_voxel", "arrow_voxel", "norm_point", "convergence", "residuum", "convergence")
    sizes = st.sampled_from([[500, 420], [640, 400], [411, 333], [450, 600], None])
    n_sweep = draw(st.integers(1, 2))

    def selection(lst):
        return draw(st.one_of(st.none(), st.lists(st.sampled_from(lst or ["b"]), min_size=1, max_size=4), st.permutations(lst)))
    return {
        "step": step,
        "plots": [[k, draw(st.sampled_from(lays)), draw(st.sampled_from(TITLES)), draw(st.booleans()), draw(sizes), draw(sizes), draw(sizes)] for k in names],
        "n_sweep": n_sweep, "tag_plot": selection(names), "tag_sweep": selection(c35.SWEEPS[:n_sweep]),
        "mode": draw(st.sampled_from(["qt", "qt", "qt", None, "nb", "nb", "debug", "save"])),
        "end": draw(st.sampled_from(["close", "close", "close", "code", "interrupt"])), "code": draw(st.sampled_from([1, -1, 3, 255])),
        "way": draw(st.sampled_from(["data", "data", "file", "cli"])), "again": draw(st.booleans()),
    }


def content(rec):
    """What a plot shows (texts, shapes, colours), as plain data."""
    if "plotter" in rec:
        out = [list(rec["texts"])]
        for m in rec["meshes"]:
            mesh = m["mesh"]
            val = m["arg"].get("scalars")
            val = mesh[val] if isinstance(val, str) else val
            out.append([m["kind"], np.array(mesh.points).tolist(), None if val is None else np.asarray(val).tolist(), str(m["arg"].get("cmap")), str(m["arg"].get("color"))])
        return out
    axes = rec["figure"].axes
    return [[a.get_title(), a.get_xlabel(), a.get_ylabel(), [np.asarray(line.get_xydata()).tolist() for line in a.lines],
             [list(map(float, p.get_bbox().bounds)) for p in a.patches]] for a in axes]


def run(case, mode, step, src, data, tmp, kwargs, ctx):
    import pypeec
    kwargs = dict(kwargs)
    if mode is not None or case["way"] == "cli":
        kwargs["plot_mode"] = mode or "qt"
    if case["way"] == "data":
        return api.attempt(getattr(pypeec, "run_%s_data" % step), src, data, **kwargs)
    (p_src, p_cfg) = (os.path.join(tmp, "src.pkl"), os.path.join(tmp, "cfg.json"))
    c32.write_data(p_src, src)
    files.write_config(p_cfg, data)
    if case["way"] == "file":
        return api.attempt(getattr(pypeec, "run_%s_file" % step), p_src, p_cfg, **kwargs)
    argv = ["-q", step, "--voxel" if step == "viewer" else "--solution", p_src, "--" + step, p_cfg, "--folder", kwargs["folder"]]
    # the command line has the windows as default
    if mode is not None:
        argv += ["--plot_mode", mode]
    for key in ("tag_plot", "tag_sweep"):
        if key in kwargs:
            argv += ["--" + key] + kwargs[key]
    with contextlib.redirect_stderr(c32.quiet()), contextlib.redirect_stdout(c32.quiet()):
        res = api.must("command line", pypeec.run_arguments, argv)
    return res == 0, res


def check(case, ctx):
    step = case["step"]
    (vox, sol) = c35.solution(case["n_sweep"])
    src = vox if step == "viewer" else sol
    data = {}
    for (i, (tag, lay, title, menu, image, window, note)) in enumerate(case["plots"]):
        win = {"show_menu": menu, "image_size": image, "window_size": window, "notebook_size": note}
        if step == "viewer":
            data[tag] = plots.viewer_entry(lay, win=win)
            data[tag]["data_plot"]["title"] = "content %d" % i
        elif lay in ("convergence", "residuum"):
            data[tag] = plots.plotter_entry(lay, win=win)
        else:
            data[tag] = plots.plotter_entry(lay, var="H_p" if lay.endswith("point") else "J_c", title="content %d" % i, win=win)
        data[tag]["title"] = title
    names = list(data)
    sweeps = list(sol["data_sweep"])
    (tp, ts) = (case["tag_plot"], case["tag_sweep"] if step == "plotter" else None)
    tp = tp if tp is None else [t for t in tp if t in names]
    if case["way"] == "cli" and tp == []:
        tp = None
    kwargs = {}
    if tp is not None:
        kwargs["tag_plot"] = tp
    if ts is not None:
        kwargs["tag_sweep"] = ts
    sel_p = names if tp is None else list(dict.fromkeys(tp))
    sel_s = sweeps if ts is None else list(dict.fromkeys(ts))
    tags = [(t, t) for t in sel_p] if step == "viewer" else [("%s_%s" % (s, p), p) for s in sel_s for p in sel_p]
    mode = case["mode"]
    live = "qt" if mode is None else mode
    if not tags:
        ctx.trivial("nothing selected")
    end = case["end"] if (live == "qt" and tags) else "close"
    ctx.label(step, case["way"], str(mode), end if live == "qt" else "-", "plots=%d" % min(4, len(tags)))
    wanted = None
    for turn in range(2 if case["again"] else 1):
        last = turn == (1 if case["again"] else 0)
        with contextlib.ExitStack() as stack:
            tmp = stack.enter_context(files.scratch())
            cap = stack.enter_context(plots.Capture())
            shown = []
            stack.enter_context(desktop(cap, shown))
            img = os.path.join(tmp, "img")
            os.mkdir(img)
            kwargs["folder"] = img
            DESK.reset(end if last else "close", case["code"] if (end == "code" and last) else 0)
            now = DESK.end
            code = None
            try:
                (ok, res) = run(case, mode, step, src, copy.deepcopy(data), tmp, kwargs, ctx)
            except SystemExit as ex:
                (ok, code) = (False, 0 if ex.code is None else ex.code)
            except KeyboardInterrupt:
                (ok, code) = (False, "interrupt")
            except Interrupt:
                api.expect(False, "%s: the windows do not react to an interrupt" % step)
            recs = {}
            # plots in the order of their creation
            n_plot = len(cap.plots) + len(cap.figures)
            api.expect(n_plot == len(tags), "%s: mode %s creates %d plots instead of %d" % (step, mode, n_plot, len(tags)))
            (q3, q2) = (list(cap.plots), list(cap.figures))
            for (full, tag) in tags:
                queue = q3 if data[tag]["framework"] == "pyvista" else q2
                api.expect(queue, "%s: mode %s makes no plot for %s" % (step, mode, full))
                recs[full] = queue.pop(0)
            got = [content(recs[full]) for (full, tag) in tags]
            api.expect(wanted is None or got == wanted, "%s: mode %s: the second run shows something else" % (step, mode))
            wanted = got
            new = sorted(os.listdir(img))
            files_want = sorted("pypeec_%s.png" % full for (full, _) in tags) if live == "save" else []
            api.expect(new == files_want, "%s: mode %s writes %s instead of %s" % (step, mode, new, files_want))
            if live == "qt" and tags:
                check_qt(step, tags, data, recs, now)
                if now == "interrupt":
                    api.expect(not ok and code != 0, "%s: an interrupt ends with success" % step)
                    api.expect(not DESK.left, "%s: windows %s stay open after an interrupt" % (step, [w.windowTitle() for w in DESK.left]))
                    continue
                if now == "code":
                    api.expect(not ok, "%s: the event loop ends with the code %d and the run ends without error" % (step, DESK.code))
                    continue
            else:
                api.expect(DESK.loops == 0, "%s: mode %s waits for the user (%d plots)" % (step, mode, len(tags)))
            api.expect(ok, "%s: mode %s fails with %s" % (step, mode, api._short(res) if isinstance(res, Exception) else res) if code is None else "exit %s" % code)
            if live == "nb":
                check_nb(step, tags, data, recs, shown)
            elif live in ("debug", "save"):
                api.expect(not shown, "%s: mode %s shows plots" % (step, mode))
                for (full, tag) in tags:
                    if "plotter" in recs[full]:
                        api.expect(getattr(recs[full]["plotter"], "_closed", False), "%s: mode %s leaves %s open" % (step, mode, full))
                api.expect(not cap.plt.get_fignums(), "%s: mode %s leaves figures open" % (step, mode))
    # what is shown is the same as in the debug mode
    if tags and live != "debug":
        with contextlib.ExitStack() as stack:
            tmp = stack.enter_context(files.scratch())
            cap = stack.enter_context(plots.Capture())
            stack.enter_context(desktop(cap, []))
            DESK.reset("close", 0)
            kwargs["folder"] = tmp
            (ok, res) = run(dict(case, way="data"), "debug", step, src, data, tmp, kwargs, ctx)
            api.expect(ok, "%s: mode debug fails with %s" % (step, res))
            (q3, q2) = (list(cap.plots), list(cap.figures))
            for (i, (full, tag)) in enumerate(tags):
                rec = (q3 if data[tag]["framework"] == "pyvista" else q2).pop(0)
                api.expect(content(rec) == wanted[i], "%s: mode %s: %s differs from the debug mode" % (step, mode, full))


def check_qt(step, tags, data, recs, end):
    api.expect(DESK.loops == 1, "%s: the event loop is entered %d times" % (step, DESK.loops))
    titles = sorted(w["title"] for w in DESK.screen)
    want = sorted("%s / %s" % (full, data[tag]["title"]) for (full, tag) in tags)
    api.expect(titles == want, "%s: windows %s on the screen instead of %s" % (step, titles, want))
    for (full, tag) in tags:
        rec = recs[full]
        win = data[tag]["data_window"]
        if "plotter" in rec:
            three = next((t for t in DESK.three if t["plotter"] is rec["plotter"]), None)
            api.expect(three is not None, "%s: %s has no window" % (step, full))
            obj = three["window"]
            api.expect(three["tool"] == win["show_menu"] and three["menu"] == win["show_menu"], "%s: %s: wrong menu" % (step, full))
            size = list(three["size"]) if three["size"] is not None else None
            api.expect(size == win["window_size"], "%s: %s: window size %s instead of %s" % (step, full, size, win["window_size"]))
            entry = next((w for w in DESK.screen if w["window"] is obj), None)
            api.expect(entry is not None, "%s: the window of %s is not shown" % (step, full))
        else:
            obj = rec["figure"].canvas.manager.window
            entry = next((w for w in DESK.screen if w["window"] is obj), None)
            api.expect(entry is not None, "%s: the window of %s is not shown" % (step, full))
            api.expect(entry["bar"] == win["show_menu"], "%s: %s: wrong menu" % (step, full))
            if win["window_size"] is not None:
                api.expect(entry["size"] == win["window_size"], "%s: %s: window size %s instead of %s" % (step, full, entry["size"], win["window_size"]))
        api.expect(entry["title"] == "%s / %s" % (full, data[tag]["title"]), "%s: the window of %s has the title '%s'" % (step, full, entry["title"]))
        api.expect(entry["icon"], "%s: the window of %s has no icon" % (step, full))


def check_nb(step, tags, data, recs, shown):
    seen = [id(obj) for (_, obj, _) in shown]
    for (full, tag) in tags:
        rec = recs[full]
        size = data[tag]["data_window"]["notebook_size"]
        obj = rec["plotter"] if "plotter" in rec else rec["figure"]
        api.expect(seen.count(id(obj)) == 1, "%s: %s is shown %d times in the notebook" % (step, full, seen.count(id(obj))))
        if "plotter" in rec:
            got = list(rec["size"]) if rec["size"] is not None else None
            api.expect(got == size, "%s: %s: notebook size %s instead of %s" % (step, full, got, size))
            api.expect(obj.notebook is True, "%s: %s is not made for a notebook" % (step, full))
        elif size is not None:
            got = obj.get_size_inches() * obj.dpi
            api.expect(np.max(np.abs(got - size)) < 1, "%s: %s: notebook size %s instead of %s" % (step, full, got, size))
    api.expect(len(seen) == len(tags), "%s: %d plots are shown instead of %d" % (step, len(seen), len(tags)))


PROP = Prop("C38", [
    Part("modes", cases, check, quick=1500, thorough=40000),
], rule="random plot descriptions, titles, sizes, menus, selections, plot modes (Python and command line), repeated runs, event loops that end normally, with an error code or "
        "with an interrupt; trivial if nothing is selected",
   assumptions=["Qt runs with its offscreen platform; the 3D widget of pyvistaqt is replaced by a Qt window without rendering; a notebook is replaced by a record of what is displayed"])
