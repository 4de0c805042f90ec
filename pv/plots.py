"""Plot descriptions for the viewer and plotter checks, and the capture of what is plotted."""

import copy


def window(menu=True, image=(60, 50)):
    return {"show_menu": menu, "image_size": list(image) if image is not None else None, "window_size": [80, 60], "notebook_size": None}


def pyvista_options(grid=False, geom=False, point=False, axis=False, bar=False, clip=False):
    return {
        "plot_clip": {"clip_plot": clip, "clip_invert": True, "clip_axis": "x", "clip_value": 0.0},
        "plot_theme": {
            "text_color": "black", "title_font": 10, "colorbar_font": 15, "colorbar_size": 5, "colorbar_plot": bar,
            "background_color": "white", "axis_add": axis, "axis_size": 2,
        },
        "plot_view": {
            "grid_plot": grid, "grid_thickness": 1.0, "grid_color": "black", "grid_opacity": 0.1,
            "geom_plot": geom, "geom_thickness": 1.0, "geom_color": "black", "geom_opacity": 0.5,
            "point_plot": point, "point_color": "black", "point_size": 5.0, "point_opacity": 1.0,
            "camera_roll": None, "camera_azimuth": None, "camera_elevation": None,
        },
    }


COLORS = ("white", "gray", "navy", "red", "green", "black")
STYLE = {"clip_invert": True, "clip_axis": "x", "clip": 0.0, "background": "white", "text": "black", "colors": ["black", "black", "black"],
         "widths": [1.0, 1.0], "opacity": [0.5, 0.25, 1.0], "camera": [None, None, None]}


def style_cases():
    """Random display options."""
    from hypothesis import strategies as st
    color = st.sampled_from(COLORS)
    angle = st.one_of(st.none(), st.sampled_from([0.0, 25.0, 60.0, 130.0]))
    opacity = st.sampled_from([0.2, 0.35, 0.6, 0.8, 1.0])
    return st.fixed_dictionaries({
        "clip_invert": st.booleans(), "clip_axis": st.sampled_from(["x", "y", "z"]), "clip": st.sampled_from([0.0, -0.3, 0.2, 0.35]),
        "background": color, "text": color, "colors": st.lists(color, min_size=3, max_size=3),
        "widths": st.lists(st.sampled_from([0.5, 1.0, 3.0]), min_size=2, max_size=2), "opacity": st.lists(opacity, min_size=3, max_size=3),
        "camera": st.lists(angle, min_size=3, max_size=3),
    })


def set_style(opts, style, size):
    """Put the random display options into the options of a 3D plot (the clipping is relative to the size)."""
    style = style or STYLE
    opts["plot_clip"].update(clip_invert=style["clip_invert"], clip_axis=style["clip_axis"],
                             clip_value=float(style["clip"] * size["xyz".index(style["clip_axis"])]))
    opts["plot_theme"].update(background_color=style["background"], text_color=style["text"])
    (c, w) = (style["colors"], style["widths"])
    (roll, azimuth, elevation) = style["camera"]
    opts["plot_view"].update(grid_color=c[0], geom_color=c[1], point_color=c[2], grid_thickness=w[0], geom_thickness=w[1],
                             point_opacity=style["opacity"][2], camera_roll=roll, camera_azimuth=azimuth, camera_elevation=elevation)
    return opts


def prop_is(what, rec, **want):
    """Properties (color, opacity, width...) of what is drawn."""
    import pyvista
    from pv.engine import Violation
    got = rec["prop"]
    for k, v in want.items():
        if k == "color":
            ok = max(abs(a - b) for a, b in zip(pyvista.Color(v).float_rgb, got[k])) < 1e-3
        else:
            ok = abs(got[k] - v) < 1e-6
        if not ok:
            raise Violation("%s: %s %s instead of %s" % (what, k, got[k], v))


def check_scene(what, plot, opts):
    """Background, axis, camera and cut planes of a 3D plot."""
    import numpy as np
    import pyvista
    from pv.engine import Violation

    def must(ok, msg):
        if not ok:
            raise Violation("%s: %s" % (what, msg))

    state = plot["state"]
    (theme, view, clip) = (opts["plot_theme"], opts["plot_view"], opts["plot_clip"])
    must(state["background"] == pyvista.Color(theme["background_color"]).hex_rgb, "background %s instead of %s" % (state["background"], theme["background_color"]))
    must(state["axes"] is None or state["axes"] == theme["axis_add"], "axis marker %s instead of %s" % (state["axes"], theme["axis_add"]))
    cam = state["camera"]
    for name in ("azimuth", "elevation"):
        want = view["camera_" + name]
        must(abs(cam[name] - (want or 0.0)) < 1e-6, "camera %s %s instead of %s" % (name, cam[name], want))
    if view["camera_roll"] is not None and not view["camera_azimuth"] and not view["camera_elevation"]:
        gap = (cam["roll"] - view["camera_roll"] + 180.0) % 360.0 - 180.0
        must(abs(gap) < 1e-3, "camera roll %s instead of %s" % (cam["roll"], view["camera_roll"]))
    k = "xyz".index(clip["clip_axis"])
    for rec in plot["meshes"]:
        if rec["kind"] != "clip" or rec["mesh"].n_cells == 0:
            continue
        must(rec["clipped"] is not None, "no cut plane")
        full = np.array(rec["mesh"].bounds, dtype=float).reshape(3, 2)
        at = full[k].mean() + clip["clip_value"]
        tol = 1e-5 * (np.max(np.abs(full)) + 1e-300)
        want = full.copy()
        want[k] = [full[k, 0], min(at, full[k, 1])] if clip["clip_invert"] else [max(at, full[k, 0]), full[k, 1]]
        if want[k, 1] - want[k, 0] < 4 * tol:
            continue
        (n_cells, got) = rec["clipped"]
        if n_cells:
            got = np.array(got).reshape(3, 2)[k]
            must(got[0] >= want[k, 0] - tol and got[1] <= want[k, 1] + tol, "the cut along %s shows %s instead of %s" % (clip["clip_axis"], got, want[k]))
        pts = np.asarray(rec["mesh"].points, dtype=float)[:, k]
        side = pts < at - 2 * tol if clip["clip_invert"] else pts > at + 2 * tol
        if np.any(side):
            must(n_cells > 0, "the cut along %s shows nothing" % clip["clip_axis"])
            far = pts[side].min() if clip["clip_invert"] else pts[side].max()
            must(abs(got[0 if clip["clip_invert"] else 1] - far) <= 2 * tol, "the cut along %s shows %s of %s" % (clip["clip_axis"], got, want[k]))


def matplotlib_options():
    return {"style": "default", "legend": "best", "font": 9}


def entry(layout, data_plot, options=None, win=None):
    framework = "matplotlib" if layout in ("convergence", "residuum") else "pyvista"
    if options is None:
        options = matplotlib_options() if framework == "matplotlib" else pyvista_options()
    return {
        "framework": framework, "layout": layout, "title": "Plot " + layout, "data_window": win or window(),
        "data_options": options, "data_plot": data_plot,
    }


def viewer_entry(layout, opacity=(0.5, 0.5), **kw):
    if layout == "mesh":
        data = {"title": "Mesh", "color_voxel": "red", "color_reference": "blue", "opacity_voxel": opacity[0], "opacity_reference": opacity[1]}
    else:
        data = {"title": "Title", "colormap": "jet", "opacity": opacity[0]}
    return entry(layout, data, **kw)


def plotter_entry(layout, var="J_c", scale=1.0, phase=0.0, log=False, filter_lim=None, clamp_lim=None, color_lim=None,
                  threshold=0.0, title="Title", **kw):
    if layout == "material":
        data = {"title": title, "color_electric": "orange", "color_magnetic": "gray", "color_electromagnetic": "green",
                "color_current_source": "blue", "color_voltage_source": "red"}
    elif layout == "convergence":
        data = {"color_active": "red", "color_reactive": "blue", "marker": 2.0, "width": 2.0}
    elif layout == "residuum":
        data = {"bar_color": "blue", "edge_color": "black", "tol_bins": 1.0e-2, "n_bins": 10}
    else:
        data = {"title": title, "legend": "legend", "var": var, "log": log, "color_lim": color_lim, "filter_lim": filter_lim,
                "clamp_lim": clamp_lim, "scale": scale}
        if layout.startswith("arrow"):
            data.update(phase=phase, arrow_threshold=threshold, arrow_scale=0.75)
        elif layout.startswith("phasor"):
            data.update(phase=phase, point_size=10.0)
        else:
            data.update(point_size=10.0)
    return entry(layout, data, **kw)


VIEWER = ("domain", "graph", "mesh")
PLOTTER = ("material", "norm_voxel", "phasor_voxel", "arrow_voxel", "norm_point", "phasor_point", "arrow_point", "convergence", "residuum")


class Capture:
    """
    Records what is given to PyVista and Matplotlib.

    There is no display: the picture of a PyVista plot is replaced by a text file with the number of the
    plotter, everything before the rendering is done by the real library. The figures of Matplotlib are
    saved by the real library and recorded.
    """

    MARK = b"picture of the plotter "

    def __init__(self):
        self.plots = []
        self.figures = []

    def _of(self, plotter):
        for p in self.plots:
            if p["plotter"] is plotter:
                return p
        p = {"plotter": plotter, "meshes": [], "texts": [], "shots": [], "size": None}
        self.plots.append(p)
        return p

    def __enter__(self):
        import matplotlib.figure
        import matplotlib.pyplot
        import pyvista
        cap = self
        self.saved = []

        def patch(obj, name, new):
            self.saved.append((obj, name, obj.__dict__[name] if name in obj.__dict__ else None))
            setattr(obj, name, new)

        base = pyvista.Plotter
        (init0, mesh0, clip0, text0) = (base.__init__, base.add_mesh, base.add_mesh_clip_plane, base.add_text)

        def init(self, *args, **kwargs):
            init0(self, *args, **kwargs)
            cap._of(self)["size"] = kwargs.get("window_size")
            cap._of(self)["off_screen"] = kwargs.get("off_screen")

        depth = []

        def record(self, kind, mesh, kwargs):
            if not depth:
                rec = {"kind": kind, "mesh": mesh.copy(deep=True), "arg": dict(kwargs)}
                cap._of(self)["meshes"].append(rec)
                return rec
            return {}

        def add_mesh(self, mesh, *args, **kwargs):
            rec = record(self, "full", mesh, kwargs)
            rec["actor"] = mesh0(self, mesh, *args, **kwargs)
            return rec["actor"]

        def add_clip(self, mesh, *args, **kwargs):
            rec = record(self, "clip", mesh, kwargs)
            depth.append(1)
            try:
                rec["actor"] = clip0(self, mesh, *args, **kwargs)
                rec["cut"] = self.plane_clipped_meshes[-1] if self.plane_clipped_meshes else None
                return rec["actor"]
            finally:
                depth.pop()

        def freeze(self, plot):
            """State of the scene when the picture is made."""
            cam = self.camera
            plot["state"] = {
                "background": self.background_color.hex_rgb, "axes": getattr(self.renderer, "axes_enabled", None),
                "camera": {"roll": float(cam.roll), "azimuth": float(cam.azimuth), "elevation": float(cam.elevation)},
                "bars": sorted(self.scalar_bars.keys()),
            }
            for rec in plot["meshes"]:
                prop = rec["actor"].GetProperty()
                rec["prop"] = {"color": tuple(prop.GetColor()), "opacity": prop.GetOpacity(), "width": prop.GetLineWidth(), "size": prop.GetPointSize()}
                table = rec["actor"].GetMapper().GetLookupTable()
                rec["log"] = bool(table.GetScale()) if table is not None and hasattr(table, "GetScale") else None
                cut = rec.get("cut")
                rec["clipped"] = None if cut is None else (cut.n_cells, list(cut.bounds) if cut.n_cells else None)

        def add_text(self, text, *args, **kwargs):
            cap._of(self)["texts"].append(text)
            return text0(self, text, *args, **kwargs)

        def screenshot(self, filename=None, *args, **kwargs):
            if getattr(self, "_closed", False):
                raise RuntimeError("screenshot of a closed plotter")
            k = [p["plotter"] for p in cap.plots].index(self)
            cap.plots[k]["shots"].append(filename)
            freeze(self, cap.plots[k])
            with open(filename, "wb") as fid:
                fid.write(cap.MARK + b"%d" % k)

        def show(self, *args, **kwargs):
            raise RuntimeError("a window is opened")

        fig = matplotlib.figure.Figure
        (finit0, save0) = (fig.__init__, fig.savefig)

        def finit(self, *args, **kwargs):
            finit0(self, *args, **kwargs)
            cap.figures.append({"figure": self, "shots": []})

        def savefig(self, fname, *args, **kwargs):
            for f in cap.figures:
                if f["figure"] is self:
                    f["shots"].append(fname)
            return save0(self, fname, *args, **kwargs)

        patch(base, "__init__", init)
        patch(base, "add_mesh", add_mesh)
        patch(base, "add_mesh_clip_plane", add_clip)
        patch(base, "add_text", add_text)
        patch(base, "screenshot", screenshot)
        patch(base, "show", show)
        patch(fig, "__init__", finit)
        patch(fig, "savefig", savefig)
        self.plt = matplotlib.pyplot
        return self

    def __exit__(self, *_):
        for (obj, name, old) in reversed(self.saved):
            if old is None:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        for p in self.plots:
            try:
                p["plotter"].close()
            except Exception:
                pass
        self.plt.close("all")

    def plot_of(self, path):
        """Plot (PyVista) or figure (Matplotlib) behind a picture."""
        with open(path, "rb") as fid:
            raw = fid.read()
        if raw.startswith(self.MARK):
            return "pyvista", self.plots[int(raw[len(self.MARK):])]
        for f in self.figures:
            if path in f["shots"] and raw.startswith(b"\x89PNG"):
                return "matplotlib", f
        return None, None


def clone(data):
    return copy.deepcopy(data)


def cells(what, mesh, n, d, c):
    """Linear voxel index of every cell of a mesh of voxels (each cell is exactly the box of a voxel)."""
    import numpy as np
    from pv.engine import Violation
    (n, d, c) = (np.array(n), np.array(d, dtype=float), np.array(c, dtype=float))
    lo = c - 0.5 * n * d
    scale = float(np.max(np.abs(c)) + np.max(n * d))
    out = []
    for i in range(mesh.n_cells):
        cell = mesh.get_cell(i)
        b = np.array(cell.bounds).reshape(3, 2)
        k = np.rint((b.mean(axis=1) - lo) / d - 0.5).astype(int)
        box = np.stack((lo + k * d, lo + (k + 1) * d), axis=1)
        # the coordinates may be stored with single precision
        if np.any(k < 0) or np.any(k >= n) or np.max(np.abs(box - b)) > 3e-6 * scale:
            raise Violation("%s: a cell with the bounds %s is not a voxel" % (what, b.ravel()))
        if len(np.unique(np.round((np.array(cell.points) - lo) / d), axis=0)) != 8:
            raise Violation("%s: a voxel is not shown as a box" % what)
        out.append(int(k[0] + n[0] * (k[1] + n[1] * k[2])))
    if len(set(out)) != len(out):
        raise Violation("%s: a voxel is shown twice" % what)
    return out


def scalars(what, rec):
    """Values of the cells (or points) that give the colours of a recorded mesh."""
    import numpy as np
    from pv.engine import Violation
    name = rec["arg"].get("scalars")
    if name is None:
        raise Violation("%s: no colours" % what)
    return np.asarray(rec["mesh"][name]) if isinstance(name, str) else np.asarray(name)
