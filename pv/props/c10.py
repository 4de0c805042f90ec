"""C10: malformed and well-formed input data."""

import functools
import os

from hypothesis import strategies as st

from pv import api, files, formats, plots
from pv.engine import Part, Prop

GEO_KINDS = ["voxel", "png", "stl", "shape"]
PICK = st.integers(0, 10 ** 6)


def geo_base(case, folder):
    """Valid geometry of the given kind, with all the optional lists filled."""
    k = case["base"]
    rules = [{"domain_resolve": ["a"], "domain_keep": ["b"]}] if k % 2 else None
    pts = [[50.0, 0.5, -3.0], [-40.0, 0.0, 2.0]] if k // 2 % 2 else [[9.0, 70.0, 0.0]]
    geo = api.geometry_voxel(
        [4, 2, 1], [1.0, 0.5, 2.0], [0.0, 1.0, -1.0], {"a": [0, 1], "b": [1, 2] if rules else [2, 3], "c": [5]}, pts=pts,
        check_cloud=k // 4 % 2 == 0, full_cloud=k // 8 % 2 == 0, resample=[2, 1, 1] if k // 16 % 2 else None,
        rules=rules,
        connected={"g": {"domain_group": [["a", "b"]], "connected": True}},
        adjacent={"h": {"domain_group": [["a"], ["b"]], "connected": True}},
    )
    if rules is None:
        geo["data_conflict"]["conflict_rules"] = [{"domain_resolve": ["a"], "domain_keep": ["b", "c"]}]
    kind = case["kind"]
    if kind == "voxel":
        return geo
    geo["data_integrity"] = {"domain_connected": {"g": {"domain_group": [["a"]], "connected": True}}, "domain_adjacent": {}}
    geo["mesh_type"] = kind
    if kind == "png":
        from PIL import Image
        path = os.path.join(folder, "a.png")
        img = Image.new("RGBA", (2, 1))
        img.putdata([(255, 0, 0, 255), (0, 0, 255, 255)])
        img.save(path)
        geo["data_voxelize"] = {
            "param": {"d": [1.0, 1.0, 0.5], "c": [0.0, 0.0, 1.0], "size": [2, 1]},
            "domain_color": {"a": [[255, 0, 0, 255]], "b": [[0, 0, 255, 255], [1, 1, 1, 255]], "c": [[7, 7, 7, 255]]},
            "layer_stack": [{"n_layer": 1, "filename_list": [path]}, {"n_layer": 2, "filename_list": [path, path]}],
        }
    elif kind == "stl":
        path = os.path.join(folder, "a.stl")
        _stl(path)
        geo["data_voxelize"] = {
            "param": {"d": [0.5, 0.5, 0.5], "xyz_min": None if k % 3 else [-2.0, -2.0, -2.0], "xyz_max": [3.0, 3.0, 3.0] if k % 5 else None},
            "domain_stl": {"a": [{"scale": 1.0, "offset": [0.0, 0.0, 0.0], "filename": path}],
                           "b": [{"scale": 1.0, "offset": [1.25, 0.0, 0.0], "filename": path}],
                           "c": [{"scale": 0.5, "offset": [0.0, 1.3, 0.0], "filename": path}]},
        }
        geo["data_conflict"] = {"resolve_rules": True, "resolve_random": True,
                                "conflict_rules": [{"domain_resolve": ["c"], "domain_keep": ["a", "b"]}]}
    else:
        shape = {
            "pad": {"diameter": 1.6, "coord": [[0.0, 0.0], [0.5, 0.0]]},
            "trace": {"width": 1.1, "coord": [[-1.0, 2.0], [1.0, 2.0]]},
            "polygon": {"buffer": None if k % 3 else 0.1, "coord_shell": [[-3.0, -3.0], [-1.0, -3.0], [-1.0, 0.0], [-3.0, 0.0]],
                        "coord_holes": [[[-2.2, -2.2], [-1.8, -2.2], [-1.8, -1.8]]]},
        }
        geo["data_voxelize"] = {
            "param": {"dx": 0.25, "dy": 0.25, "dz": 1.0, "cz": None if k % 3 else 1.0, "simplify": None if k % 5 else 0.01, "construct": None if k % 7 else 0.01,
                      "xy_min": None if k % 2 else [-4.0, -4.0], "xy_max": [4.0, 4.0] if k % 3 else None},
            "layer_stack": [{"n_layer": 1, "tag_layer": "bot"}, {"n_layer": 2, "tag_layer": "top"}],
            "geometry_shape": {
                tag: [{"shape_layer": ["bot", "top"], "shape_operation": "add", "shape_type": t, "shape_data": shape[t]}]
                for tag, t in (("a", "pad"), ("b", "trace"), ("c", "polygon"))
            },
        }
    if kind != "voxel":
        geo["data_resampling"] = {"use_reduce": False, "use_resample": False, "resampling_factor": [2, 3, 1]}
    return geo


def _stl(path):
    """Tetrahedron."""
    v = [(0.0, 0.0, 0.0), (1.2, 0.0, 0.0), (0.0, 1.2, 0.0), (0.0, 0.0, 1.2)]
    tri = [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]
    with open(path, "w") as fid:
        fid.write("solid a\n")
        for t in tri:
            fid.write("facet normal 0 0 0\nouter loop\n")
            for i in t:
                fid.write("vertex %f %f %f\n" % v[i])
            fid.write("endloop\nendfacet\n")
        fid.write("endsolid a\n")


@functools.lru_cache(maxsize=None)
def small_voxel():
    geo = api.geometry_voxel([4, 1, 1], [1.0, 1.0, 1.0], [0.0, 0.0, 0.0], {"s": [0], "m": [1], "c": [2], "t": [3]}, pts=[[0.0, 20.0, 0.0]])
    return api.mesh(geo)


def problem_base(case):
    k = case["base"]
    two = ["isotropic", "anisotropic"]
    (o1, v1, o2) = (two[k % 2], ["lumped", "distributed"][k // 2 % 2], two[k // 4 % 2])
    kind = ["magnetic", "electromagnetic"][k // 8 % 2]
    sv = ["lumped", "distributed"][k // 16 % 2]

    def mat(val, orient, var, n):
        row = [val] * 3 if orient == "anisotropic" else val
        return [row] * n if var == "distributed" else row

    mval = {"cu": {"rho_re": mat(1.0, o1, v1, 3), "rho_im": mat(0.5, o1, v1, 3)},
            "fe": {"chi_re": mat(3.0, o2, "lumped", 1), "chi_im": mat(0.5, o2, "lumped", 1)}}
    if kind == "electromagnetic":
        mval["fe"].update(rho_re=mat(2.0, o2, "lumped", 1), rho_im=mat(0.0, o2, "lumped", 1))

    def src(val):
        return [val] if sv == "distributed" else val

    sval = {"in": {"I_re": src(1.0), "I_im": src(0.0), "Y_re": src(0.5), "Y_im": src(0.0)},
            "out": {"V_re": src(0.0), "V_im": src(1.0), "Z_re": src(0.1), "Z_im": src(0.0)}}
    # with a purely magnetic voxel in between, every conductive part has its own source
    left = {"domain_list": ["s"], "source_type": "current", "var_type": sv}
    right = {"domain_list": ["t"], "source_type": "voltage", "var_type": sv}
    sweep = {"init": None, "param": {"freq": 0.0 if k % 3 == 0 else 1e5, "material_val": mval, "source_val": sval}}
    return {
        "material_def": {"cu": {"domain_list": ["s", "m", "t"], "material_type": "electric", "orientation_type": o1, "var_type": v1},
                         "fe": {"domain_list": ["c"], "material_type": kind, "orientation_type": o2, "var_type": "lumped"}},
        "source_def": {"in": left, "out": right},
        "sweep_solver": {"x": sweep, "y": dict(plots.clone(sweep), init="x")},
    }


def tolerance_base(case):
    k = case["base"]
    return api.tolerance(parallel_sweep__n_threads=None if k % 2 else 1, fft_options__fftw_timeout=None if k // 2 % 2 else 10.0,
                         fft_options__fftw_byte_align=None if k // 4 % 2 else 16, mult_type=["fft", "direct"][k // 8 % 2],
                         biot_savart=["face", "voxel"][k // 16 % 2])


def plot_base(case):
    k = case["base"]
    viewer = case["kind"] == "viewer"
    names = plots.VIEWER if viewer else plots.PLOTTER
    make = plots.viewer_entry if viewer else plots.plotter_entry
    out = {}
    for j in range(1 + k % 2):
        lay = names[(k + 3 * j) % len(names)]
        out["p%d" % j] = make(lay)
        if k // 4 % 2 and out["p%d" % j]["data_plot"].get("color_lim", 1) is None:
            out["p%d" % j]["data_plot"].update(color_lim=[0.0, 1.0], filter_lim=[-1.0, 2.0], clamp_lim=[0.0, 3.0], title=None, legend=None)
        if k // 8 % 2:
            out["p%d" % j]["data_window"] = plots.window(image=None)
        if k // 16 % 2 and "plot_view" in out["p%d" % j]["data_options"]:
            out["p%d" % j]["data_options"]["plot_view"].update(camera_roll=1.0, camera_azimuth=0.0, camera_elevation=45.0)
    return out


@functools.lru_cache(maxsize=None)
def small_solution():
    return api.solve(small_voxel(), problem_base({"base": 0}), api.tolerance())


class Kind:
    """Base data, format and execution of one kind of input."""

    def __init__(self, case, folder):
        import pypeec
        self.kind = kind = case["kind"]
        # what a mesher or solver run has to leave alone
        self.extra = None
        if kind in GEO_KINDS:
            self.base = geo_base(case, folder)
            self.node = formats.geometry(self.base)
            self.node.required["mesh_type"] = formats.E([kind], other=[q for q in GEO_KINDS if q != kind])
            self.run = pypeec.run_mesher_data
        elif kind == "problem":
            self.base = problem_base(case)
            self.node = formats.problem(self.base)
            self.extra = small_voxel()
            self.run = lambda data: pypeec.run_solver_data(self.extra, data, api.tolerance(condition_options__check=False))
        elif kind == "tolerance":
            self.base = tolerance_base(case)
            self.node = formats.TOLERANCE
            self.extra = (small_voxel(), problem_base({"base": case["base"] // 2}))
            self.run = lambda data: pypeec.run_solver_data(self.extra[0], self.extra[1], data)
        elif kind == "viewer":
            self.base = plot_base(case)
            self.node = formats.plots(self.base, list(plots.VIEWER))
            for sub in self.node.optional.values():
                sub.required["layout"].other = ("material", "norm_voxel")
            self.run = lambda data: pypeec.run_viewer_data(small_voxel(), data, tag_plot=[], plot_mode="debug")
        else:
            self.base = plot_base(case)
            self.node = formats.plots(self.base, list(plots.PLOTTER))
            for sub in self.node.optional.values():
                sub.required["layout"].other = ("domain", "mesh")
            self.run = lambda data: pypeec.run_plotter_data(small_solution(), data, tag_sweep=[], tag_plot=[], plot_mode="debug")


KINDS = GEO_KINDS + ["problem", "tolerance", "viewer", "plotter"]


@st.composite
def cases(draw, tier):
    kind = draw(st.sampled_from(KINDS + ["voxel", "problem", "tolerance", "plotter"]))
    return {"kind": kind, "base": draw(st.integers(0, 127)), "pick": draw(PICK)}


def _same(what, got, ref):
    """Equal, with the same types of containers and numbers."""
    if type(got) is not type(ref):
        raise api.Violation("%s: type %s instead of %s" % (what, type(got), type(ref)))
    if isinstance(ref, dict):
        if list(got) != list(ref):
            raise api.Violation("%s: keys %s instead of %s" % (what, list(got), list(ref)))
        for k in ref:
            _same(what + "/" + str(k), got[k], ref[k])
    elif isinstance(ref, list):
        if len(got) != len(ref):
            raise api.Violation("%s: length %d instead of %d" % (what, len(got), len(ref)))
        for i, (a, b) in enumerate(zip(got, ref)):
            _same("%s[%d]" % (what, i), a, b)
    else:
        api.same(what, got, ref)


def check_refuse(case, ctx):
    with files.scratch() as folder:
        K = Kind(case, folder)
        lst = formats.defects(K.node, K.base)
        (path, op, new) = change = lst[case["pick"] % len(lst)]
        if not path and K.kind in ("viewer", "plotter") and new == {}:
            ctx.trivial("an empty set of plots is well-formed")
            return
        data = formats.apply(K.base, change)
        where = "/".join(str(p) for p in path)
        ctx.label(K.kind, "op=" + op, "%s: %s" % (K.kind, "/".join(str(p) for p in path if not isinstance(p, int))))
        before = api.snapshot(data)
        extra = api.snapshot(K.extra)
        api.refused("%s data with a malformed entry (%s: %s %r)" % (K.kind, where, op, new), K.run, data)
        _same("input data after a refused run", data, before)
        if extra is not None:
            api.same("other input data after a refused run", K.extra, extra)


@st.composite
def sweeps(draw, tier):
    """One defect in 32 of a base: every defect of every kind is tried several times."""
    slot = draw(st.integers(0, 32 * len(KINDS) - 1))
    return {"kind": KINDS[slot // 32], "pick": slot % 32, "base": draw(st.integers(0, 127))}


def check_sweep(case, ctx):
    with files.scratch() as folder:
        K = Kind(case, folder)
        ctx.label(K.kind)
        for change in formats.defects(K.node, K.base)[case["pick"]::32]:
            (path, op, new) = change
            if not path and K.kind in ("viewer", "plotter") and new == {}:
                continue
            data = formats.apply(K.base, change)
            api.refused("%s data with a malformed entry (%s: %s %r)" % (K.kind, "/".join(str(p) for p in path), op, new), K.run, data)


def check_accept(case, ctx):
    with files.scratch() as folder:
        K = Kind(case, folder)
        lst = formats.variants(K.node, K.base)
        if K.kind == "tolerance":
            # well-formed, but the number of iterations is not sufficient
            lst = [c for c in lst if c[1] != "set" or c[0][:2] in formats.TOLERANCE_UNUSED
                   or c[0][-1] not in ("n_inner", "n_outer", "n_iter_max", "t_accuracy")]
        elif K.kind not in ("viewer", "plotter"):
            # other values mean other problems: only equivalent data here
            lst = [c for c in lst if c[1] != "set"]
        change = lst[case["pick"] % len(lst)]
        data = formats.apply(K.base, change) if case["pick"] % 5 else api.snapshot(K.base)
        ctx.label(K.kind, "op=" + (change[1] if case["pick"] % 5 else "base"))
        before = api.snapshot(data)
        extra = api.snapshot(K.extra)
        res = api.must("%s data (%s)" % (K.kind, change), K.run, data)
        _same("input data after the run", data, before)
        if extra is not None:
            api.same("other input data after the run", K.extra, extra)
        if K.kind in GEO_KINDS:
            api.expect(res["status"] is True, "status of the mesher is %r" % res["status"])
            ref = api.must("%s data" % K.kind, K.run, K.base)
            if not K.base["data_conflict"]["resolve_random"]:
                api.same("result with equivalent data", _plain(res["data_geom"]), _plain(ref["data_geom"]))
        elif K.kind == "problem":
            ref = api.must("problem", K.run, K.base)
            for s in ref["data_sweep"]:
                for v in ref["data_sweep"][s]["var"]:
                    api.close("%s with equivalent data" % v, res["data_sweep"][s]["var"][v]["var"], ref["data_sweep"][s]["var"][v]["var"], 1e-7)


def _plain(geom):
    """Order of the domains and rules does not matter here."""
    return {"n": list(geom["n"]), "d": list(geom["d"]), "c": list(geom["c"]), "pts": geom["pts_cloud"],
            "dom": {k: sorted(int(i) for i in geom["domain_def"][k]) for k in sorted(geom["domain_def"])}}


@st.composite
def option_cases(draw, tier):
    what = draw(st.sampled_from(["plot_mode", "folder", "name", "voxel", "solution", "tag_plot", "tag_sweep", "data_none"]))
    bad = {
        "plot_mode": ["x", "", 1, "QT", ["qt"], True], "folder": ["", 1, [], True], "name": ["", 1, [], {}],
        "voxel": ["date", "duration", "seconds", "status", "data_geom", None],
        "solution": ["date", "duration", "seconds", "status", "data_init", "data_sweep", None],
        "tag_plot": ["p0", [1], ["zz"], ["p0", "zz"], {"p0": 1}, 1, [["p0"]]],
        "tag_sweep": ["x", [0], ["zz"], ["x", "zz"], {"x": 1}, 2, [None]],
        "data_none": [None, [], "x", 3],
    }[what]
    return {"what": what, "bad": draw(st.sampled_from(bad)), "who": draw(st.sampled_from(["viewer", "plotter"])), "base": draw(st.integers(0, 7))}


def check_option(case, ctx):
    import pypeec
    (what, bad, who) = (case["what"], case["bad"], case["who"])
    if what in ("solution", "tag_sweep"):
        who = "plotter"
    ctx.label(what, who)
    data = plot_base({"kind": who, "base": case["base"]})
    kw = {"plot_mode": "debug", "tag_plot": []}
    if who == "plotter":
        kw["tag_sweep"] = []
    first = small_voxel() if who == "viewer" else small_solution()

    def run(first, data, kw):
        return (pypeec.run_viewer_data if who == "viewer" else pypeec.run_plotter_data)(first, data, **kw)

    api.must("plot without defect", run, first, data, kw)
    if what in ("plot_mode", "folder", "name", "tag_plot", "tag_sweep"):
        kw[what] = bad
        api.refused("%s=%r" % (what, bad), run, first, data, kw)
    elif what == "data_none":
        api.refused("plot data %r" % (bad,), run, first, bad, kw)
    elif what == "solution":
        first = {k: v for k, v in first.items() if k != bad} if bad is not None else None
        api.refused("solution without %s" % bad, run, first, data, kw)
    else:
        vox = {k: v for k, v in small_voxel().items() if k != bad} if bad is not None else None
        if who == "viewer":
            api.refused("voxel data without %s" % bad, run, vox, data, kw)
        else:
            api.refused("voxel data without %s" % bad, pypeec.run_solver_data, vox, problem_base({"base": 0}), api.tolerance())


PROP = Prop("C10", [
    Part("refuse", cases, check_refuse, quick=4000, thorough=60000),
    Part("sweep", sweeps, check_sweep, quick=1600, thorough=20000),
    Part("accept", cases, check_accept, quick=1200, thorough=12000),
    Part("option", option_cases, check_option, quick=500, thorough=3000),
], rule="well-formed geometry (four kinds), problem, tolerance, viewer and plotter data with exactly one defect of the documented format "
        "(entry removed, wrong type, wrong length, unknown keyword, out of range) at a drawn place; the same with an equivalent or boundary value; "
        "trivial only for an empty set of plots", batch=200, quick_s=45)
