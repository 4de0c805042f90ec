"""C33: content of the viewer."""

import contextlib
import os

import numpy as np
from hypothesis import strategies as st

from pv import api, files, gen, model, plots
from pv.engine import Part, Prop

NAMES = ["b", "a", "coil", "core", "10", "2"]


@st.composite
def cases(draw, tier):
    hi = 4 if tier == "quick" else 6
    n = [draw(st.integers(1, hi)) for _ in range(3)]
    nv = n[0] * n[1] * n[2]
    n_dom = draw(st.integers(1, 6))
    w = draw(st.integers(0, 8))
    return {
        "n": n, "lab": [draw(st.sampled_from([-1] * w + list(range(n_dom)))) for _ in range(nv)], "n_dom": n_dom,
        "d": [draw(st.sampled_from([1.0, 0.5, 1e-3, 0.3])) for _ in range(3)],
        "c": [draw(st.sampled_from([0.0, 1.0, -0.25])) for _ in range(3)],
        "order": draw(st.integers(0, 6)),
        "names": draw(st.permutations(NAMES)),
        "pts": [[draw(st.integers(-20, 20)) / 4.0 for _ in range(3)] for _ in range(draw(st.integers(0, 4)))],
        "factor": draw(st.sampled_from([None, None, [2, 1, 1], [1, 1, 3]])), "reduce": draw(st.booleans()),
        "layouts": draw(st.lists(st.sampled_from(plots.VIEWER), min_size=1, max_size=4)),
        "view": [draw(st.booleans()) for _ in range(6)], "reference": draw(st.booleans()),
        "style": draw(st.one_of(st.none(), plots.style_cases(), plots.style_cases())),
        "way": draw(st.sampled_from(["data", "data", "file", "cli"])), "title": draw(st.sampled_from(["Title", None])),
    }


@st.composite
def large(draw, tier):
    """Many domains and components."""
    case = dict(draw(cases("quick")), **draw(gen.coarse(tier)))
    names = gen.domain_names(NAMES, case["n_dom"])
    return dict(case, names=names, layouts=case["layouts"][:2], pts=case["pts"] * 30 if draw(st.booleans()) else case["pts"],
                factor=draw(st.sampled_from([None, None, [2, 1, 1]])))


def take(what, records, test):
    """Remove the one record that passes the test."""
    for (i, rec) in enumerate(records):
        if test(rec):
            return records.pop(i)
    api.expect(False, "%s is not shown" % what)


def extent(geom, tet):
    """Size of what is cut: a cut which leaves nothing is an error of PyVista."""
    used = [int(i) for v in geom["domain_def"].values() for i in v]
    if not used:
        return [0.0, 0.0, 0.0]
    pos = np.array([model.coords(geom["n"], i) for i in used])
    size = (pos.max(axis=0) - pos.min(axis=0) + 1) * np.array(geom["d"])
    return np.minimum(size, np.array([1.0, 2.0, 3.0]) * tet if tet else np.inf)


def check(case, ctx):
    import pypeec
    case = gen.expand(case)
    names = case["names"]
    dom = {names[k]: [] for k in range(case["n_dom"])}
    for i, v in enumerate(case["lab"]):
        if v >= 0:
            dom[names[v]].append(i)
    if case["order"]:
        rng = np.random.default_rng(case["order"])
        dom = {k: [v[i] for i in rng.permutation(len(v))] for k, v in dom.items()}
    used = sum(len(v) for v in dom.values())
    reduce = case["reduce"] and used > 0
    pts = [[p[a] * case["d"][a] for a in range(3)] for p in case["pts"]]
    vox = api.mesh(api.geometry_voxel(case["n"], case["d"], case["c"], dom, pts=pts, resample=case["factor"], reduce=reduce))
    geom = vox["data_geom"]
    if case["reference"]:
        tet = np.array([[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 3.0]]) * case["d"][0]
        geom["reference"] = {"points": tet, "faces": np.array([3, 0, 1, 2, 3, 0, 1, 3, 3, 0, 2, 3, 3, 1, 2, 3])}
    (grid, geo_w, point, axis, bar, clip) = case["view"]
    clip = clip and used > 0
    if used == 0:
        ctx.trivial("no voxel")
    opts = plots.pyvista_options(grid=grid, geom=geo_w, point=point, axis=axis, bar=bar, clip=clip)
    style = case.get("style") or plots.STYLE
    plots.set_style(opts, style, extent(geom, case["reference"] and "mesh" in case["layouts"] and case["d"][0]))
    viewer = {"%s_%d" % (lay, i): plots.viewer_entry(lay, opacity=style["opacity"], options=opts) for (i, lay) in enumerate(case["layouts"])}
    for v in viewer.values():
        v["data_plot"]["title"] = case["title"]
    ctx.label(case["way"], "domains=%d" % min(6, sum(1 for v in dom.values() if v)), *sorted(set(case["layouts"])))
    # what the viewer has to show, from the voxel structure
    (n, d, c) = ([int(v) for v in geom["n"]], [float(v) for v in geom["d"]], [float(v) for v in geom["c"]])
    where = {int(i): k for k, v in geom["domain_def"].items() for i in v}
    comps = model.components(n, sorted(where))
    comp_of = {i: k for k, comp in enumerate(comps) for i in comp}
    ctx.label("components=%d" % min(len(comps), 4))
    with contextlib.ExitStack() as stack:
        tmp = stack.enter_context(files.scratch())
        cap = stack.enter_context(plots.Capture())
        img = os.path.join(tmp, "img")
        os.mkdir(img)
        if case["way"] == "data":
            before = api.snapshot((vox, viewer))
            api.must("viewer", pypeec.run_viewer_data, vox, viewer, plot_mode="save", folder=img, name="v")
            api.same("viewer input", [vox, viewer], list(before))
        else:
            from pv.props.c32 import quiet, write_data
            write_data(os.path.join(tmp, "vox.json"), vox)
            files.write_config(os.path.join(tmp, "vi.yaml"), viewer)
            if case["way"] == "file":
                api.must("viewer", pypeec.run_viewer_file, os.path.join(tmp, "vox.json"), os.path.join(tmp, "vi.yaml"), plot_mode="save", folder=img, name="v")
            else:
                with contextlib.redirect_stderr(quiet()), contextlib.redirect_stdout(quiet()):
                    code = api.must("viewer", pypeec.run_arguments, ["viewer", "--voxel", os.path.join(tmp, "vox.json"), "--viewer", os.path.join(tmp, "vi.yaml"),
                                                                     "--plot_mode", "save", "--folder", img])
                api.expect(code == 0, "the viewer returns %r" % code)
        prefix = "pypeec" if case["way"] == "cli" else "v"
        api.expect(sorted(os.listdir(img)) == sorted("%s_%s.png" % (prefix, t) for t in viewer), "pictures %s" % sorted(os.listdir(img)))
        for (tag, entry) in viewer.items():
            (kind, plot) = cap.plot_of(os.path.join(img, "%s_%s.png" % (prefix, tag)))
            api.expect(kind == "pyvista", "%s: no picture of a 3D plot" % tag)
            lay = entry["layout"]
            recs = list(plot["meshes"])
            plots.check_scene(tag, plot, opts)
            view = opts["plot_view"]
            if used:
                rec = take(tag, recs, lambda r: r["arg"].get("style") != "wireframe" and r["mesh"].n_cells == len(where))
                idx = plots.cells(tag, rec["mesh"], n, d, c)
                api.expect(set(idx) == set(where), "%s: shows the voxels %s instead of %s" % (tag, sorted(idx), sorted(where)))
                api.expect(rec["kind"] == ("clip" if clip else "full"), "%s: clipping" % tag)
                plots.prop_is(tag, rec, opacity=style["opacity"][0])
                if lay in ("domain", "graph"):
                    val = plots.scalars(tag, rec)
                    api.expect(len(val) == len(idx), "%s: number of values" % tag)
                    group = where if lay == "domain" else comp_of
                    seen = {}
                    for (i, v) in zip(idx, val):
                        api.expect(np.isfinite(v), "%s: undefined value" % tag)
                        api.expect(seen.setdefault(group[i], v) == v, "%s: several values for %s" % (tag, group[i]))
                    api.expect(len(set(seen.values())) == len(seen), "%s: the groups share values: %s" % (tag, seen))
                    if rec["arg"].get("clim") is not None:
                        api.expect(min(rec["arg"]["clim"]) <= min(val) and max(rec["arg"]["clim"]) >= max(val), "%s: range of the colours" % tag)
                else:
                    api.expect(rec["arg"].get("color") == "red", "%s: color of the voxels" % tag)
                    plots.prop_is(tag, rec, color="red")
                    rec = take(tag + "/reference", recs, lambda r: r["arg"].get("color") == "blue")
                    plots.prop_is(tag + "/reference", rec, color="blue", opacity=style["opacity"][1])
                    if case["reference"]:
                        api.expect(rec["mesh"].n_cells == 4 and rec["mesh"].n_points == 4, "%s: reference mesh" % tag)
                        api.close(tag + ": reference mesh", np.asarray(rec["mesh"].points, dtype=float), tet, 1e-6)
                    else:
                        api.expect(set(plots.cells(tag, rec["mesh"], n, d, c)) == set(where), "%s: reference mesh" % tag)
            if grid:
                rec = take(tag + "/grid", recs, lambda r: r["arg"].get("style") == "wireframe" and r["arg"].get("opacity") == 0.1)
                api.expect(len(plots.cells(tag, rec["mesh"], n, d, c)) == n[0] * n[1] * n[2], "%s: complete grid" % tag)
                plots.prop_is(tag + "/grid", rec, color=view["grid_color"], width=view["grid_thickness"])
            if geo_w and used:
                rec = take(tag + "/geometry", recs, lambda r: r["arg"].get("style") == "wireframe" and r["arg"].get("opacity") == 0.5)
                api.expect(set(plots.cells(tag, rec["mesh"], n, d, c)) == set(where), "%s: wireframe of the voxels" % tag)
                plots.prop_is(tag + "/geometry", rec, color=view["geom_color"], width=view["geom_thickness"])
            if point and pts:
                rec = take(tag + "/points", recs, lambda r: r["arg"].get("point_size") == 5.0)
                api.close(tag + ": points", np.asarray(rec["mesh"].points, dtype=float), np.array(pts), 1e-6, 1e-12)
                plots.prop_is(tag + "/points", rec, color=view["point_color"], opacity=view["point_opacity"], size=view["point_size"])
            recs = [r for r in recs if r["mesh"].n_points > 0]
            api.expect(not recs, "%s: shows %d more objects" % (tag, len(recs)))
            texts = [t for t in plot["texts"] if t]
            api.expect(texts == ([case["title"]] if case["title"] else []), "%s: shows the texts %s" % (tag, texts))


PROP = Prop("C33", [
    Part("viewer", cases, check, quick=1500, thorough=20000),
    Part("large", large, check, quick=60, thorough=2000),
], rule="random voxel structures with domains in random order, resampling, reference meshes, points and view options; the objects given to PyVista are "
        "compared with the voxel structure; trivial without voxel",
   assumptions=["the pictures are not rendered (no display): the objects handed to PyVista are inspected"])
