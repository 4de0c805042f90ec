"""C34: content of the plotter."""

import contextlib
import copy
import os
import re

import numpy as np
from hypothesis import strategies as st

from pv import api, files, gen, plots
from pv.engine import Part, Prop
from pv.props.c33 import take

SCALAR_E = ("V_c", "P_c", "S_c")
SCALAR_M = ("V_m", "P_m", "Q_m")
VARS = {
    "norm_voxel": SCALAR_E + SCALAR_M + ("J_c", "B_m"), "phasor_voxel": SCALAR_E + SCALAR_M, "arrow_voxel": ("J_c", "B_m"),
    "norm_point": ("H_p",), "arrow_point": ("H_p",),
}
LAYOUTS = ["material", "norm_voxel", "norm_voxel", "phasor_voxel", "phasor_voxel", "arrow_voxel", "arrow_voxel", "norm_point", "arrow_point",
           "convergence", "residuum"]
EPS = float(np.finfo(np.float64).eps)


@st.composite
def requests(draw):
    lay = draw(st.sampled_from(LAYOUTS))
    out = {"layout": lay}
    if lay in VARS:
        out["var"] = draw(st.sampled_from(VARS[lay]))
        out["scale"] = draw(st.sampled_from([1.0, 1.0, 1e3, 0.5, -2.0, 0.0] if not lay.startswith("arrow") else [1.0, 1.0, 1e-3, 4.0]))
        out["phase"] = draw(st.sampled_from([0.0, 0.0, 1.5707963267948966, -0.7, 3.0, 10.0]))
        out["filter"] = draw(st.one_of(st.none(), st.tuples(st.integers(-1, 6), st.integers(-1, 6)).map(list)))
        out["clamp"] = draw(st.one_of(st.none(), st.tuples(st.integers(-1, 6), st.integers(-1, 6)).map(list)))
        out["color"] = draw(st.booleans())
        out["threshold"] = draw(st.sampled_from([0, 0, 1, 2, 3, 20, 35, 60]))
        out["legend"] = draw(st.sampled_from(["legend", "V / m", None]))
        out["log"] = draw(st.integers(0, 3)) == 0
        out["length"] = draw(st.sampled_from([0.75, 0.2, 3.0]))
    elif lay == "residuum":
        out["bins"] = [draw(st.sampled_from([2, 5, 10, 40, 130])), draw(st.sampled_from([0.01, 0.5, 1e-6]))]
    return out


@st.composite
def cases(draw, tier, block=False):
    kinds = draw(st.sampled_from([gen.MIXED, gen.MIXED, ("electric",)]))
    if block:
        case = draw(gen.block_cases(tier, kinds=kinds, freqs=("dc", "ac", "ac"), max_src=2, pts=True))
    else:
        case = draw(gen.problem_cases(kinds=kinds, freqs=("dc", "ac", "ac"), max_nv=18, max_src=2, pts=True))
    case["plots"] = draw(st.lists(requests(), min_size=1, max_size=6))
    if draw(st.booleans()):
        case["plots"].append({"layout": "material"})
    case["sweep"] = draw(st.booleans())
    case["view"] = [draw(st.booleans()) for _ in range(5)]
    case["clip"] = draw(st.integers(0, 4)) == 0
    case["way"] = draw(st.sampled_from(["data", "data", "data", "file", "cli"]))
    case["title"] = draw(st.sampled_from(["Title", "Title", None]))
    case["stop"] = draw(st.booleans())
    case["style"] = draw(st.one_of(st.none(), plots.style_cases(), plots.style_cases()))
    return case


def gaps(values):
    """Limits in the gaps between the (clearly different) values."""
    v = np.sort(np.unique(np.asarray(values, dtype=float)))
    if len(v) == 0:
        return []
    span = max(abs(v[0]), abs(v[-1])) + 1e-290
    out = [v[0] - 0.3 * span]
    for (a, b) in zip(v[:-1], v[1:]):
        if b - a > 1e-6 * span:
            out.append(0.5 * (a + b))
    return out + [v[-1] + 0.3 * span]


def limits(pick, values):
    lst = gaps(values)
    if pick is None or not lst:
        return None
    (i, j) = sorted(k % len(lst) if k >= 0 else (0 if q == 0 else len(lst) - 1) for q, k in enumerate(pick))
    return [float(lst[i]), float(lst[j])]


def expected(req, S, prob):
    """Value (and vector) of every voxel or point that has the variable, from the solution."""
    if req["var"] == "H_p":
        val = dict(enumerate(np.asarray(S.sw["var"]["H_p"]["var"])))
    else:
        val = S.field(req["var"])
    lay = req["layout"].split("_")[0]
    rot = np.exp(1j * req["phase"])
    out = {}
    for k, v in val.items():
        if lay == "norm":
            out[k] = (float(np.linalg.norm(np.atleast_1d(v))), None)
        elif lay == "phasor":
            out[k] = (float((v * rot).real), None)
        else:
            vec = (np.asarray(v) * rot).real
            out[k] = (float(np.linalg.norm(vec)), vec)
    return {k: (req["scale"] * v, vec) for k, (v, vec) in out.items()}


def make_entry(req, val, opts, title):
    """Plot description and what has to be shown: name -> (value, vector), and the names on the edge."""
    lay = req["layout"]
    flt = limits(req["filter"], [v for v, _ in val.values()])
    keep = {k: v for k, v in val.items() if flt is None or flt[0] <= v[0] <= flt[1]}
    edge = set()
    thr = 0.0
    if lay.startswith("arrow"):
        top = max([v for v, _ in keep.values()], default=0.0)
        lst = gaps([v for v, _ in keep.values()])[1:-1]
        if req["threshold"] and lst and top > 0:
            thr = float(lst[(req["threshold"] - 1) % len(lst)] / top)
        edge = {k for k, v in keep.items() if abs(v[0] - thr * top) <= 1e-9 * top or v[0] <= 1e-9 * top}
        keep = {k: v for k, v in keep.items() if v[0] > thr * top or k in edge}
    cla = limits(req["clamp"], [v for v, _ in val.values()])
    if cla is not None:
        keep = {k: (min(max(v, cla[0]), cla[1]), vec) for k, (v, vec) in keep.items()}
    kw = dict(var=req["var"], scale=req["scale"], filter_lim=flt, clamp_lim=cla, color_lim=[0.5, 2.0] if req["color"] else None, threshold=thr, options=opts, log=bool(req.get("log")),
              phase=req["phase"], title=title)
    entry = plots.plotter_entry(lay, **kw)
    entry["data_plot"]["legend"] = req.get("legend", "legend")
    if lay.startswith("arrow"):
        entry["data_plot"]["arrow_scale"] = req["length"]
    return entry, keep, edge


def check_arrows(tag, rec, want, edge, place, factor, scale, floor):
    """Arrows: base at the place, along the vector, constant length, colour by the value."""
    import pyvista
    from vtkmodules.vtkFiltersSources import vtkArrowSource
    source = vtkArrowSource()
    source.Update()
    P0 = np.asarray(pyvista.wrap(source.GetOutput()).points, dtype=float)
    mesh = rec["mesh"]
    api.expect(mesh.n_points % len(P0) == 0, "%s: not a set of arrows" % tag)
    pts = np.asarray(mesh.points, dtype=float).reshape((-1, len(P0), 3))
    val = plots.scalars(tag, rec).reshape((-1, len(P0)))
    names = sorted(want)
    spots = np.array([place[k] for k in names]).reshape((-1, 3))
    tol = 2e-5 * factor + 4e-6 * scale
    shown = []
    # the axis of the arrow source: points of the shaft begin are around the origin
    base = np.isclose(P0[:, 0], 0.0)
    along = P0[:, 0]
    perp = np.linalg.norm(P0[:, 1:], axis=1)
    for (q, v) in zip(pts, val):
        root = q[base].mean(axis=0)
        dist = np.max(np.abs(spots - root), axis=1) if len(names) else np.array([np.inf])
        k = int(np.argmin(dist))
        api.expect(dist[k] < tol, "%s: an arrow starts at %s" % (tag, root))
        name = names[k]
        shown.append(name)
        (value, vec) = want[name]
        api.expect(np.max(np.abs(v - value)) <= 1e-9 * max(abs(value), floor), "%s: value %s instead of %s" % (tag, v[0], value))
        if name in edge or np.linalg.norm(vec) == 0:
            continue
        u = vec / np.linalg.norm(vec)
        r = q - spots[k]
        t = r @ u
        api.expect(np.max(np.abs(t - factor * along)) < tol and np.max(np.abs(np.linalg.norm(r - np.outer(t, u), axis=1) - factor * perp)) < tol,
                   "%s: the arrow at %s does not show the vector %s with the length %s" % (tag, name, u, factor))
    api.expect(len(set(shown)) == len(shown), "%s: several arrows at a place" % tag)
    miss = set(want) - set(shown) - edge
    api.expect(not miss, "%s: no arrow at %s" % (tag, sorted(miss)))


def material_color(prob, i, entry):
    data = entry["data_plot"]
    if prob.src[i]:
        return data["color_current_source" if prob.sources[prob.src[i] - 1]["type"] == "current" else "color_voltage_source"]
    kind = prob.materials[prob.mat[i] - 1]["type"]
    return data["color_" + kind]


re_number = re.compile(r"[-+]?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?")


def shown(ax):
    return " ".join(t for t in (ax.get_title(loc=k) for k in ("left", "center", "right")) if t)


def check_figure(tag, fig, lay, S, data):
    ax = fig["figure"].axes
    api.expect(len(ax) == 1, "%s: %d axes" % (tag, len(ax)))
    ax = ax[0]
    if lay == "convergence":
        conv = S.sw["conv"]
        p = np.concatenate(([conv["power_init"]], np.asarray(conv["power_vec"])))
        end = conv["power_final"]
        if abs(end) < 1e-200:
            return
        err = (p - end) / abs(end)
        (re, im) = (np.maximum(np.abs(err.real), EPS), np.maximum(np.abs(err.imag), EPS))
        api.expect("%.2e VA" % end in shown(ax) or "{:.2e} VA".format(end) in shown(ax), "%s: title '%s' for the power %s" % (tag, shown(ax), end))
        got = {line.get_color(): np.asarray(line.get_ydata(), dtype=float) for line in ax.lines}
        api.expect(set(got) == {"red", "blue"}, "%s: lines %s" % (tag, sorted(got)))
        for (color, exp) in (("red", re), ("blue", im)):
            api.expect(got[color].shape == exp.shape, "%s: %d points instead of %d" % (tag, len(got[color]), len(exp)))
            api.expect(np.all(np.abs(got[color] - exp) <= 1e-9 * exp + 4 * EPS), "%s: convergence %s instead of %s" % (tag, got[color], exp))
    else:
        res = np.abs(np.asarray(S.sw["res"]))
        rms = float(np.sqrt(np.mean(res**2)))
        nums = [float(v) for v in re_number.findall(shown(ax))]
        api.expect(len(res) in nums and any(abs(v - rms) <= 6e-3 * rms for v in nums), "%s: title '%s' for %d equations and %s" % (tag, shown(ax), len(res), rms))
        res = np.maximum(res, EPS)
        bars = [(b.get_x(), b.get_x() + b.get_width(), b.get_height()) for b in ax.patches]
        api.expect(sum(h for (_, _, h) in bars) == len(res), "%s: %s values instead of %d" % (tag, sum(h for (_, _, h) in bars), len(res)))
        api.expect(len(bars) in (data["n_bins"] - 1, data["n_bins"]), "%s: %d bars instead of %d" % (tag, len(bars), data["n_bins"]))
        (low, high) = (res.min() / (1 + data["tol_bins"]), res.max() * (1 + data["tol_bins"]))
        api.expect(abs(min(a for (a, _, _) in bars) - low) <= 1e-6 * low and abs(max(b for (_, b, _) in bars) - high) <= 1e-6 * high,
                   "%s: bars from %s to %s instead of %s to %s" % (tag, bars[0][0], bars[-1][1], low, high))
        for (a, b, h) in bars:
            (lo, hi) = (np.sum((res > a * (1 + 1e-9)) & (res < b * (1 - 1e-9))), np.sum((res >= a * (1 - 1e-9)) & (res <= b * (1 + 1e-9))))
            api.expect(lo <= h <= hi, "%s: %s values between %s and %s instead of %s" % (tag, h, a, b, hi))


def check(case, ctx):
    import pypeec
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    base = prob.problem()
    if case["sweep"]:
        par = copy.deepcopy(base["sweep_solver"]["sim"]["param"])
        par["freq"] = 0.5 * prob.freq
        base["sweep_solver"]["half"] = {"init": None, "param": par}
    tol = gen.any_tolerance(case)
    tol["solver_options"]["power_options"]["stop"] = case["stop"]
    vox = api.mesh(prob.geometry())
    sol = api.solve(vox, base, tol)
    (grid, geo_w, point, axis, bar) = case["view"]
    opts = plots.pyvista_options(grid=grid, geom=geo_w, point=point, axis=axis, bar=bar)
    clipped = plots.pyvista_options(grid=grid, geom=geo_w, point=point, axis=axis, bar=bar, clip=case["clip"])
    (n, d, c) = (prob.n, prob.d, prob.c)
    used = sorted(set(prob.electric) | set(prob.magnetic))
    # a cut which leaves nothing is an error of PyVista: in the middle for the filtered values
    pos = np.array([center(n, d, c, i) for i in used])
    plots.set_style(opts, case.get("style"), [0.0, 0.0, 0.0])
    middle = copy.deepcopy(clipped)
    plots.set_style(middle, case.get("style"), [0.0, 0.0, 0.0])
    plots.set_style(clipped, case.get("style"), pos.max(axis=0) - pos.min(axis=0) + np.array(d))
    span = max(abs(v) for v in c) + max(n[a] * d[a] for a in range(3)) + max([abs(v) for p in prob.pts for v in p], default=0.0)
    # the limits of the plots are taken from the first sweep
    first = gen.Solution(sol, "sim")
    plotter = {}
    for (i, req) in enumerate(case["plots"]):
        lay = req["layout"]
        tag = "p%d" % i
        if lay in VARS:
            if lay.endswith("point") and not prob.pts:
                ctx.label("no point")
            (plotter[tag], _, _) = make_entry(req, expected(req, first, prob), middle if lay == "norm_voxel" else opts, case["title"])
        elif lay == "material":
            plotter[tag] = plots.plotter_entry(lay, title=case["title"], options=clipped)
        else:
            plotter[tag] = plots.plotter_entry(lay)
            if lay == "residuum":
                (plotter[tag]["data_plot"]["n_bins"], plotter[tag]["data_plot"]["tol_bins"]) = req.get("bins", [10, 0.01])
        ctx.label(lay)
    ctx.label(case["way"])
    with contextlib.ExitStack() as stack:
        tmp = stack.enter_context(files.scratch())
        cap = stack.enter_context(plots.Capture())
        img = os.path.join(tmp, "img")
        os.mkdir(img)
        sweeps = ["sim"] if case["sweep"] and prob.ids and case["order"] % 2 else list(sol["data_sweep"])
        prefix = "v"
        if case["way"] == "data":
            before = api.snapshot((sol, plotter))
            api.must("plotter", pypeec.run_plotter_data, sol, plotter, tag_sweep=sweeps, plot_mode="save", folder=img, name="v")
            api.same("plotter input", [sol, plotter], list(before))
        else:
            from pv.props.c32 import quiet, write_data
            (ps, pp) = (os.path.join(tmp, "sol.pck"), os.path.join(tmp, "pl.json"))
            write_data(ps, sol)
            files.write_config(pp, plotter)
            if case["way"] == "file":
                api.must("plotter", pypeec.run_plotter_file, ps, pp, tag_sweep=sweeps, plot_mode="save", folder=img, name="v")
            else:
                prefix = "pypeec"
                with contextlib.redirect_stderr(quiet()), contextlib.redirect_stdout(quiet()):
                    code = api.must("plotter", pypeec.run_arguments, ["plotter", "--solution", ps, "--plotter", pp, "--plot_mode", "save", "--folder", img,
                                                                      "--tag_sweep"] + sweeps)
                api.expect(code == 0, "the plotter returns %r" % code)
        for sw in sweeps:
            S = gen.Solution(sol, sw)
            for (i, req) in enumerate(case["plots"]):
                tag = "%s/p%d/%s/%s" % (sw, i, req["layout"], req.get("var"))
                lay = req["layout"]
                entry = plotter["p%d" % i]
                path = os.path.join(img, "%s_%s_p%d.png" % (prefix, sw, i))
                api.expect(os.path.isfile(path), "%s: no picture" % tag)
                (kind, plot) = cap.plot_of(path)
                api.expect(kind == entry["framework"], "%s: picture of another kind (%s)" % (tag, kind))
                if kind == "matplotlib":
                    check_figure(tag, plot, lay, S, entry["data_plot"])
                    continue
                recs = list(plot["meshes"])
                plots.check_scene(tag, plot, entry["data_options"])
                view = entry["data_options"]["plot_view"]
                main = [r for r in recs if "scalars" in r["arg"]]
                api.expect(len(main) <= 1, "%s: several objects" % tag)
                for r in main:
                    recs = [q for q in recs if q is not r]
                    api.expect(r["kind"] == ("clip" if entry["data_options"]["plot_clip"]["clip_plot"] else "full"), "%s: clipping" % tag)
                if lay == "material":
                    api.expect(main, "%s: nothing is shown" % tag)
                    idx = plots.cells(tag, main[0]["mesh"], n, d, c)
                    api.expect(sorted(idx) == used, "%s: shows the voxels %s instead of %s" % (tag, sorted(idx), used))
                    val = plots.scalars(tag, main[0])
                    (cmap, clim) = (main[0]["arg"]["cmap"], main[0]["arg"]["clim"])
                    for (k, v) in zip(idx, val):
                        color = cmap[min(len(cmap) - 1, int((v - clim[0]) / (clim[1] - clim[0]) * len(cmap)))]
                        api.expect(color == material_color(prob, k, entry), "%s: color %s of voxel %d instead of %s" % (tag, color, k, material_color(prob, k, entry)))
                else:
                    val = expected(req, S, prob)
                    (_, keep, edge) = reuse(req, val, entry)
                    size = max([abs(v) for v, _ in val.values()], default=0.0) + 1e-290
                    place = {k: np.array(prob.pts[k]) for k in keep} if lay.endswith("point") else {k: center(n, d, c, k) for k in keep}
                    if not main:
                        api.expect(not set(keep) - edge, "%s: nothing is shown instead of %d values" % (tag, len(keep)))
                    elif lay.startswith("arrow"):
                        check_arrows(tag, main[0], keep, edge, place, req["length"] * min(d), span, size)
                    else:
                        got = plots.scalars(tag, main[0])
                        if lay.endswith("voxel"):
                            idx = plots.cells(tag, main[0]["mesh"], n, d, c)
                        else:
                            p = np.asarray(main[0]["mesh"].points, dtype=float)
                            idx = [min(range(len(prob.pts)), key=lambda j: float(np.max(np.abs(q - prob.pts[j])))) for q in p]
                            same_place = all(np.max(np.abs(p[j] - prob.pts[idx[j]])) < 4e-6 * span for j in range(len(p)))
                            api.expect(same_place, "%s: a point is at another place" % tag)
                        if len(set(map(tuple, prob.pts))) == len(prob.pts) or lay.endswith("voxel"):
                            api.expect(set(keep) - edge <= set(idx) <= set(keep) | edge, "%s: shows %s instead of %s" % (tag, sorted(idx), sorted(keep)))
                        api.expect(len(got) == len(idx), "%s: number of values" % tag)
                        for (k, v) in zip(idx, got):
                            api.expect(abs(v - keep[k][0] if k in keep else 0.0) <= 1e-9 * size, "%s: value %s of %s instead of %s" % (tag, v, k, keep.get(k)))
                    for r in main:
                        api.expect(r["log"] is None or r["log"] == entry["data_plot"]["log"], "%s: logarithmic colours: %s" % (tag, r["log"]))
                        legend = [entry["data_plot"]["legend"] or ""] if bar else []
                        api.expect(plot["state"]["bars"] == legend, "%s: colour bars %s instead of %s" % (tag, plot["state"]["bars"], legend))
                        if not lay.startswith("arrow"):
                            plots.prop_is(tag, r, size=entry["data_plot"]["point_size"])
                        api.expect(r["arg"].get("clim") == entry["data_plot"]["color_lim"], "%s: color limits %s" % (tag, r["arg"].get("clim")))
                if grid:
                    r = take(tag + "/grid", recs, lambda r: r["arg"].get("style") == "wireframe" and r["arg"].get("opacity") == 0.1)
                    api.expect(len(plots.cells(tag, r["mesh"], n, d, c)) == prob.nv, "%s: complete grid" % tag)
                    plots.prop_is(tag + "/grid", r, color=view["grid_color"], width=view["grid_thickness"])
                if geo_w:
                    r = take(tag + "/geometry", recs, lambda r: r["arg"].get("style") == "wireframe" and r["arg"].get("opacity") == 0.5)
                    api.expect(sorted(plots.cells(tag, r["mesh"], n, d, c)) == used, "%s: wireframe of the voxels" % tag)
                    plots.prop_is(tag + "/geometry", r, color=view["geom_color"], width=view["geom_thickness"])
                if point and prob.pts:
                    r = take(tag + "/points", recs, lambda r: r["arg"].get("point_size") == 5.0)
                    api.close(tag + ": points", np.asarray(r["mesh"].points, dtype=float), np.array(prob.pts), 4e-6, 1e-12)
                    plots.prop_is(tag + "/points", r, color=view["point_color"], opacity=view["point_opacity"], size=view["point_size"])
                texts = [t for t in plot["texts"] if t]
                api.expect(texts == ([case["title"]] if case["title"] else []), "%s: shows the texts %s" % (tag, texts))


def center(n, d, c, i):
    from pv import model
    return np.array(model.center(n, d, c, i))


def reuse(req, val, entry):
    """What a given plot description has to show for other values (limits as in the description)."""
    data = entry["data_plot"]
    (flt, cla) = (data["filter_lim"], data["clamp_lim"])
    keep, edge = {}, set()
    size = max([abs(v) for v, _ in val.values()], default=0.0)
    for k, (v, vec) in val.items():
        if flt is not None and min(abs(v - f) for f in flt) <= 1e-9 * size:
            edge.add(k)
        if flt is None or flt[0] <= v <= flt[1]:
            keep[k] = (v, vec)
    if "arrow_threshold" in data:
        top = max([v for v, _ in keep.values()], default=0.0)
        thr = data["arrow_threshold"] * top
        edge |= {k for k, (v, _) in keep.items() if abs(v - thr) <= 1e-9 * size or v <= 1e-9 * size}
        keep = {k: v for k, v in keep.items() if v[0] > thr or k in edge}
    if cla is not None:
        keep = {k: (min(max(v, cla[0]), cla[1]), vec) for k, (v, vec) in keep.items()}
        # nothing to show an arrow for
        none = {k for k in edge if val[k][1] is not None and not np.any(val[k][1])}
        edge -= none
        keep = {k: v for k, v in keep.items() if k not in none}
    return data, keep, edge


# -- refused variables ------------------------------------------------------------------------
@st.composite
def unknown(draw, tier):
    case = draw(gen.problem_cases(kinds=("electric",), freqs=("dc",), max_nv=4, max_src=1, pts=True))
    case["layout"] = draw(st.sampled_from(sorted(VARS)))
    case["var"] = draw(st.sampled_from(["X_c", "J", "H_p", "norm", "J_c_re", "", "V_c", "j_c"]))
    return case


def check_unknown(case, ctx):
    import pypeec
    (prob, _, _) = gen.setup_case(case, ctx)
    if prob is None:
        return
    (lay, var) = (case["layout"], case["var"])
    voxel = lay.endswith("voxel")
    if (var == "H_p") != voxel and var in ("H_p", "V_c"):
        ctx.trivial("known variable")
        return
    if var == "V_c" and voxel:
        ctx.trivial("known variable")
        return
    ctx.label(lay, var)
    (vox, sol) = prob.run()
    with plots.Capture():
        entry = {"x": plots.plotter_entry(lay, var=var)}
        api.refused("plot %s of the variable '%s'" % (lay, var), pypeec.run_plotter_data, sol, entry, plot_mode="debug")


PROP = Prop("C34", [
    Part("plotter", cases, check, quick=700, thorough=15000),
    Part("block", lambda tier: cases(tier, block=True), check, quick=60, thorough=2500),
    Part("unknown", unknown, check_unknown, quick=200, thorough=3000),
], rule="random solutions (electric and mixed, several sweeps, points) with random plots, limits, scales and phases; the objects given to PyVista "
        "and Matplotlib are compared with the solution of the solver; trivial without face or excitation",
   quick_s=55, assumptions=["the 3D pictures are not rendered (no display): the objects handed to PyVista are inspected"])
