"""C03: stacked 2D shapes."""

import numpy as np
from hypothesis import strategies as st

from pv import api
from pv.engine import Part, Prop

NAMES = ["cond", "a", "zz"]
LAYERS = ["bot", "mid", "top", "l4", "L 5", "z"]


@st.composite
def _shape(draw, straight=False, n_lay=3):
    kind = "polygon" if straight else draw(st.sampled_from(["pad", "trace", "polygon", "polygon"]))
    pt = st.tuples(st.integers(-16, 16), st.integers(-16, 16)).map(list)
    out = {"kind": kind, "layers": draw(st.lists(st.integers(0, n_lay - 1), min_size=1, max_size=n_lay, unique=True))}
    if kind == "pad":
        out["coord"] = draw(st.lists(pt, min_size=1, max_size=3))
        out["size"] = draw(st.integers(2, 20))
    elif kind == "trace":
        out["coord"] = draw(st.lists(pt, min_size=2, max_size=4, unique_by=tuple))
        out["size"] = draw(st.integers(2, 12))
    else:
        form = draw(st.sampled_from(["rect", "rect", "tri", "ell"]))
        x = draw(st.integers(-16, 8))
        y = draw(st.integers(-16, 8))
        w = draw(st.integers(4, 20))
        h = draw(st.integers(4, 20))
        out.update({"form": form, "box": [x, y, w, h], "holes": draw(st.integers(0, 3)) if form == "rect" else 0,
                    "cut": draw(st.integers(1, 3)), "flip": draw(st.booleans()),
                    "buffer": draw(st.sampled_from([None, 0, 0] if straight else [None, 0, 0, 2, 5]))})
    return out


@st.composite
def cases(draw, tier):
    n_dom = draw(st.integers(1, 3))
    straight = draw(st.integers(0, 3)) == 0
    domains = []
    n_lay = draw(st.sampled_from([3, 3, 3, 6]))
    for k in range(n_dom):
        shapes = []
        for q in range(1 if straight else draw(st.sampled_from([1, 2, 3, 3, 5, 6]))):
            s = draw(_shape(straight, n_lay))
            s["op"] = "add" if q == 0 else draw(st.sampled_from(["add", "sub"]))
            shapes.append(s)
        if draw(st.integers(0, 3)) == 0:
            shapes = shapes[::-1]
        domains.append(shapes)
    return {
        "scale": draw(st.sampled_from([1.0, 1e-3])), "domains": domains,
        "stack": [draw(st.sampled_from([1, 2, 3, 3, 7])) for _ in range(draw(st.integers(1, n_lay)))],
        # the whole layout far away from the origin
        "off": draw(st.sampled_from([[0.0, 0.0], [0.0, 0.0], [0.0, 0.0], [1000.0, -2000.0], [-37.0, 4096.0]])),
        "dx": draw(st.sampled_from([1.0, 0.5, 0.8, 1.5])), "dy": draw(st.sampled_from([1.0, 0.5, 0.8, 1.5])),
        "dz": draw(st.sampled_from([1.0, 0.25])), "cz": draw(st.sampled_from([None, 0.0, 1.5, -3.0])),
        "simplify": draw(st.sampled_from([None, None, 1e-3])), "construct": draw(st.sampled_from([None, 1e-4, 1e-3])),
        "min": draw(st.sampled_from([None, None, None, [-5.0, -5.0], [-3.0, -4.5], [-8.0, -6.2], [0.0, 0.0], [0.0, -3.0]])),
        "max": draw(st.sampled_from([None, None, None, [5.0, 5.0], [3.5, 4.0], [8.1, 6.0], [0.0, 0.0], [4.0, 0.0]])),
    }


@st.composite
def large(draw, tier):
    """Fine grids, thick stacks and many shapes."""
    case = draw(cases(tier))
    case["stack"] = [n * draw(st.sampled_from([1, 1, 4, 13])) for n in case["stack"]]
    fine = draw(st.sampled_from([0.03, 0.06, 0.1]))
    for axis in ("dx", "dy"):
        case[axis] *= draw(st.sampled_from([fine, fine, 0.3]))
    pt = st.tuples(st.integers(-16, 16), st.integers(-16, 16)).map(list)
    for s in sum(case["domains"], []):
        if s["kind"] in ("pad", "trace") and draw(st.integers(0, 2)) == 0:
            s["coord"] = draw(st.lists(pt, min_size=8, max_size=30, unique_by=tuple))
            s["size"] = draw(st.integers(1, 4))
    return case


def polygon(s):
    """Shell and holes on the quarter lattice."""
    (x, y, w, h) = s["box"]
    holes = []
    if s["form"] == "rect":
        shell = [[x, y], [x + w, y], [x + w, y + h], [x, y + h]]
        if s["holes"] == 1:
            holes = [[[x + 1, y + 1], [x + w - 1, y + 1], [x + w - 1, y + h - 1], [x + 1, y + h - 1]]]
        elif s["holes"] == 2:
            m = x + w / 2
            holes = [[[x + 1, y + 1], [m - 0.5, y + 1], [m - 0.5, y + h - 1], [x + 1, y + h - 1]],
                     [[m + 0.5, y + 1], [x + w - 1, y + 1], [x + w - 1, y + h - 1]]]
        elif s["holes"] == 3:
            m = x + w / 2
            k = y + h / 2
            holes = [[[x + 1, y + 0.9], [m - 0.4, y + 1.1], [m - 0.5, k - 0.3], [x + 1.1, k - 0.2]],
                     [[m + 0.5, y + 1.3], [x + w - 1, y + 1.2], [x + w - 1.1, k - 0.4], [m + 0.6, k - 0.5]],
                     [[x + 0.8, k + 0.5], [x + w - 1.2, k + 0.6], [x + w - 0.9, y + h - 0.8], [x + 0.7, y + h - 1]]]
    elif s["form"] == "tri":
        shell = [[x, y], [x + w, y + s["cut"]], [x + s["cut"], y + h]]
    else:
        c = s["cut"]
        shell = [[x, y], [x + w, y], [x + w, y + c], [x + c, y + c], [x + c, y + h], [x, y + h]]
    if s["flip"]:
        shell = shell[::-1]
        holes = [q[::-1] for q in holes]
    return shell, holes


def _seg_dist(p, a, b):
    (a, b) = (np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    ab = b - a
    t = np.clip(((p - a) @ ab) / (ab @ ab), 0, 1)
    return np.hypot(*(p - (a + t[:, None] * ab)).T)


def _inside(p, ring):
    """Even-odd rule."""
    out = np.zeros(len(p), dtype=bool)
    for i in range(len(ring)):
        (x1, y1) = ring[i]
        (x2, y2) = ring[i - 1]
        if y1 == y2:
            continue
        cross = ((y1 > p[:, 1]) != (y2 > p[:, 1])) & (p[:, 0] < (x2 - x1) * (p[:, 1] - y1) / (y2 - y1) + x1)
        out ^= cross
    return out


def member(s, p, scale):
    """Membership, distance to the outline and curvature radius of one shape for the points p (in units of the scale)."""
    u = 0.25
    if s["kind"] == "pad":
        r = 0.5 * s["size"] * u
        dist = np.array([np.hypot(p[:, 0] - c[0] * u, p[:, 1] - c[1] * u) for c in s["coord"]])
        return np.any(dist <= r, axis=0), np.min(np.abs(dist - r), axis=0), r
    if s["kind"] == "trace":
        r = 0.5 * s["size"] * u
        pts = [[c[0] * u, c[1] * u] for c in s["coord"]]
        dist = np.min([_seg_dist(p, pts[i], pts[i + 1]) for i in range(len(pts) - 1)], axis=0)
        return dist <= r, np.abs(dist - r), r
    (shell, holes) = polygon(s)
    rings = [[[c[0] * u, c[1] * u] for c in ring] for ring in [shell] + holes]
    ins = _inside(p, rings[0])
    for ring in rings[1:]:
        ins &= ~_inside(p, ring)
    bnd = np.min([_seg_dist(p, ring[i - 1], ring[i]) for ring in rings for i in range(len(ring))], axis=0)
    if s["buffer"]:
        r = s["buffer"] * u
        return ins | (bnd <= r), np.where(ins, r + bnd, np.abs(bnd - r)), r
    return ins, bnd, 0.0


def shapely_obj(s, scale):
    """Outline of one shape (only used for the bounding box)."""
    import shapely
    u = 0.25 * scale
    if s["kind"] == "pad":
        return shapely.MultiPoint([[c[0] * u, c[1] * u] for c in s["coord"]]).buffer(0.5 * s["size"] * u)
    if s["kind"] == "trace":
        return shapely.LineString([[c[0] * u, c[1] * u] for c in s["coord"]]).buffer(0.5 * s["size"] * u)
    (shell, holes) = polygon(s)
    obj = shapely.Polygon([[c[0] * u, c[1] * u] for c in shell], [[[c[0] * u, c[1] * u] for c in q] for q in holes])
    return obj.buffer(s["buffer"] * u) if s["buffer"] else obj


def build(case):
    sc = case["scale"]
    u = 0.25 * sc
    off = [v * sc for v in case.get("off", [0.0, 0.0])]
    geo_shape = {}
    for k, shapes in enumerate(case["domains"]):
        lst = []
        for s in shapes:
            if s["kind"] == "pad":
                data = {"diameter": s["size"] * u, "coord": [[c[0] * u + off[0], c[1] * u + off[1]] for c in s["coord"]]}
            elif s["kind"] == "trace":
                data = {"width": s["size"] * u, "coord": [[c[0] * u + off[0], c[1] * u + off[1]] for c in s["coord"]]}
            else:
                (shell, holes) = polygon(s)
                data = {"buffer": None if s["buffer"] is None else s["buffer"] * u,
                        "coord_shell": [[c[0] * u + off[0], c[1] * u + off[1]] for c in shell],
                        "coord_holes": [[[c[0] * u + off[0], c[1] * u + off[1]] for c in q] for q in holes]}
            lst.append({"shape_layer": [LAYERS[i] for i in s["layers"]], "shape_operation": s["op"],
                        "shape_type": s["kind"], "shape_data": data})
        geo_shape[NAMES[k]] = lst
    tags = [NAMES[k] for k in range(len(case["domains"]))]
    rules = [{"domain_resolve": tags[i + 1:], "domain_keep": [tags[i]]} for i in range(len(tags) - 1)]
    geo = api.geometry_voxel([1, 1, 1], [1.0] * 3, [0.0] * 3, {}, rules=rules)
    geo["mesh_type"] = "shape"

    def num(v):
        return None if v is None else v * sc

    def vec(v):
        return None if v is None else [x * sc + off[a] for (a, x) in enumerate(v)]
    geo["data_voxelize"] = {
        "param": {"dx": case["dx"] * sc, "dy": case["dy"] * sc, "dz": case["dz"] * sc, "cz": num(case["cz"]),
                  "simplify": num(case["simplify"]), "construct": num(case["construct"]),
                  "xy_min": vec(case["min"]), "xy_max": vec(case["max"])},
        "layer_stack": [{"n_layer": n, "tag_layer": LAYERS[i]} for i, n in enumerate(case["stack"])],
        "geometry_shape": geo_shape,
    }
    return geo


def check_valid(case, ctx):
    import shapely
    import pypeec
    sc = case["scale"]
    eps = 1e-6 + 2 * (case["construct"] or 0.0) + (case["simplify"] or 0.0)
    # bounding box of what remains of the shapes
    box = []
    sliver = False
    for shapes in case["domains"]:
        for lay in range(len(case["stack"])):
            add = [shapely_obj(s, sc) for s in shapes if lay in s["layers"] and s["op"] == "add"]
            sub = [shapely_obj(s, sc) for s in shapes if lay in s["layers"] and s["op"] == "sub"]
            obj = shapely.difference(shapely.unary_union(add), shapely.unary_union(sub))
            # slivers decide on the bounding box by rounding (also through the construction grid)
            if case["construct"]:
                grid = case["construct"] * sc
                snap = shapely.difference(shapely.unary_union(add, grid_size=grid), shapely.unary_union(sub, grid_size=grid), grid_size=grid)
                sliver |= snap.is_empty != obj.is_empty
                sliver |= not obj.is_empty and not snap.is_empty and np.max(np.abs(np.array(snap.bounds) - np.array(obj.bounds))) > eps * sc
            if not obj.is_empty:
                core = [q.buffer(-20 * eps * sc).buffer(21 * eps * sc) for q in getattr(obj, "geoms", [obj])]
                whole = shapely.unary_union(core)
                sliver |= any(q.is_empty for q in core) or not whole.buffer(60 * eps * sc).contains(obj)
                box.append((obj.bounds, None, lay, obj.area / sc ** 2))
    geo = build(case)
    if sliver:
        ctx.trivial("sliver")
        return
    if not box:
        ctx.trivial("no shape left")
        return
    lo = [min(b[0][0] for b in box) / sc, min(b[0][1] for b in box) / sc]
    hi = [max(b[0][2] for b in box) / sc, max(b[0][3] for b in box) / sc]
    r_max = max(member(s, np.zeros((1, 2)), sc)[2] for shapes in case["domains"] for s in shapes)
    tol = eps + 0.002 * r_max
    simple = not any(s["op"] == "sub" or s.get("holes", 0) for s in sum(case["domains"], []))
    (lo_t, hi_t) = (0.0, 0.0)
    if case["min"] is not None:
        lo = case["min"]
    else:
        lo_t = tol
    if case["max"] is not None:
        hi = case["max"]
    else:
        hi_t = tol
    d_req = [case["dx"], case["dy"], case["dz"]]
    ratio = [(hi[a] - lo[a]) / d_req[a] for a in range(2)]
    slack = [(lo_t + hi_t) / d_req[a] + 1e-9 for a in range(2)]
    if min(ratio) < 0.5 + max(slack):
        # no voxel fits (or nearly so)
        if max(r + s for r, s in zip(ratio, slack)) < 0.5 or min(r + s for r, s in zip(ratio, slack)) < -0.5:
            ctx.label("no voxel fits")
            api.refused("bounds without any voxel", pypeec.run_mesher_data, geo)
        else:
            ctx.trivial("borderline")
        return
    data = api.mesh(geo)["data_geom"]
    (n, d, c) = ([int(v) for v in data["n"]], np.array(data["d"], dtype=float) / sc, np.array(data["c"], dtype=float) / sc)
    off = np.array(case.get("off", [0.0, 0.0]) + [0.0])
    c = c - off
    ctx.label("far" if off.any() else "near", "bounds" if case["min"] or case["max"] else "auto", "n_dom=%d" % len(case["domains"]))
    for s in sum(case["domains"], []):
        ctx.label(s["kind"] + "-" + s["op"])
    # grid
    nz = sum(case["stack"])
    api.expect(n[2] == nz, "number of layers %d instead of %d" % (n[2], nz))
    for a in range(2):
        (n_lo, n_hi) = (np.floor(ratio[a] - slack[a] + 0.5 - 1e-9), np.ceil(ratio[a] + slack[a] - 0.5 + 1e-9))
        api.expect(min(n_lo, n_hi) <= n[a] <= max(n_lo, n_hi), "%d voxels along axis %d for %g voxel lengths" % (n[a], a, ratio[a]))
        api.expect(abs(n[a] * d[a] - (hi[a] - lo[a])) <= lo_t + hi_t + 1e-9, "the grid covers %g instead of %g" % (n[a] * d[a], hi[a] - lo[a]))
        api.expect(abs(c[a] - 0.5 * (hi[a] + lo[a])) <= lo_t + hi_t + 1e-9, "centre %g instead of %g" % (c[a], 0.5 * (hi[a] + lo[a])))
    cz = case["cz"] or 0.0
    api.expect(abs(d[2] - case["dz"]) < 1e-9, "layer thickness %g instead of %g" % (d[2], case["dz"]))
    api.expect(abs(c[2] - cz) < 1e-9, "centre height %g instead of %g" % (c[2], cz))
    # voxel centres
    (nx, ny) = n[:2]
    gx = c[0] + (np.arange(nx) + 0.5 - nx / 2) * d[0]
    gy = c[1] + (np.arange(ny) + 0.5 - ny / 2) * d[1]
    pts = np.array([[x, y] for y in gy for x in gx])
    api.expect(list(data["domain_def"]) == [NAMES[k] for k in range(len(case["domains"]))], "domains %s" % list(data["domain_def"]))
    got = {tag: np.isin(np.arange(nx * ny * nz), idx) for tag, idx in data["domain_def"].items()}
    z = 0
    for lay, n_lay in enumerate(case["stack"]):
        sure = np.ones(len(pts), dtype=bool)
        taken = np.zeros(len(pts), dtype=bool)
        want = {}
        for k, shapes in enumerate(case["domains"]):
            add = np.zeros(len(pts), dtype=bool)
            sub = np.zeros(len(pts), dtype=bool)
            for s in shapes:
                if lay not in s["layers"]:
                    continue
                (ins, dist, r) = member(s, pts, sc)
                sure &= dist > eps + 0.002 * r
                if s["op"] == "add":
                    add |= ins
                else:
                    sub |= ins
            want[NAMES[k]] = add & ~sub & ~taken
            taken |= add & ~sub
        for k in range(n_lay):
            for tag in want:
                g = got[tag][z * nx * ny:(z + 1) * nx * ny]
                bad = np.flatnonzero((g != want[tag]) & sure)
                api.expect(len(bad) == 0, "domain %s, layer %d: voxel at %s is %s the domain"
                           % (tag, z, pts[bad[0]] if len(bad) else None, "in" if len(bad) and g[bad[0]] else "missing in"))
            z += 1
    # reference mesh: extends over the shapes (the triangulation of VTK can fail for complicated outlines)
    p = np.asarray(data["reference"]["points"], dtype=float) / sc - off
    z0 = cz + (np.concatenate(([0], np.cumsum(case["stack"]))) - nz / 2) * case["dz"]
    span = [
        (min(b[0][0] for b in box) / sc, max(b[0][2] for b in box) / sc), (min(b[0][1] for b in box) / sc, max(b[0][3] for b in box) / sc),
        (min(z0[b[2]] for b in box), max(z0[b[2] + 1] for b in box)),
    ]
    # the filters of VTK work in single precision
    tol += 1e-5 + 5e-7 * float(np.max(np.abs(off)))
    for a in range(3 if simple else 0):
        api.expect(abs(p[:, a].min() - span[a][0]) < tol and abs(p[:, a].max() - span[a][1]) < tol,
                   "reference mesh spans %g..%g instead of %g..%g along axis %d" % (p[:, a].min(), p[:, a].max(), span[a][0], span[a][1], a))
    # floors and ceilings (the triangulation of VTK is only reliable for simple outlines)
    if not off.any() and all(len(q) == 1 and q[0]["kind"] == "polygon" and not q[0]["buffer"] for q in case["domains"]):
        ctx.label("straight")
        area = flat_area(p, np.asarray(data["reference"]["faces"]))
        want = 2 * sum(b[3] for b in box)
        api.expect(abs(area - want) < 1e-3 * want + 100 * eps, "the floors and ceilings of the reference mesh cover %g instead of %g" % (area, want))


def flat_area(pts, faces):
    """Area of the horizontal faces."""
    area = 0.0
    i = 0
    while i < len(faces):
        v = pts[faces[i + 1:i + 1 + faces[i]]]
        i += faces[i] + 1
        if np.ptp(v[:, 2]) < 1e-9:
            area += np.linalg.norm(sum(np.cross(v[j] - v[0], v[j + 1] - v[0]) for j in range(1, len(v) - 1))) / 2
    return area


@st.composite
def broken(draw, tier):
    case = draw(cases("quick"))
    case["bad"] = draw(st.sampled_from(["tag", "bow", "flat_x", "flat_y", "swap", "dz", "dx_neg", "operation", "type"]))
    return case


def check_broken(case, ctx):
    import pypeec
    bad = case["bad"]
    geo = build(case)
    data = geo["data_voxelize"]
    par = data["param"]
    ctx.label(bad)
    if bad == "tag":
        data["layer_stack"] = data["layer_stack"] + [dict(data["layer_stack"][0])]
    elif bad == "bow":
        data["geometry_shape"]["cond"].append({
            "shape_layer": ["bot"], "shape_operation": "add", "shape_type": "polygon",
            "shape_data": {"buffer": None, "coord_shell": [[0.0, 0.0], [1.0, 1.0], [1.0, 0.0], [0.0, 1.0]], "coord_holes": []}})
    elif bad == "flat_x":
        (par["xy_min"], par["xy_max"]) = ([0.0, 0.0], [0.2 * par["dx"], 10 * par["dy"]])
    elif bad == "flat_y":
        (par["xy_min"], par["xy_max"]) = ([0.0, 0.0], [10 * par["dx"], 0.2 * par["dy"]])
    elif bad == "swap":
        (par["xy_min"], par["xy_max"]) = ([10 * par["dx"], 10 * par["dy"]], [0.0, 0.0])
    elif bad == "dz":
        par["dz"] = 0.0
    elif bad == "dx_neg":
        par["dx"] = -par["dx"]
    elif bad == "operation":
        data["geometry_shape"]["cond"][0]["shape_operation"] = "keep"
    elif bad == "type":
        data["geometry_shape"]["cond"][0]["shape_type"] = "disc"
    api.refused("shapes with a defect (%s)" % bad, pypeec.run_mesher_data, geo)


PROP = Prop("C03", [
    Part("valid", cases, check_valid, quick=1600, thorough=24000),
    Part("large", large, check_valid, quick=24, thorough=1500),
    Part("broken", broken, check_broken, quick=240, thorough=3000),
], rule="random layer stacks with added and subtracted pads, traces and polygons (holes, buffers), given and automatic bounds, "
        "decided with an analytic point membership; trivial when nothing or only slivers remain of the shapes",
    assumptions=["points closer to an outline than the construction tolerance and the rounding of the arcs are not compared",
                 "the automatic bounding box is compared with the one of the same outlines in Shapely"])
