"""C04: STL solids."""

import itertools
import os

import numpy as np
from hypothesis import strategies as st

from pv import api, files
from pv.engine import Part, Prop

NAMES = ["core", "a", "wire"]

# convex solids: vertices and outward triangles are derived with the convex hull
SOLIDS = {
    "box": np.array(list(itertools.product([-1, 1], repeat=3)), dtype=float),
    "octa": np.array([[1.5, 0, 0], [-1.5, 0, 0], [0, 1.5, 0], [0, -1.5, 0], [0, 0, 1.5], [0, 0, -1.5]]),
    "tetra": np.array([[1.5, 1.5, 1.5], [-1.5, -1.5, 1.5], [-1.5, 1.5, -1.5], [1.5, -1.5, -1.5]]),
    "ball": np.array([[np.sqrt(1 - z * z) * np.cos(2.399963 * i), np.sqrt(1 - z * z) * np.sin(2.399963 * i), z]
                      for i, z in enumerate(np.linspace(-1, 1, 300))]),
    "prism": np.array([[np.cos(a), np.sin(a), z] for z in (-1, 1) for a in np.arange(5) * 2 * np.pi / 5]),
}


@st.composite
def cases(draw, tier):
    n_dom = draw(st.integers(1, 3))
    domains = []
    for _ in range(n_dom):
        parts = []
        for _ in range(draw(st.integers(1, 2))):
            parts.append({
                "bodies": [{
                    "kind": draw(st.sampled_from(["box", "octa", "prism", "tetra"])),
                    "half": [draw(st.integers(3, 12)) for _ in range(3)],
                    "pos": [draw(st.integers(-8, 8)) for _ in range(3)],
                    "rot": draw(st.integers(0, 6)),
                } for _ in range(draw(st.sampled_from([1, 1, 1, 2])))],
                "scale": draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])),
                "offset": [draw(st.sampled_from([0.0, 0.0, 1.0, -0.7])) for _ in range(3)],
                "ascii": draw(st.booleans()), "twin": draw(st.sampled_from(["", "", "", "same", "axes", "mirror", "corner", "corner"])),
            })
        domains.append(parts)
    ordered = draw(st.booleans())
    for b in [b for parts in domains for p in parts for b in p["bodies"]]:
        b["exact"] = ordered
    # the same file again (other scale or offset), or the same solid mirrored or with exchanged axes
    first = domains[0][0]
    if any(p["twin"] == "corner" for parts in domains for p in parts):
        first["bodies"] = [dict(b, rot=0) for b in first["bodies"]]
    for p in [p for parts in domains for p in parts][1:]:
        if p["twin"] == "same":
            p["bodies"] = first["bodies"]
        elif p["twin"] == "corner":
            # the corner of the bounding box stays
            k = draw(st.integers(1, 2))
            turned = [(b, b["half"][k:] + b["half"][:k]) for b in first["bodies"]]
            p["bodies"] = [dict(b, half=h, pos=[c - (x - y) * (0.5 if ordered else 0.1237 / 0.2313) for c, x, y in zip(b["pos"], b["half"], h)], rot=0) for b, h in turned]
            (p["scale"], p["offset"]) = (first["scale"], first["offset"])
        elif p["twin"] in ("axes", "mirror"):
            one = p["twin"] == "axes"
            k = draw(st.integers(1, 2))
            p["bodies"] = [dict(
                b, half=b["half"][k:] + b["half"][:k] if one else b["half"],
                pos=b["pos"][k:] + b["pos"][:k] if one else [-v for v in b["pos"]], rot=0) for b in first["bodies"]]
            if draw(st.booleans()):
                (p["scale"], p["offset"]) = (first["scale"], first["offset"])
    return {
        "unit": draw(st.sampled_from([1.0, 1e-3])), "domains": domains, "ordered": ordered,
        "d": [draw(st.sampled_from([1.0, 0.7, 0.5])) for _ in range(3)],
        "min": draw(st.sampled_from([None, None, None, [-3.03, -2.07, -2.51], [0.0, 0.0, 0.0], [0.0, -2.07, 0.0]])),
        "max": draw(st.sampled_from([None, None, None, [2.97, 3.11, 1.53], [0.0, 0.0, 0.0]])),
    }


@st.composite
def large(draw, tier):
    """Fine grids and bodies with many triangles."""
    case = draw(cases(tier))
    case["points"] = draw(st.sampled_from([900e3, 60e3, 150e3, 60e3, 1500e3]))
    huge = case["points"] > 500e3
    if huge:
        case["domains"] = [parts[:1] for parts in case["domains"][:1 + draw(st.integers(0, 1))]]
    elif draw(st.booleans()):
        for b in [b for parts in case["domains"] for p in parts for b in p["bodies"]]:
            if draw(st.booleans()):
                b["kind"] = "ball"
    case["min"] = case["max"] = None
    # number of points for the bounds of the bodies
    allv = np.concatenate([w for (_, _, w, _, _) in _solids(case)])
    size = allv.max(axis=0) - allv.min(axis=0)
    case["d"] = [v * draw(st.sampled_from([1.0, 1.0, 0.6, 2.5])) for v in case["d"]]
    factor = (np.prod(size / case["d"]) / case["points"]) ** (1 / 3)
    case["d"] = [float(v * factor) for v in case["d"]]
    return case


def _body(b):
    """Vertices, triangles and half spaces of one body (STL units)."""
    from scipy.spatial import ConvexHull
    # lengths without rounding errors or irregular ones
    (h, g) = (0.125, 0.25) if b.get("exact") else (0.1237, 0.2313)
    v = SOLIDS[b["kind"]] * (np.array(b["half"]) * h)
    if b["rot"]:
        rng = np.random.default_rng(b["rot"])
        (q, _) = np.linalg.qr(rng.normal(size=(3, 3)))
        if np.linalg.det(q) < 0:
            q = -q
        v = v @ q.T
    v = v + np.array(b["pos"]) * g
    hull = ConvexHull(v)
    tri = []
    for s, eq in zip(hull.simplices, hull.equations):
        (p, q, r) = (v[i] for i in s)
        tri.append(list(s) if np.dot(np.cross(q - p, r - p), eq[:3]) > 0 else [s[0], s[2], s[1]])
    return v, tri, hull.equations


def _separate(bodies):
    """Keep the bodies of one file disjoint (intersecting surfaces are no valid solid)."""
    out = []
    for b in bodies:
        (v, _, _) = _body(b)
        if all(np.any(v.min(axis=0) > w.max(axis=0) + 0.05) or np.any(v.max(axis=0) < w.min(axis=0) - 0.05) for (_, w) in out):
            out.append((b, v))
    return [b for (b, _) in out]


def write_stl(path, bodies, ascii_mode, ordered=False):
    import struct
    tris = []
    for b in bodies:
        (v, tri, _) = _body(b)
        tris += [[v[i] for i in t] for t in tri]
    if ordered:
        # every triangle begins with its lowest corner, lowest triangle first
        for q, t in enumerate(tris):
            k = min(range(3), key=lambda i: tuple(np.round(t[i], 6)))
            tris[q] = t[k:] + t[:k]
        tris.sort(key=lambda t: [tuple(np.round(v, 6)) for v in t])
    if ascii_mode:
        with open(path, "w") as fid:
            fid.write("solid x\n")
            for t in tris:
                fid.write("facet normal 0 0 0\nouter loop\n")
                for p in t:
                    fid.write("vertex %.9g %.9g %.9g\n" % tuple(p))
                fid.write("endloop\nendfacet\n")
            fid.write("endsolid x\n")
    else:
        with open(path, "wb") as fid:
            fid.write(b"\0" * 80 + struct.pack("<I", len(tris)))
            for t in tris:
                fid.write(struct.pack("<12fH", 0.0, 0.0, 0.0, *np.concatenate(t), 0))


def build(case, folder):
    u = case["unit"]
    domain = {}
    for k, parts in enumerate(case["domains"]):
        lst = []
        for q, p in enumerate(parts):
            path = os.path.join(folder, "d%d_%d.stl" % (k, q))
            if p.get("twin") == "same" and (k or q):
                path = os.path.join(folder, "d0_0.stl")
            else:
                write_stl(path, _separate(p["bodies"]), p["ascii"], case.get("ordered", False))
            lst.append({"scale": p["scale"] * u, "offset": [v * u for v in p["offset"]], "filename": path})
        domain[NAMES[k]] = lst
    tags = list(domain)
    rules = [{"domain_resolve": tags[i + 1:], "domain_keep": [tags[i]]} for i in range(len(tags) - 1)]
    geo = api.geometry_voxel([1, 1, 1], [1.0] * 3, [0.0] * 3, {}, rules=rules)
    geo["mesh_type"] = "stl"

    def vec(v):
        return None if v is None else [x * u for x in v]
    geo["data_voxelize"] = {
        "param": {"d": [v * u for v in case["d"]], "xyz_min": vec(case["min"]), "xyz_max": vec(case["max"])},
        "domain_stl": domain,
    }
    return geo


def _solids(case):
    """Domain, number of triangles, vertices, and half spaces after scaling and translation."""
    out = []
    for k, parts in enumerate(case["domains"]):
        for p in parts:
            for b in _separate(p["bodies"]):
                (v, tri, eq) = _body(b)
                w = v * p["scale"] + np.array(p["offset"])
                # distances scale with the scale
                off = eq[:, 3] * p["scale"] - eq[:, :3] @ np.array(p["offset"])
                out.append((k, len(tri), w, eq[:, :3], off))
    return out


def check_valid(case, ctx):
    import pypeec
    u = case["unit"]
    with files.scratch() as folder:
        geo = build(case, folder)
        (ok, res) = api.attempt(pypeec.run_mesher_data, geo)
    parts = _solids(case)
    verts = [w for (_, _, w, _, _) in parts]
    n_tri = sum(t for (_, t, _, _, _) in parts)
    allv = np.concatenate(verts)
    lo = np.array(case["min"] if case["min"] is not None else allv.min(axis=0))
    hi = np.array(case["max"] if case["max"] is not None else allv.max(axis=0))
    ratio = (hi - lo) / np.array(case["d"])
    if np.any(ratio < 0.5 + 1e-4):
        if np.any(ratio < 0.5 - 1e-4):
            ctx.label("no voxel fits")
            api.expect(not ok, "bounds without any voxel are accepted")
        else:
            ctx.trivial("borderline")
        return
    if not ok:
        raise res
    data = res["data_geom"]
    n = np.array(data["n"])
    d = np.array(data["d"], dtype=float) / u
    c = np.array(data["c"], dtype=float) / u
    ctx.label("bounds" if case["min"] or case["max"] else "auto", "n_dom=%d" % len(case["domains"]))
    tol = 1e-5
    for a in range(3):
        api.expect(abs(n[a] - ratio[a]) <= 0.5 + 1e-4, "%d voxels along axis %d for %g voxel lengths" % (n[a], a, ratio[a]))
        api.expect(abs(n[a] * d[a] - (hi[a] - lo[a])) <= tol, "the grid covers %g instead of %g" % (n[a] * d[a], hi[a] - lo[a]))
        api.expect(abs(c[a] - 0.5 * (hi[a] + lo[a])) <= tol, "centre %g instead of %g" % (c[a], 0.5 * (hi[a] + lo[a])))
    # corners
    g = [c[a] + (np.arange(n[a] + 1) - n[a] / 2) * d[a] for a in range(3)]
    shape = tuple(n + 1)
    ctx.label("points %s" % ("< 500" if np.prod(n + 1) < 500 else "< 20000" if np.prod(n + 1) < 20000 else
                             "< 640000" if np.prod(n + 1) < 640000 else ">= 640000"))

    def any_corner(flag):
        f = flag.reshape(shape)
        out = np.zeros(tuple(n), dtype=bool)
        for (i, j, k) in itertools.product([0, 1], repeat=3):
            out |= f[i:i + n[0], j:j + n[1], k:k + n[2]]
        return out.flatten(order="F")

    eps = 2e-4
    n_dom = len(case["domains"])
    maybe_all = np.zeros(int(np.prod(n)), dtype=bool)
    sure_all = np.ones(int(np.prod(n)), dtype=bool)
    taken = np.zeros(int(np.prod(n)), dtype=bool)
    api.expect(list(data["domain_def"]) == NAMES[:n_dom], "domains %s" % list(data["domain_def"]))
    n_vox = 0
    for k in range(n_dom):
        inside = np.zeros(shape, dtype=bool)
        unsure = np.zeros(shape, dtype=bool)
        for (q, _, w, nrm, off) in parts:
            if q != k:
                continue
            # points close to the bounding box of the body
            box = [slice(*np.searchsorted(g[a], [w[:, a].min() - 0.01, w[:, a].max() + 0.01])) for a in range(3)]
            (X, Y, Z) = np.meshgrid(*[g[a][box[a]] for a in range(3)], indexing="ij")
            dist = np.full(X.shape, -np.inf)
            for (m, o) in zip(nrm, off):
                np.maximum(dist, X * m[0] + Y * m[1] + Z * m[2] + o, out=dist)
            inside[tuple(box)] |= dist < -eps
            unsure[tuple(box)] |= np.abs(dist) <= eps
        vin = any_corner(inside)
        vmaybe = any_corner(unsure) & ~vin
        sure_all &= ~vmaybe
        want = vin & ~taken
        taken |= vin
        maybe_all |= vin | vmaybe
        got = np.isin(np.arange(len(vin)), data["domain_def"][NAMES[k]])
        n_vox += int(got.sum())
        api.expect(len(data["domain_def"][NAMES[k]]) == got.sum(), "repeated or invalid voxels in the domain %s" % NAMES[k])
        bad = np.flatnonzero((got != want) & sure_all)
        api.expect(len(bad) == 0, "domain %s: voxel %s is %s the domain"
                   % (NAMES[k], bad[:1], "in" if len(bad) and got[bad[0]] else "missing in"))
    if n_vox == 0:
        ctx.trivial("no voxel")
    # reference mesh: scaled and offset union
    ref = data["reference"]
    p = np.asarray(ref["points"], dtype=float) / u
    faces = np.asarray(ref["faces"])
    api.expect(np.max(np.abs(p.min(axis=0) - allv.min(axis=0))) < tol and np.max(np.abs(p.max(axis=0) - allv.max(axis=0))) < tol,
               "the reference mesh does not have the extension of the solids")
    api.expect(len(faces) == 4 * n_tri, "the reference mesh has %d values for %d triangles" % (len(faces), n_tri))
    from scipy.spatial import cKDTree
    tree = cKDTree(p)
    (dist, _) = tree.query(allv)
    api.expect(dist.max() < tol, "a vertex of the solids is missing in the reference mesh")
    # signed volume
    t = p[faces.reshape(-1, 4)[:, 1:]]
    vol = np.sum(np.einsum("ij,ij->i", t[:, 0], np.cross(t[:, 1], t[:, 2]))) / 6
    from scipy.spatial import ConvexHull
    want_vol = sum(ConvexHull(w).volume for w in verts)
    api.expect(abs(abs(vol) - want_vol) < 1e-3 * want_vol, "the reference mesh has the volume %g instead of %g" % (vol, want_vol))


@st.composite
def broken(draw, tier):
    case = draw(cases("quick"))
    case["bad"] = draw(st.sampled_from(["missing", "text", "empty", "open", "d_neg", "d_zero", "swap"]))
    return case


def check_broken(case, ctx):
    import pypeec
    bad = case["bad"]
    with files.scratch() as folder:
        geo = build(case, folder)
        par = geo["data_voxelize"]["param"]
        path = geo["data_voxelize"]["domain_stl"][NAMES[0]][0]["filename"]
        ctx.label(bad)
        if bad == "missing":
            os.remove(path)
        elif bad == "text":
            with open(path, "w") as fid:
                fid.write("hello")
        elif bad == "empty":
            with open(path, "w") as fid:
                fid.write("solid x\nendsolid x\n")
        elif bad == "open":
            # a surface with a missing triangle does not enclose anything
            with open(path, "w") as fid:
                fid.write("solid x\nfacet normal 0 0 1\nouter loop\nvertex -2 -2 0.1\nvertex 2 -2 0.1\nvertex 0 2 0.3\nendloop\nendfacet\n"
                          "facet normal 0 0 1\nouter loop\nvertex -2 -2 0.1\nvertex 2 -2 0.1\nvertex 0 0 2\nendloop\nendfacet\nendsolid x\n")
        elif bad == "d_neg":
            par["d"][1] = -par["d"][1]
        elif bad == "d_zero":
            par["d"][2] = 0.0
        elif bad == "swap":
            (par["xyz_min"], par["xyz_max"]) = ([3.0, 3.0, 3.0], [-3.0, -3.0, -3.0])
        api.refused("STL geometry with a defect (%s)" % bad, pypeec.run_mesher_data, geo)


PROP = Prop("C04", [
    Part("valid", cases, check_valid, quick=1200, thorough=16000),
    Part("large", large, check_valid, quick=24, thorough=1500),
    Part("broken", broken, check_broken, quick=160, thorough=2000),
], rule="random binary and ASCII STL files with (rotated) convex bodies, several files and bodies per domain, scales, offsets, given and "
        "automatic bounds; trivial when no voxel is filled or the number of voxels is decided by rounding",
    assumptions=["corners closer than 2e-4 voxel sizes to a surface are not compared (single-precision STL coordinates)"])
