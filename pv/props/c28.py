"""C28: voxel index conversion."""

import copy

import numpy as np
from hypothesis import strategies as st

from pv import api
from pv.engine import Part, Prop

BIG = [1, 2, 3, 7, 16, 100, 1000, 4097, 100000, 1000000]


@st.composite
def cases(draw, tier):
    if draw(st.integers(0, 3)) == 0:
        n = [draw(st.sampled_from(BIG)) for _ in range(3)]
    else:
        n = [draw(st.integers(1, 6)) for _ in range(3)]
    pts = []
    for _ in range(draw(st.integers(0, 6))):
        pts.append([draw(st.one_of(st.integers(0, k - 1), st.sampled_from([0, k - 1]))) for k in n])
    return {"n": n, "pts": pts, "form": draw(st.sampled_from(["list", "array", "int32", "tuple"])), "axis": draw(st.integers(0, 2)),
            "side": draw(st.sampled_from(["low", "high", "far", "very low"])), "pos": draw(st.integers(0, 6)),
            "bulk": draw(st.sampled_from([0] * 20 + [50, 300, 2000])), "seed": draw(st.integers(0, 1000))}


def cast(data, form):
    if form == "array":
        return np.array(data, dtype=np.int64)
    if form == "int32" and max([abs(v) for r in data for v in (r if isinstance(r, list) else [r])] + [0]) < 2 ** 31:
        return np.array(data, dtype=np.int32)
    if form == "tuple":
        return tuple(tuple(r) if isinstance(r, list) else r for r in data)
    return data


def check(case, ctx):
    from pypeec.utils import voxel
    (n, form) = (case["n"], case["form"])
    (nx, ny, nz) = n
    nv = nx * ny * nz
    pts = case["pts"]
    if case.get("bulk"):
        # thousands of rows, with repetitions
        rng = np.random.default_rng(case["seed"])
        pts = pts + [[int(rng.integers(0, k)) for k in n] for _ in range(case["bulk"])]
    ctx.label(form, "large" if nv > 216 else "small", case["side"])
    if nv <= 216:
        # the whole grid: bijection in both directions
        full = [[x, y, z] for z in range(nz) for y in range(ny) for x in range(nx)]
        lin = api.must("get_idx_linear", voxel.get_idx_linear, n, full)
        api.expect([int(v) for v in lin] == list(range(nv)), "linear indices of the grid %s: %s" % (n, list(lin)))
        order = np.random.default_rng(case["seed"]).permutation(nv)
        ten = api.must("get_idx_tensor", voxel.get_idx_tensor, n, order)
        api.expect([[int(v) for v in r] for r in ten] == [full[i] for i in order], "tensor indices of the grid %s" % n)
    if not pts:
        ctx.trivial("no index")
        if nv > 216:
            return
        pts = [[nx - 1, ny - 1, nz - 1]]
    arg = cast(pts, form)
    keep = copy.deepcopy(arg)
    lin = api.must("get_idx_linear", voxel.get_idx_linear, tuple(n) if form == "tuple" else n, arg)
    api.same("argument of get_idx_linear", arg, keep)
    exp = [x + nx * y + nx * ny * z for (x, y, z) in pts]
    api.expect([int(v) for v in lin] == exp, "linear indices %s instead of %s" % (list(lin), exp))
    arg = cast(exp, form)
    keep = copy.deepcopy(arg)
    ten = api.must("get_idx_tensor", voxel.get_idx_tensor, n, arg)
    api.same("argument of get_idx_tensor", arg, keep)
    api.expect([[int(v) for v in r] for r in ten] == pts, "tensor indices %s instead of %s" % (ten, pts))
    # one index outside of the grid
    a = case["axis"]
    bad = [list(p) for p in pts]
    k = case["pos"] % (len(bad) + 1)
    p = list(pts[0])
    p[a] = {"low": -1, "very low": -n[a], "high": n[a], "far": n[a] + 5}[case["side"]]
    bad.insert(k, p)
    api.refused("tensor index %s on the grid %s" % (p, n), voxel.get_idx_linear, n, cast(bad, form))
    val = {"low": -1, "very low": -nv, "high": nv, "far": nv + nx}[case["side"]]
    bad = list(exp)
    bad.insert(k, val)
    api.refused("linear index %d on the grid %s" % (val, n), voxel.get_idx_tensor, n, cast(bad, form))


PROP = Prop("C28", [
    Part("index", cases, check, quick=12000, thorough=250000),
], rule="random grids (all the voxels of small grids, random voxels of grids with up to 1e18 voxels), one index outside at a random place; "
        "trivial without index", batch=300)
