"""C11: direct-current solution against the resistor network."""

import numpy as np
import scipy.ndimage as ndimage
import scipy.sparse as sps
import scipy.sparse.linalg as spl
from hypothesis import strategies as st

from pv import api, gen
from pv.engine import Part, Prop


def cases(tier):
    return gen.problem_cases(kinds=("electric",), freqs=("dc",), max_mat=3, max_src=4)


def check(case, ctx):
    prob = gen.Problem(case)
    if not prob.well_posed:
        ctx.trivial("no conductor")
        return
    gen.labels(prob, ctx)
    ref = prob.reference()
    if len(ref.fc) == 0:
        ctx.trivial("no face")
    if abs(ref.i_floor) == 0:
        ctx.trivial("no excitation")
    (_, sol) = prob.run(tol=gen.any_tolerance(case))
    api.expect(sol["status"] is True, "the network is well-posed but the run reports a failure")
    gen.check_against(prob, sol, ref, 1e-6)


def chains(tier):
    """Long resistor chains and meanders (deep networks)."""
    return gen.path_cases(tier, freqs=("dc",))


def blocks(tier):
    return gen.block_cases(tier, freqs=("dc",))


# -- large networks ---------------------------------------------------------------------------
@st.composite
def larges(draw, tier):
    """Thousands of voxels (sparse reference): the layout comes from a seed."""
    top = 4000 if tier == "quick" else 30000
    n = [draw(st.integers(1, 40)) for _ in range(3)]
    while n[0] * n[1] * n[2] > top:
        n[n.index(max(n))] = max(n) * 2 // 3
    return {
        "n": n, "d": [draw(st.sampled_from([1.0, 0.5, 2.0, 0.1])) for _ in range(3)], "scale": draw(st.sampled_from([1.0, 1e-3, 1e-5])),
        "seed": draw(st.integers(0, 10**6)), "hole": draw(st.sampled_from([0.0, 0.05, 0.2, 0.3])), "n_src": draw(st.integers(2, 5)),
        "size": draw(st.integers(1, 30)), "n_mat": draw(st.integers(1, 4)), "order": draw(st.integers(0, 30)),
    }


def check_large(case, ctx):
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    full = rng.random(n) >= case["hole"]
    (lab, cnt) = ndimage.label(full)
    if cnt == 0:
        ctx.trivial("empty")
        return
    sizes = np.bincount(lab.ravel())[1:]
    keep = lab == 1 + int(np.argmax(sizes))
    vox = np.flatnonzero(keep.flatten(order="F"))
    if len(vox) < 4:
        ctx.trivial("too small")
        return
    ctx.label("n_vc=%d00" % (len(vox) // 100) if len(vox) < 1000 else "n_vc=%dk" % (len(vox) // 1000))
    n_mat = case["n_mat"]
    mat = rng.integers(0, n_mat, len(vox))
    n_src = min(case["n_src"], len(vox))
    src = np.full(len(vox), -1)
    for (k, part) in enumerate(np.array_split(rng.permutation(len(vox))[:max(n_src, min(len(vox) // 2, case["size"] * n_src))], n_src)):
        src[part] = k
    d = np.array(case["d"]) * case["scale"]
    area = np.array([d[1] * d[2], d[0] * d[2], d[0] * d[1]])
    dom, mdef, mval, sdef, sval = {}, {}, {}, {}, {}
    for m in range(n_mat):
        for k in range(-1, n_src):
            dom["d_%d_%d" % (m, k)] = [int(v) for v in vox[rng.permutation(np.flatnonzero((mat == m) & (src == k)))]]
    pos = {int(v): i for i, v in enumerate(vox)}
    rho = np.zeros((len(vox), 3))
    for m in range(n_mat):
        lst = ["d_%d_%d" % (m, k) for k in rng.permutation(np.arange(-1, n_src))]
        idx = np.array([pos[v] for t in lst for v in dom[t]], dtype=int)
        var = ["lumped", "distributed"][rng.integers(2)]
        ori = ["isotropic", "anisotropic"][rng.integers(2)]
        val = 2.0 ** rng.uniform(-2, 2, (len(idx), 3)) * case["scale"]
        if var == "lumped":
            val[:] = 2.0 ** rng.uniform(-2, 2, 3) * case["scale"]
        if ori == "isotropic":
            val = np.repeat(val[:, :1], 3, axis=1)
        rho[idx] = val
        one = val[0].tolist() if len(val) else [1.0, 1.0, 1.0]
        data = (one if ori == "anisotropic" else one[0]) if var == "lumped" else (val.tolist() if ori == "anisotropic" else val[:, 0].tolist())
        zero = (np.zeros(np.shape(data)).tolist())
        mdef["m%d" % m] = {"domain_list": lst, "material_type": "electric", "orientation_type": ori, "var_type": var}
        mval["m%d" % m] = {"rho_re": data, "rho_im": zero}
    # network
    coo = np.stack(np.unravel_index(vox, n, order="F"), axis=1)
    (row, col, dat) = ([], [], [])
    face = []
    for a in range(3):
        step = (1, n[0], n[0] * n[1])[a]
        low = np.array([i for i in range(len(vox)) if coo[i, a] + 1 < n[a] and int(vox[i]) + step in pos], dtype=int)
        high = np.array([pos[int(vox[i]) + step] for i in low], dtype=int)
        g = area[a] / d[a] / (0.5 * (rho[low, a] + rho[high, a]))
        face.append((low, high, g))
        for (r, c, v) in ((low, low, g), (high, high, g), (low, high, -g), (high, low, -g)):
            row.append(r), col.append(c), dat.append(v)
    inj = np.zeros(len(vox))
    load = np.zeros(len(vox))
    r0 = 1.0
    for k in range(n_src):
        kind = "voltage" if k == 0 else ["voltage", "current"][rng.integers(2)]
        lst = ["d_%d_%d" % (m, k) for m in rng.permutation(n_mat)]
        cnt = int(np.sum(src == k))
        val = float(rng.choice([1.0, -2.0, 0.0, 0.5]))
        el = float(rng.choice([0.5, 2.0])) * r0 if kind == "voltage" else float(rng.choice([0.0, 0.1]))
        sdef["s%d" % k] = {"domain_list": lst, "source_type": kind, "var_type": "lumped"}
        (x, y) = ("V", "Z") if kind == "voltage" else ("I", "Y")
        sval["s%d" % k] = {x + "_re": val, x + "_im": 0.0, y + "_re": el, y + "_im": 0.0}
        if kind == "voltage":
            inj[src == k] += val / (el * cnt)
            load[src == k] += 1 / (el * cnt)
        else:
            inj[src == k] += val / cnt
            load[src == k] += el / cnt
    row.append(np.arange(len(vox))), col.append(np.arange(len(vox))), dat.append(load)
    G = sps.csc_matrix((np.concatenate(dat), (np.concatenate(row), np.concatenate(col))), shape=(len(vox), len(vox)))
    V = spl.spsolve(G, inj)
    J = np.zeros((len(vox), 3))
    loss = np.zeros(len(vox))
    i_max = 0.0
    for (a, (low, high, g)) in enumerate(face):
        cur = g * (V[low] - V[high])
        i_max = max(i_max, np.max(np.abs(cur), initial=0.0))
        for q in (low, high):
            np.add.at(J[:, a], q, 0.5 * cur / area[a])
            np.add.at(loss, q, 0.5 * cur ** 2 / g)
    prob = {"material_def": mdef, "source_def": sdef, "sweep_solver": {"sim": {"init": None, "param": {"freq": 0.0, "material_val": mval, "source_val": sval}}}}
    voxel = api.mesh(api.geometry_voxel(n, d.tolist(), [0.0, 0.0, 0.0], dom))
    tol = api.tolerance(fft_options__matrix_split=bool(case["order"] % 2))
    # the inductances have no influence: the simplification keeps the run fast
    tol["integral_simplify"] = 2.0
    sol = api.solve(voxel, prob, tol)
    api.expect(sol["status"] is True, "the network is well-posed but the run reports a failure")
    S = gen.Solution(sol)
    api.expect(np.array_equal(np.sort(S.vc), np.sort(vox)), "electric voxels differ")
    v_max = max(np.max(np.abs(V)), 1e-3)
    j_max = max(i_max, 1e-3) / min(area)
    api.close("V_c", S.var("V_c"), V, 1e-6, v_max)
    api.close("J_c", S.var("J_c"), J, 1e-6, j_max)
    api.close("losses", S.integral("P_electric"), np.sum(loss), 1e-6, np.sum(loss) + 1e-9)
    api.close("P_c", S.var("P_c"), loss / np.prod(d), 1e-6, (np.max(loss) + 1e-9) / np.prod(d))
    tot = 0.0
    for k in range(n_src):
        q = src == k
        cur = np.sum(inj[q] - load[q] * V[q])
        got = sol["data_sweep"]["sim"]["source"]["s%d" % k]
        api.close("V source %d" % k, got["V"], np.mean(V[q]), 1e-6, v_max)
        api.close("I source %d" % k, got["I"], cur, 1e-6, max(i_max, abs(cur), 1e-3))
        tot += cur
    for m in range(n_mat):
        api.close("losses of material %d" % m, sol["data_sweep"]["sim"]["material"]["m%d" % m]["P_electric"], np.sum(loss[mat == m]), 1e-6, np.sum(loss) + 1e-9)


PROP = Prop("C11", [
    Part("network", cases, check, quick=1200, thorough=40000),
    Part("path", chains, check, quick=240, thorough=6000),
    Part("block", blocks, check, quick=120, thorough=4000),
    Part("large", larges, check_large, quick=160, thorough=6000),
], rule="random voxel sets (small ones, wires, blocks of hundreds and networks of thousands of voxels) with several complex, anisotropic and per-voxel materials and loaded sources, solved by a dense "
        "network model (large networks: sparse nodal analysis); trivial without a conductor, a face or an excitation")
