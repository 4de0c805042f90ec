"""C30: impedance matrix."""

import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from pv import api, model
from pv.engine import Part, Prop


@st.composite
def cases(draw, tier):
    n = draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 6, 9, 12]))
    small = st.sampled_from([1.0, 0.0, -1.0, 2.0, 0.5, -0.25])
    z = [[[draw(small), draw(small)] for _ in range(i)] for i in range(n)]
    diag = [[draw(st.sampled_from([1.0, 2.0, 0.5, 10.0])), draw(st.sampled_from([1.0, 3.0, 0.2]))] for _ in range(n)]
    n_sol = draw(st.integers(1, n + 2))
    cur = [[[draw(small), draw(st.sampled_from([0.0, 0.0, 1.0, -0.5]))] for _ in range(n)] for _ in range(n_sol)]
    return {
        "n": n, "z": z, "diag": diag, "cur": cur, "freq": draw(st.sampled_from([0.0, 1.0, 50.0, 1e6])),
        "sym": draw(st.sampled_from([0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 5])), "two": draw(st.booleans()), "order": draw(st.integers(1, 1000)), "scale": draw(st.sampled_from([1.0, -2.0, 0.1])), "other": draw(st.sampled_from([2.0, 0.0, 1.1, 0.99, 1.002])),
        "weight": [draw(st.sampled_from([0, 0, 0, -2, -3, -5])) for _ in range(n)] if draw(st.integers(0, 2)) == 0 else [0] * n,
        "unit": draw(st.sampled_from([1.0, 1e-3, 1e-9, 1e6])), "bad": draw(st.sampled_from(["shape_i", "shape_v", "freq", "n", "unknown"])),
    }


def permutations(case):
    """Group of permutations, given as one or two lists."""
    n = case["n"]
    ident = list(range(n))
    swap = [1, 0] + ident[2:] if n > 1 else ident
    rot = ident[1:] + ident[:1]
    full = [list(p) for p in itertools.permutations(ident)] if n <= 4 else [rot, list(reversed(ident)), ident]
    cyc = [ident[k:] + ident[:k] for k in range(n)]
    return [[], [[ident, swap]], [cyc], [full], [[ident, swap], [ident, list(reversed(ident))]], [[ident]] * 4 + [[ident, swap], [ident, list(reversed(ident))]]][case["sym"]] if rot else []


def closure(n, sym):
    """All the products of the permutations."""
    out = [tuple(range(n))]
    gens = [tuple(p) for s in sym for p in s]
    k = 0
    while k < len(out):
        for g in gens:
            q = tuple(out[k][i] for i in g)
            if q not in out:
                out.append(q)
        k += 1
    return out


def source_data(case, I, V, freq):
    """Solution of the solver with these terminal data."""
    sweeps = {}
    for k in range(I.shape[1]):
        src = {}
        for w in range(case["n"]):
            off = 0.37 * (w + 1) * (1 - 0.5j) * case["unit"]
            src["src_%d" % w] = {"V": V[w, k] + off, "I": I[w, k]}
            src["sink_%d" % w] = {"V": off, "I": -I[w, k]}
        sweeps["sim_%d" % k] = {"freq": freq, "source": src}
    return {"data_init": {}, "data_sweep": sweeps}


def check(case, ctx):
    from pypeec.utils import matrix
    n = case["n"]
    Z = np.zeros((n, n), dtype=complex)
    for i in range(n):
        Z[i, i] = complex(*case["diag"][i])
        for j in range(i):
            Z[i, j] = Z[j, i] = complex(*case["z"][i][j])
    sym = permutations(case)
    group = closure(n, sym)
    # make the impedance invariant under the symmetries
    Z = sum(Z[np.ix_(p, p)] for p in group) / len(group) * case["unit"]
    I = np.array([[complex(*c) for c in col] for col in case["cur"]]).T
    # windings with much smaller currents than the others
    weight = 10.0 ** np.array(case.get("weight", [0] * n) if not sym else [0] * n)
    I = I * weight[:, None]
    V = Z @ I
    freq = case["freq"]
    sol = source_data(case, I, V, freq)
    names = list(sol["data_sweep"])
    terminals = [{"src": "src_%d" % w, "sink": "sink_%d" % w} for w in range(n)]
    keep = copy.deepcopy(sol)
    term = api.must("get_extract", matrix.get_extract, sol, names, terminals)
    api.same("solution", sol, keep)
    api.close("terminal currents", term["I_mat"], I, 1e-12, 1.0)
    api.close("terminal voltages", term["V_mat"], V, 1e-9, case["unit"])
    # expanded with the symmetries (successively)
    full = I
    for s in sym:
        full = np.hstack([full[list(p)] for p in s])
    keep = copy.deepcopy(term)
    ext = api.must("get_symmetry", matrix.get_symmetry, term, sym)
    api.same("terminal data", term, keep)
    sv = np.linalg.svd(full / weight[:, None], compute_uv=False)
    rank = int(np.sum(sv > 1e-9))
    ctx.label("n=%d" % n, "sym=%d" % case["sym"], "rank=%d" % rank, "dc" if freq == 0 else "ac")
    spread = float(np.max(weight) / np.min(weight))
    ctx.label("weighted" if spread > 1 else "equal")
    if np.any((sv > 1e-12) & (sv < 1e-6)) or (rank == n and spread > 1 and spread * np.max(sv) / np.min(sv) > 1e7):
        ctx.trivial("nearly dependent")
        return
    if rank < n:
        api.refused("dependent excitations", matrix.get_matrix, ext)
        ctx.label("refused")
    else:
        api.same("terminal data", term, keep)
        out = api.must("get_matrix", matrix.get_matrix, ext)
        verify(out, Z, freq, n)
        # order and scaling of the excitations, order of the windings
        perm = np.random.default_rng(case["order"]).permutation(len(names))
        term2 = {
            "n_solution": len(names), "n_winding": n, "freq": freq, "I_mat": term["I_mat"][:, perm] * case["scale"],
            "V_mat": term["V_mat"][:, perm] * case["scale"],
        }
        verify(api.must("get_matrix", matrix.get_matrix, matrix.get_symmetry(term2, sym)), Z, freq, n)
        wp = list(np.random.default_rng(case["order"] + 1).permutation(n))
        t3 = matrix.get_extract(sol, [names[k] for k in perm], [terminals[w] for w in wp])
        if not sym or np.linalg.matrix_rank(I) == n:
            verify(api.must("get_matrix", matrix.get_matrix, t3), Z[np.ix_(wp, wp)], freq, n)
    # inconsistent data
    bad = copy.deepcopy(term)
    if case["bad"] == "shape_i":
        bad["I_mat"] = bad["I_mat"][:, :-1]
    elif case["bad"] == "shape_v":
        bad["V_mat"] = np.vstack((bad["V_mat"], bad["V_mat"][:1]))
    elif case["bad"] == "n":
        bad["n_winding"] = n + 1
    elif case["bad"] == "freq":
        if len(names) > 1 and freq:
            sol["data_sweep"][names[-1]]["freq"] = freq * case.get("other", 2.0)
            api.refused("different frequencies", matrix.get_extract, sol, names, terminals)
        return
    else:
        api.refused("unknown sweep", matrix.get_extract, sol, names + ["no_sweep"], terminals)
        api.refused("unknown source", matrix.get_extract, sol, names, terminals + [{"src": "src_0", "sink": "no_source"}])
        return
    api.refused("inconsistent matrices (%s)" % case["bad"], matrix.get_matrix, bad)
    api.refused("inconsistent matrices (%s)" % case["bad"], matrix.get_symmetry, bad, sym)


def verify(out, Z, freq, n):
    unit = float(np.max(np.abs(Z)))
    api.expect(out["n_winding"] == n and out["freq"] == freq, "size or frequency")
    api.close("impedance", out["Z_mat"], Z, 1e-7, unit)
    api.close("resistance", out["R_mat"], Z.real, 1e-7, unit)
    kr = np.array([[Z[i, j].real / np.sqrt(Z[i, i].real * Z[j, j].real) for j in range(n)] for i in range(n)])
    floor = unit / min(abs(Z[i, i].real) for i in range(n))
    api.close("resistive coupling", out["k_R_mat"], kr, 1e-6, floor)
    if freq == 0:
        for key in ("L_mat", "Q_mat", "k_L_mat"):
            api.expect(np.all(np.isnan(out[key])), key + " is a number at zero frequency")
        return
    w = 2 * np.pi * freq
    api.close("inductance", out["L_mat"], Z.imag / w, 1e-7, unit / w)
    kl = np.array([[Z[i, j].imag / np.sqrt(Z[i, i].imag * Z[j, j].imag) for j in range(n)] for i in range(n)])
    floor = unit / min(abs(Z[i, i].imag) for i in range(n))
    api.close("magnetic coupling", out["k_L_mat"], kl, 1e-6, floor)
    for i in range(n):
        for j in range(n):
            if abs(Z[i, j].real) > 1e-3 * unit:
                api.close("quality factor", out["Q_mat"][i, j], Z[i, j].imag / Z[i, j].real, 1e-5, 1.0)


@st.composite
def solver_cases(draw, tier):
    n = draw(st.integers(1, 3))
    return {
        "n": n, "length": [draw(st.integers(2, 4)) for _ in range(n)], "gap": [draw(st.integers(1, 2)) for _ in range(n)],
        "core": draw(st.booleans()), "freq": draw(st.sampled_from([0.0, 0.3, 2.0])), "mix": draw(st.integers(0, 1000)), "more": draw(st.integers(0, 1)),
        "kind": draw(st.sampled_from(["current", "voltage"])), "rho": [draw(st.sampled_from([1.0, 2.0])) for _ in range(n)],
        "d": [draw(st.sampled_from([1.0, 0.5, 2.0])) for _ in range(3)],
    }


def check_solver(case, ctx):
    """Parallel bars: the matrix extracted from the sweeps of the solver against the dense reference."""
    from pypeec.utils import matrix
    n = case["n"]
    d = case["d"]
    (rows, y) = ([], 0)
    for w in range(n):
        rows.append(y)
        y += case["gap"][w] + 1
    grid = [4, y + 1, 1]
    dom = {}
    bars = []
    for w in range(n):
        idx = [model.linear(grid, [x, rows[w], 0]) for x in range(case["length"][w])]
        bars.append(idx)
        (dom["a%d" % w], dom["b%d" % w], dom["w%d" % w]) = ([idx[0]], [idx[-1]], idx[1:-1])
    core = [model.linear(grid, [x, rows[0] + 1, 0]) for x in (1, 2)] if case["core"] else []
    dom["core"] = core
    freq = 0.0 if case["freq"] == 0 else case["freq"] / (2 * np.pi * 0.25 * model.MU0)
    mdef = {"c%d" % w: {"domain_list": ["a%d" % w, "b%d" % w, "w%d" % w], "material_type": "electric", "orientation_type": "isotropic",
                        "var_type": "lumped"} for w in range(n)}
    mval = {"c%d" % w: {"rho_re": case["rho"][w], "rho_im": 0.0} for w in range(n)}
    if core:
        mdef["core"] = {"domain_list": ["core"], "material_type": "magnetic", "orientation_type": "isotropic", "var_type": "lumped"}
        mval["core"] = {"chi_re": 20.0, "chi_im": 1.0}
    cur = case["kind"] == "current"
    sdef, sweeps = {}, {}
    for w in range(n):
        sdef["a%d" % w] = {"domain_list": ["a%d" % w], "source_type": "current" if cur else "voltage", "var_type": "lumped"}
        sdef["b%d" % w] = {"domain_list": ["b%d" % w], "source_type": "voltage", "var_type": "lumped"}
    rng = np.random.default_rng(case["mix"])
    exc = np.eye(n)[:, rng.permutation(n)] + 0.3 * np.round(rng.normal(size=(n, n)), 1) * (case["mix"] % 2)
    if abs(np.linalg.det(exc)) < 0.2:
        exc = np.eye(n)
    exc = np.hstack((exc, np.ones((n, case["more"]))))
    (a, b) = ("I", "Y") if cur else ("V", "Z")
    for k in range(exc.shape[1]):
        val = {}
        for w in range(n):
            val["a%d" % w] = {a + "_re": float(exc[w, k]), a + "_im": 0.0, b + "_re": 0.0, b + "_im": 0.0}
            val["b%d" % w] = {"V_re": 0.5 * w, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}
        sweeps["k%d" % k] = {"init": None, "param": {"freq": freq, "material_val": mval, "source_val": val}}
    import pypeec
    vox = api.mesh(api.geometry_voxel(grid, d, [0, 0, 0], dom))
    sol = api.must("solver", pypeec.run_solver_data, vox, {"material_def": mdef, "source_def": sdef, "sweep_solver": sweeps}, api.tolerance())
    term = api.must("get_extract", matrix.get_extract, sol, list(sweeps), [{"src": "a%d" % w, "sink": "b%d" % w} for w in range(n)])
    if not cur and np.linalg.cond(term["I_mat"]) > 1e6:
        ctx.trivial("dependent currents")
        return
    got = api.must("get_matrix", matrix.get_matrix, term)
    # reference
    rho = {i: [complex(case["rho"][w])] * 3 for w in range(n) for i in bars[w]}
    chi = {i: [20.0 - 1.0j] * 3 for i in core}
    Z = np.zeros((n, n), dtype=complex)
    for w in range(n):
        src = [(bars[q][0], "current", 1.0 if q == w else 0.0, 0.0) for q in range(n)] + [(bars[q][-1], "voltage", 0.0, 0.0) for q in range(n)]
        ref = model.Model(grid, d, [0, 0, 0], freq, rho, chi, src)
        Z[:, w] = [ref.V_vc[ref.vc.index(bars[q][0])] for q in range(n)]
    ctx.label("n=%d" % n, case["kind"], "core" if core else "air", "dc" if freq == 0 else "ac")
    api.close("impedance", got["Z_mat"], Z, 1e-5)
    api.close("resistance", got["R_mat"], Z.real, 1e-5, float(np.max(np.abs(Z))))
    if freq:
        api.close("inductance", got["L_mat"], Z.imag / (2 * np.pi * freq), 1e-5, float(np.max(np.abs(Z))) / (2 * np.pi * freq))


PROP = Prop("C30", [
    Part("extract", cases, check, quick=5000, thorough=150000),
    Part("solver", solver_cases, check_solver, quick=150, thorough=4000),
], rule="random reciprocal impedance matrices with random excitations and symmetry groups, and bars solved with PyPEEC against the dense "
        "reference; trivial for nearly dependent excitations", batch=200)
