"""C40: monotonicity and maximum principle of the conductor networks."""

import copy

import numpy as np
import scipy.ndimage as ndimage
from hypothesis import strategies as st

from pv import api, gen
from pv.engine import Part, Prop

TOL = 1e-7
SHAPES = [(5, 4, 3), (9, 7, 2), (20, 3, 2), (8, 8, 1), (40, 2, 1), (6, 6, 6), (15, 14, 2), (12, 7, 6)]


@st.composite
def cases(draw, tier):
    big = [(30, 20, 3), (15, 14, 10), (200, 4, 2)] if tier == "thorough" else []
    return {
        "n": list(draw(st.permutations(draw(st.sampled_from(SHAPES + big))))),
        "d": [draw(st.sampled_from([1.0, 0.5, 2.0, 0.8])) for _ in range(3)], "scale": draw(st.sampled_from([1.0, 1e-3, 1e-6])),
        "seed": draw(st.integers(0, 10 ** 6)), "hole": draw(st.sampled_from([0.0, 0.1, 0.25])), "n_mat": draw(st.integers(1, 3)),
        "n_term": draw(st.integers(2, 4)), "size": draw(st.sampled_from([1, 1, 3, 10])), "contrast": draw(st.sampled_from([0.0, 1.0, 3.0])),
        "aniso": draw(st.booleans()), "dist": draw(st.booleans()), "order": draw(st.integers(0, 30)),
        "wl": [draw(st.sampled_from([0.01, 0.1, 0.5])), draw(st.sampled_from([1.2, 3.0, 8.0]))],
        "change": draw(st.sampled_from(["some", "all", "one"])),
    }


def build(case, ctx):
    """One connected conductor with terminals: voxels, material, terminal and resistivity of every voxel."""
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    (lab, cnt) = ndimage.label(rng.random(n) >= case["hole"])
    sizes = np.bincount(lab.ravel())
    if cnt == 0 or np.max(sizes[1:]) < max(4, case["n_term"]):
        ctx.trivial("too small")
        return None
    keep = lab == 1 + int(np.argmax(sizes[1:]))
    vox = np.flatnonzero(keep.flatten(order="F"))
    mat = rng.integers(0, case["n_mat"], len(vox))
    term = np.full(len(vox), -1)
    per = max(1, min(case["size"], len(vox) // (2 * case["n_term"])))
    for k, part in enumerate(np.split(rng.permutation(len(vox))[:per * case["n_term"]], case["n_term"])):
        term[part] = k
    base = 2.0 ** (case["contrast"] * rng.uniform(-1, 1, (case["n_mat"], 3)))
    rho = base[mat]
    if case["dist"]:
        rho = rho * 2.0 ** rng.uniform(-1, 1, rho.shape)
    if not case["aniso"]:
        rho = np.repeat(rho[:, :1], 3, axis=1)
    ctx.label("voxels<%d" % (2 ** int(np.ceil(np.log2(len(vox) + 1)))), "aniso" if case["aniso"] else "iso")
    return n, vox, mat, term, rho * case["scale"], rng


def solve(case, n, vox, mat, term, rho, kind, sweeps):
    """Solve sweeps {name: (frequency, values of the terminals)} of one network."""
    d = [v * case["scale"] for v in case["d"]]
    dom, mdef, mval, sdef = {}, {}, {}, {}
    for m in range(case["n_mat"]):
        for k in range(-1, case["n_term"]):
            dom["d_%d_%d" % (m, k)] = [int(v) for v in vox[(mat == m) & (term == k)]]
        lst = ["d_%d_%d" % (m, k) for k in range(-1, case["n_term"])]
        idx = np.concatenate([np.flatnonzero((mat == m) & (term == k)) for k in range(-1, case["n_term"])])
        val = rho[idx]
        mdef["m%d" % m] = {"domain_list": lst, "material_type": "electric", "orientation_type": "anisotropic" if case["aniso"] else "isotropic",
                           "var_type": "distributed"}
        data = val.tolist() if case["aniso"] else val[:, 0].tolist()
        mval["m%d" % m] = {"rho_re": data, "rho_im": np.zeros(np.shape(data)).tolist()}
    for k in range(case["n_term"]):
        sdef["t%d" % k] = {"domain_list": ["d_%d_%d" % (m, k) for m in range(case["n_mat"])], "source_type": "voltage" if kind == "voltage" or k == 0
                           else "current", "var_type": "lumped"}
    problem = {"material_def": mdef, "source_def": sdef, "sweep_solver": {}}
    for name, (freq, val) in sweeps.items():
        sval = {}
        for k in range(case["n_term"]):
            (q, e) = ("V", "Z") if sdef["t%d" % k]["source_type"] == "voltage" else ("I", "Y")
            sval["t%d" % k] = {q + "_re": float(np.real(val[k])), q + "_im": float(np.imag(val[k])), e + "_re": 0.0, e + "_im": 0.0}
        problem["sweep_solver"][name] = {"init": None, "param": {"freq": float(freq), "material_val": mval, "source_val": sval}}
    tol = gen.any_tolerance(case)
    if len(vox) > 300:
        tol["mult_type"] = "fft"
    sol = api.solve(api.mesh(api.geometry_voxel(n, d, [0.0, 0.0, 0.0], dom)), problem, tol)
    out = {name: gen.Solution(sol, name) for name in sweeps}
    if not all(s.sw["solver_ok"] for s in out.values()):
        return None
    return out


def change(case, rng, mat, rho):
    """Some resistivities get lower, none gets higher."""
    fact = np.ones(rho.shape)
    if case["change"] == "one":
        fact[int(rng.integers(len(fact)))] = 0.1
    elif case["change"] == "all":
        fact[:] = 0.7
    else:
        fact[rng.random(len(fact)) < 0.3] = rng.choice([0.01, 0.3, 0.9])
    return rho * fact


def check(case, ctx):
    net = build(case, ctx)
    if net is None:
        return
    (n, vox, mat, term, rho, rng) = net
    count = case["n_term"]
    unit = {"u%d" % k: (0.0, np.eye(count)[k]) for k in range(count)}
    # voltages: maximum principle, conductance matrix
    sol = solve(case, n, vox, mat, term, rho, "voltage", unit)
    low = solve(case, n, vox, mat, term, change(case, rng, mat, rho), "voltage", unit)
    if sol is None or low is None:
        ctx.trivial("not converged")
        return
    (total, mats) = (0.0, [])
    for res in (sol, low):
        G = np.array([[res["u%d" % k].source("t%d" % j)["I"] for k in range(count)] for j in range(count)])
        top = np.max(np.abs(G))
        api.expect(np.max(np.abs(G.imag)) <= TOL * top, "complex conductances %s" % G)
        G = G.real
        mats.append(G)
        api.expect(np.max(np.abs(G - G.T)) <= TOL * top, "conductances are not symmetric %s" % G.tolist())
        api.expect(np.max(np.abs(np.sum(G, axis=0))) <= TOL * top, "the conductances of a terminal do not add up to zero %s" % G.tolist())
        off = G - np.diag(np.diag(G))
        api.expect(np.max(off) <= TOL * top and np.min(np.diag(G)) > 0, "conductances with a wrong sign %s" % G.tolist())
        total = 0.0
        for k in range(count):
            V = res["u%d" % k].var("V_c")
            api.expect(np.all(np.abs(V.imag) <= TOL) and np.all(V.real >= -TOL) and np.all(V.real <= 1 + TOL),
                       "potentials %s to %s between terminals at 0 and 1" % (np.min(V.real), np.max(V.real)))
            total = total + V
            api.close("losses", res["u%d" % k].integral("P_total"), G[k, k], 1e-6, top)
        api.close("sum of the potentials", total, np.ones(len(total)), 1e-6)
    # lower resistivities: the conductance matrix increases (as a form)
    diff = np.linalg.eigvalsh(0.5 * (mats[1] - mats[0] + (mats[1] - mats[0]).T))
    api.expect(np.min(diff) >= -TOL * np.max(np.abs(mats[1])), "a lower resistivity reduces the conductance: %s to %s" % (mats[0].tolist(), mats[1].tolist()))
    ctx.label("rayleigh")


def check_freq(case, ctx):
    net = build(case, ctx)
    if net is None:
        return
    (n, vox, mat, term, rho, rng) = net
    count = case["n_term"]
    d = np.array(case["d"])
    unit = 1 / (2 * np.pi * 0.25 * 1.26e-6 * case["scale"])
    freq = [0.0, 1e-6 * unit, case["wl"][0] * unit, 1.1 * case["wl"][0] * unit, case["wl"][1] * unit]
    cur = np.concatenate([[0.0], rng.normal(size=count - 1) + 1j * rng.normal(size=count - 1)])
    sol = solve(case, n, vox, mat, term, rho, "current", {"f%d" % k: (f, cur) for k, f in enumerate(freq)})
    if sol is None:
        ctx.trivial("not converged")
        return
    # losses and energies of the same peak currents (the factor is the one of the mean value of a sine)
    P = np.array([sol["f%d" % k].integral("P_total") / (1.0 if f == 0 else 0.5) for k, f in enumerate(freq)])
    W = np.array([sol["f%d" % k].integral("W_total") / (0.5 if f == 0 else 0.25) for k, f in enumerate(freq)])
    api.expect(P[0] > 0 and W[0] > 0, "losses %s and energies %s" % (P, W))
    for k in range(len(freq) - 1):
        api.expect(P[k + 1] >= P[k] * (1 - 1e-6), "the losses decrease with the frequency: %s at %s Hz" % (P.tolist(), freq))
        api.expect(W[k + 1] <= W[k] * (1 + 1e-6), "the energy increases with the frequency: %s at %s Hz" % (W.tolist(), freq))
    api.expect(abs(P[1] - P[0]) <= 1e-6 * P[0] and abs(W[1] - W[0]) <= 1e-6 * W[0], "jump from direct current to a very low frequency: %s %s" % (P, W))
    ctx.label("skin effect" if P[-1] > 1.01 * P[0] else "no skin effect")


PROP = Prop("C40", [
    Part("direct", cases, check, quick=240, thorough=6000),
    Part("frequency", cases, check_freq, quick=200, thorough=5000),
], rule="connected random conductors with holes, materials, anisotropic and per-voxel resistivities and two to four terminals; unit voltages before and "
        "after lowering resistivities, and fixed currents at increasing frequencies; trivial if too small or not converged", quick_s=45)
