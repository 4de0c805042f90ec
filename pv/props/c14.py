"""C14: partial inductances between voxels."""

import numpy as np
from hypothesis import strategies as st

from pv import api, model
from pv.engine import Part, Prop


@st.composite
def cases(draw, tier):
    far = draw(st.integers(0, 3)) == 0
    hi = (12 if tier == "quick" else 40) if far else 4
    k = [draw(st.integers(-hi, hi)) for _ in range(3)]
    remote = draw(st.integers(0, 5)) == 0
    if remote:
        # very distant elements along one axis
        k = [draw(st.integers(-2, 2)) for _ in range(3)]
        k[draw(st.integers(0, 2))] = draw(st.sampled_from([-1, 1])) * draw(st.one_of(st.integers(13, 100), st.integers(101, 900 if tier == "quick" else 3000)))
    return {
        "d": [draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 0.1, 0.25, 5.0, 0.3])) for _ in range(3)],
        "scale": draw(st.sampled_from([1.0, 1e-3, 1e-6])),
        "a": draw(st.integers(0, 2)), "b": draw(st.integers(0, 2)), "parallel": draw(st.booleans()),
        "k": k,
        "pad": [draw(st.integers(0, 2)) for _ in range(6)],
        "simplify": draw(st.sampled_from([20.0, 12.5, 3.0, 0.0] if remote else [1000.0, 1000.0, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.25, 8.0])),
        "mult": draw(st.sampled_from(["fft", "fft", "direct"])), "split": draw(st.booleans()), "swap": draw(st.booleans()),
    }


def check(case, ctx):
    (a, b) = (case["a"], case["a"] if case["parallel"] else case["b"])
    ea = np.eye(3, dtype=int)[a]
    eb = np.eye(3, dtype=int)[b]
    k = np.array(case["k"])
    vox = [np.zeros(3, dtype=int), ea, k, k + eb]
    # both conductors have to be separated (no shared voxel, no shared face)
    for p in vox[:2]:
        for q in vox[2:]:
            if np.sum(np.abs(p - q)) <= 1:
                # move the second conductor away
                ctx.label("moved")
                k = k + np.array([2, 2, 2])
                vox[2:] = [k, k + eb]
    lo = np.min(vox, axis=0) - np.array(case["pad"][:3])
    hi = np.max(vox, axis=0) + np.array(case["pad"][3:])
    n = [int(v) for v in hi - lo + 1]
    sc = case["scale"]
    d = [v * sc for v in case["d"]]
    idx = [int(model.linear(n, v - lo)) for v in vox]
    dom = {name: [i] for name, i in zip(["a1", "a2", "b1", "b2"], idx)}
    area = [d[1] * d[2], d[0] * d[2], d[0] * d[1]]
    rho = [1.0 * sc, 2.0 * sc]
    l_self = {}
    for ax in {a, b}:
        l_self[ax] = model.MU0 * model.green(d, (0, 0, 0)) / area[ax] ** 2
    r_a = rho[0] * d[a] / area[a]
    freq = float(r_a / (2 * np.pi * l_self[a]))
    s = 2j * np.pi * freq
    # drive one conductor, leave the other one open
    (drive, probe) = (("b", "a") if case["swap"] else ("a", "b"))
    cur = {drive: 1.0, probe: 0.0}
    sdef, sval = {}, {}
    for t in "ab":
        sdef["i" + t] = {"domain_list": [t + "1"], "source_type": "current", "var_type": "lumped"}
        sval["i" + t] = {"I_re": cur[t], "I_im": 0.0, "Y_re": 0.0, "Y_im": 0.0}
        sdef["v" + t] = {"domain_list": [t + "2"], "source_type": "voltage", "var_type": "lumped"}
        sval["v" + t] = {"V_re": 0.0, "V_im": 0.0, "Z_re": 0.0, "Z_im": 0.0}
    problem = {
        "material_def": {
            "m" + t: {"domain_list": [t + "1", t + "2"], "material_type": "electric", "orientation_type": "isotropic", "var_type": "lumped"}
            for t in "ab"
        },
        "source_def": sdef,
        "sweep_solver": {"sim": {"init": None, "param": {
            "freq": freq, "source_val": sval,
            "material_val": {"m" + t: {"rho_re": r, "rho_im": 0.0} for t, r in zip("ab", rho)},
        }}},
    }
    tol = api.tolerance(integral_simplify=case["simplify"], mult_type=case["mult"], fft_options__matrix_split=case["split"],
                        solver_options__direct_options__rel_tol=1e-13)
    voxel = api.mesh(api.geometry_voxel(n, d, [0.0, 0.0, 0.0], dom))
    sol = api.solve(voxel, problem, tol)
    src = sol["data_sweep"]["sim"]["source"]
    v_drive = complex(src["i" + drive]["V"] - src["v" + drive]["V"])
    v_probe = complex(src["i" + probe]["V"] - src["v" + probe]["V"])
    ax = {"a": a, "b": b}
    r_d = (rho[0] if drive == "a" else rho[1]) * d[ax[drive]] / area[ax[drive]]
    l_got = (v_drive - r_d) / s
    m_got = v_probe / s
    l_ref = l_self[ax[drive]]
    api.expect(abs(l_got - l_ref) <= 1e-8 * (abs(l_ref) + r_d / abs(s)),
               "self inductance %s instead of %s" % (l_got, l_ref))
    ref = model.MU0 * model.green(d, k) / (area[a] * area[b])
    r = float(np.linalg.norm(k * np.array(d)))
    dist = r / max(d)
    ctx.label("axis%d%d" % (a, b))
    if a != b:
        ctx.label("perpendicular")
        api.expect(abs(m_got) <= 1e-9 * np.sqrt(l_self[a] * l_self[b]), "mutual inductance %s between perpendicular elements" % m_got)
        return
    # rounding of the closed form: 64 terms of the order r^5/60 for a result of the order (dx dy dz)^2/r
    rnd = 64 * 2.2e-16 * (r + max(d)) ** 5 / 60 / (np.prod(d) ** 2 / r)
    if rnd > 1e-2 and dist <= case["simplify"] * (1 + 1e-9):
        ctx.trivial("closed form without digits")
        return
    err = abs(m_got - ref) / ref
    noise = 1e-8 + 1e-10 * l_ref / ref
    if dist <= case["simplify"] * (1 - 1e-9):
        ctx.label("exact", "near" if dist < 3 else "far")
        api.expect(err <= noise + 10 * rnd, "mutual inductance %s instead of %s for offset %s (error %.2e)" % (m_got, ref, k, err))
    elif dist >= case["simplify"] * (1 + 1e-9):
        ctx.label("simplified", "near" if dist < 3 else "far" if dist < 50 else "remote")
        api.expect(err <= noise + 0.75 / dist ** 2,
                   "simplified mutual inductance %s instead of %s for offset %s (error %.2e at distance %.2f)" % (m_got, ref, k, err, dist))
    api.expect(m_got.real > 0, "negative inductance")


PROP = Prop("C14", [Part("pair", cases, check, quick=1200, thorough=30000)],
            rule="two separated two-voxel conductors at random offsets, axes, voxel aspect ratios (up to 50), length scales, paddings and "
                 "simplification distances, the mutual inductance read from the open-circuit voltage and compared with quadrature")
