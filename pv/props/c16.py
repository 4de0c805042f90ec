"""C16: power balance and passivity."""

import numpy as np

from pv import api, gen
from pv.engine import Part, Prop


def cases(tier):
    return gen.problem_cases(kinds=("electric", "magnetic", "electromagnetic"), freqs=("ac", "ac", "dc"), max_nv=36, max_mat=3, max_src=3)


def real(tier):
    return gen.problem_cases(kinds=("electric", "magnetic", "electromagnetic"), freqs=("ac", "ac", "dc"), max_nv=36, complex_rho=False)


def paths(tier):
    return gen.path_cases(tier)


def blocks(tier):
    return gen.mixed(tier, True, kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_mat=3, max_src=3)


def larges(tier):
    return gen.mixed(tier, "large", kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_mat=3, max_src=3)


def check(case, ctx):
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    (_, sol) = prob.run(tol=gen.any_tolerance(case))
    S = gen.Solution(sol)
    (P, W, pw) = (S.integral("P_total"), S.integral("W_total"), S.integral("S_total"))
    pf = max(floor["P_total"], floor["S_total"])
    api.expect(abs(np.real(pw) - P) <= 1e-6 * pf, "source power %s but losses %s" % (pw, P))
    is_real = not any(abs(z.imag) > 0 for i in prob.electric for z in prob.rho_at(i))
    omega = 2 * np.pi * prob.freq
    if is_real:
        ctx.label("real resistivity")
        api.expect(abs(np.imag(pw) - omega * 2 * W) <= 1e-6 * max(pf, omega * 2 * floor["W_total"]),
                   "reactive power %s but energy %s at %s Hz" % (pw, W, prob.freq))
    else:
        ctx.label("complex resistivity")
    # passivity (losses and energy from the returned data alone)
    eps = 1e-9
    for name in ("P_c", "P_m"):
        v = S.var(name)
        api.expect(np.all(v >= -eps * floor[name]), "negative loss density in %s" % name)
        api.expect(np.isrealobj(v), "complex loss density")
    for mat, val in S.sw["material"].items():
        for name in ("P_electric", "P_magnetic", "P_total"):
            api.expect(val[name] >= -eps * floor["P_total"], "negative losses of material %s" % mat)
    for name in ("P_electric", "P_magnetic", "P_total"):
        api.expect(S.integral(name) >= -eps * floor[name], "negative losses")
    for name in ("W_electric", "W_magnetic", "W_total"):
        api.expect(S.integral(name) >= -eps * floor[name], "negative energy")
    J = S.var("J_c")
    if api.maxabs(J) > 1e-6 * floor["J_c"]:
        api.expect(W > 0 and S.integral("W_electric") > 0, "no energy although a current flows")
        if is_real or api.maxabs(J.imag) >= 0:
            api.expect(S.integral("P_electric") > 0, "no losses although a current flows")
    lossless = all(v == 0 for i in prob.magnetic for v in [z.imag for z in prob.chi_at(i)])
    if lossless or prob.freq == 0:
        api.expect(abs(S.integral("P_magnetic")) <= 1e-9 * floor["P_magnetic"] + 1e-300, "magnetic losses of a lossless material")


PROP = Prop("C16", [
    Part("mixed", cases, check, quick=700, thorough=24000),
    Part("real", real, check, quick=600, thorough=20000),
    Part("block", blocks, check, quick=60, thorough=2500),
    Part("large", larges, check, quick=16, thorough=400),
    Part("path", paths, check, quick=160, thorough=5000),
], rule="random mixed problems (complex and real resistivities, lossy magnetic materials), power balance and sign of the losses and "
        "energies of the returned solution; trivial without face or excitation")
