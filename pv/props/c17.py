"""C17: charge and flux conservation."""

import numpy as np

from pv import api, gen, model
from pv.engine import Part, Prop


def cases(tier):
    return gen.problem_cases(kinds=("electric", "magnetic", "electromagnetic"), freqs=("ac", "ac", "dc"), max_nv=48, max_mat=3, max_src=3)


def paths(tier):
    return gen.path_cases(tier)


def blocks(tier):
    return gen.mixed(tier, True, kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_mat=3, max_src=3)


def larges(tier):
    return gen.mixed(tier, "large", kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_mat=3, max_src=3)


def check(case, ctx):
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    (_, sol) = prob.run(tol=gen.any_tolerance(case))
    S = gen.Solution(sol)
    vol = np.prod(prob.d)
    tol = 1e-6
    div = S.field("S_c")
    for i, v in div.items():
        if not prob.src[i]:
            api.expect(abs(v) <= tol * floor["S_c"], "current appears in voxel %d, which has no source (%s)" % (i, v))
    for k in prob.used_sources():
        tot = sum(div[i] for i in range(prob.nv) if prob.src[i] == k) * vol
        cur = S.source("src_%d" % k)["I"]
        api.expect(abs(tot - cur) <= tol * floor["I"], "source %d injects %s but %s leaves its voxels" % (k, cur, tot))
    for comp in prob.comps:
        tot = sum(div[i] for i in comp) * vol
        api.expect(abs(tot) <= tol * floor["I"], "the currents of a component add up to %s" % tot)
        names = {prob.src[i] for i in comp if prob.src[i]}
        other = {prob.src[i] for i in range(prob.nv) if prob.src[i] and i not in comp}
        if names and not (names & other):
            ctx.label("sources of one component")
            tot = sum(S.source("src_%d" % k)["I"] for k in names)
            api.expect(abs(tot) <= tol * floor["I"], "the source currents of a component add up to %s" % tot)
    q = S.field("Q_m")
    bodies = model.components(prob.n, prob.magnetic)
    for body in bodies:
        tot = sum(q[i] for i in body) * vol
        api.expect(abs(tot) <= tol * floor["Q_m"] * vol, "the magnetic charges of a body add up to %s" % tot)
        if len(body) == 1:
            api.expect(api.maxabs(S.field("B_m")[body[0]]) <= tol * floor["B_m"], "flux in an isolated voxel")
    # no flow through the outer surface, divergence density consistent with the flows
    for (name, dname, key, scale) in (("J_c", "S_c", "I", 1.0), ("B_m", "Q_m", "Q", 1.0)):
        flow, end = S.face_flows(name)
        big = floor["I"] if key == "I" else floor["Q_m"] * vol
        m = max(prob.n)
        for (a, j, cur) in end:
            api.expect(abs(cur) <= tol * m * big, "%s: %s leaves voxel %d through the outer surface (axis %d)" % (name, cur, j, a))
        dd = S.field(dname)
        step = (1, prob.n[0], prob.n[0] * prob.n[1])
        for i in dd:
            out = sum(flow.get((a, i), 0.0) - (flow.get((a, i - step[a]), 0.0) if model.coords(prob.n, i)[a] > 0 else 0.0) for a in range(3))
            api.expect(abs(out - dd[i] * vol) <= tol * 3 * m * big, "%s: %s leaves voxel %d but the reported divergence gives %s" % (name, out, i, dd[i] * vol))
    ctx.label("bodies=%d" % min(len(bodies), 3))


PROP = Prop("C17", [
    Part("mixed", cases, check, quick=1000, thorough=30000),
    Part("block", blocks, check, quick=60, thorough=2500),
    Part("large", larges, check, quick=16, thorough=400),
    Part("path", paths, check, quick=160, thorough=5000),
], rule="random mixed problems, the face flows are rebuilt from the voxel densities; trivial without face or excitation")
