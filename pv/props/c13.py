"""C13: magnetic problems against the dense partial-element model."""

from pv import api, gen
from pv.engine import Part, Prop


def cases(tier):
    return gen.problem_cases(kinds=("electric", "magnetic", "electromagnetic"), freqs=("ac", "ac", "dc"), max_mat=3, max_src=2)


def blocks(tier):
    return gen.block_cases(tier, kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_used=60 if tier == "quick" else 110, hi=7)


def larges(tier):
    return gen.mixed(tier, "large", kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_mat=2)


def check(case, ctx):
    prob = gen.Problem(case)
    if not prob.well_posed:
        ctx.trivial("no conductor")
        return
    gen.labels(prob, ctx)
    ref = prob.reference()
    if not prob.magnetic:
        ctx.trivial("no magnetic voxel")
    if len(ref.fc) == 0:
        ctx.trivial("no face")
    (_, sol) = prob.run(tol=gen.any_tolerance(case))
    api.expect(sol["status"] is True, "the problem is well-posed but the run reports a failure")
    gen.check_against(prob, sol, ref, 1e-6)


PROP = Prop("C13", [Part("random", cases, check, quick=1600, thorough=40000), Part("block", blocks, check, quick=80, thorough=3000),
                    Part("large", larges, check, quick=16, thorough=400)],
            rule="random mixtures of electric, magnetic and electromagnetic voxels (also sparse and in blocks), complex anisotropic per-voxel "
                 "susceptibilities, zero and non-zero frequency, against a dense coupled model; trivial without magnetic voxels or faces")
