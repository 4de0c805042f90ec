"""C12: electric problems against the dense partial-element model."""

from pv import api, gen
from pv.engine import Part, Prop


def cases(tier):
    return gen.problem_cases(kinds=("electric",), freqs=("ac", "ac", "ac", "dc"), max_mat=3, max_src=3)


def paths(tier):
    return gen.path_cases(tier, freqs=("ac", "ac", "dc"))


def blocks(tier):
    return gen.block_cases(tier, freqs=("ac",))


def larges(tier):
    return gen.mixed(tier, "large", freqs=("ac",), kinds=("electric",), max_mat=2)


def check(case, ctx):
    prob = gen.Problem(case)
    if not prob.well_posed:
        ctx.trivial("no conductor")
        return
    gen.labels(prob, ctx)
    ref = prob.reference()
    if len(ref.fc) == 0:
        ctx.trivial("no face")
    if abs(ref.i_floor) == 0:
        ctx.trivial("no excitation")
    (_, sol) = prob.run(tol=gen.any_tolerance(case))
    api.expect(sol["status"] is True, "the problem is well-posed but the run reports a failure")
    gen.check_against(prob, sol, ref, 1e-6)


PROP = Prop("C12", [
    Part("random", cases, check, quick=1200, thorough=40000),
    Part("path", paths, check, quick=240, thorough=6000),
    Part("block", blocks, check, quick=80, thorough=3000),
    Part("large", larges, check, quick=16, thorough=400),
], rule="random conductive voxel sets (also sparse ones in larger grids and blocks of hundreds of voxels) at frequencies with a reactance of 0.05 to 3 times the "
        "resistance, solved with a dense model that integrates 1/r by quadrature; trivial without a face or an excitation")
