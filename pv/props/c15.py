"""C15: the numerical options do not change the solution."""

from hypothesis import strategies as st

from pv import api, gen, standins
from pv.engine import Part, Prop


@st.composite
def options(draw, base=False):
    it = {
        "solver": draw(st.sampled_from(["gmres", "gcrot"])), "n_inner": draw(st.sampled_from([200, 60, 30])),
    }
    return {
        "mult": draw(st.sampled_from(["fft", "fft", "fft", "direct"])), "split": draw(st.booleans()),
        "library": draw(st.sampled_from(["NumPy", "SciPy", "FFTW", "MKL", "CuPy"])), "worker": draw(st.sampled_from([0, 1, 2, -1, -2])),
        "timeout": draw(st.sampled_from([None, 0.0, 100.0])), "align": draw(st.sampled_from([None, 16, 32])),
        "fact": draw(st.sampled_from(["SuperLU", "SuperLU", "PARDISO", "PyAMG"])),
        "pyamg": [draw(st.sampled_from(["root", "adapt"])), draw(st.sampled_from([None, "gmres", "fgmres"]))],
        "thread": [draw(st.sampled_from([None, 0, 1, -1])) for _ in range(2)],
        "coupling": draw(st.sampled_from(["direct", "direct", "segregated", "segregated"])),
        "iter": it, "iter_m": draw(st.sampled_from(["gmres", "gcrot"])),
        "relax": [draw(st.sampled_from([1.0, 0.9, 0.7, 1.05])) for _ in range(2)], "n_min": draw(st.integers(0, 6)),
        "stop": draw(st.booleans()), "n_cmp": draw(st.integers(0, 4)), "check": draw(st.booleans()),
        "t_accuracy": draw(st.integers(1, 3)), "itmax": draw(st.sampled_from([5, 25])),
        "ignore": [draw(st.booleans()) for _ in range(2)],
    }


@st.composite
def cases(draw, tier, block=False):
    case = draw(gen.mixed(tier, block, kinds=gen.MIXED, freqs=("ac", "ac", "dc"), max_nv=18, max_src=2, pts=True))
    case["options"] = draw(options())
    case["n_jobs"] = 0
    return case


def build(opt, electric_only):
    (rx_e, rx_m) = opt["relax"]
    seg = opt["coupling"] == "segregated"
    tol = api.tolerance(
        mult_type=opt["mult"], fft_options__matrix_split=opt["split"], fft_options__library=opt["library"],
        fft_options__scipy_worker=opt["worker"], fft_options__fftw_thread=opt["worker"],
        fft_options__fftw_timeout=opt["timeout"], fft_options__fftw_byte_align=opt["align"],
        factorization_options__library=opt["fact"],
        factorization_options__pyamg_options={"tol": 1e-8, "solver": opt["pyamg"][0], "krylov": opt["pyamg"][1]},
        factorization_options__pardiso_options={"thread_pardiso": opt["thread"][0], "thread_mkl": opt["thread"][1]},
        condition_options__check=opt["check"],
        condition_options__norm_options={"t_accuracy": opt["t_accuracy"], "n_iter_max": opt["itmax"]},
    )
    so = tol["solver_options"]
    so["coupling"] = opt["coupling"]
    so["direct_options"].update(solver=opt["iter"]["solver"], n_inner=opt["iter"]["n_inner"], n_outer=40)
    sg = so["segregated_options"]
    sg["iter_electric_options"].update(solver=opt["iter"]["solver"], n_inner=opt["iter"]["n_inner"], n_outer=40)
    sg["iter_magnetic_options"].update(solver=opt["iter_m"], n_inner=opt["iter"]["n_inner"], n_outer=40)
    sg.update(relax_electric=rx_e, relax_magnetic=rx_m, n_min=opt["n_min"])
    so["tolerance_options"].update(ignore_status=opt["ignore"][0], ignore_res=opt["ignore"][1])
    if opt["stop"] and (not seg or electric_only):
        # the power may stop the iterations only once it has settled far below the compared accuracy
        so["power_options"].update(stop=True, n_min=60 if seg else 6, n_cmp=opt["n_cmp"], rel_tol=1e-12, abs_tol=0.0)
    return tol


def check(case, ctx):
    import pypeec
    standins.install()
    (prob, ref, floor) = gen.setup_case(case, ctx)
    if prob is None:
        return
    opt = case["options"]
    electric = not prob.magnetic
    (vox, base) = prob.run()
    tol = build(opt, electric)
    tol["parallel_sweep"]["n_jobs"] = case["n_jobs"]
    (ok, sol) = api.attempt(pypeec.run_solver_data, vox, prob.problem(), tol)
    if not ok:
        if isinstance(sol, RuntimeWarning) and opt["coupling"] == "segregated" and not electric:
            # the numbers overflow before the iterations are stopped
            ctx.trivial("segregated iterations diverge")
            return
        api.expect(False, "the options %s fail with %r" % (opt, sol))
    for key in ("mult", "library", "fact", "coupling", "split"):
        ctx.label("%s=%s" % (key, opt[key]))
    if not sol["status"]:
        # only the fixed-point iteration between the two coupled physics may diverge
        api.expect(opt["coupling"] == "segregated" and not electric, "the iterations do not converge with %s" % opt)
        if not opt["ignore"][0]:
            ctx.trivial("segregated iterations diverge")
            return
    if opt["coupling"] == "segregated" and not electric:
        sw = sol["data_sweep"]["sim"]["solver_status"]
        if sw["n_iter"] > 300:
            ctx.trivial("segregated iterations diverge")
            return
    gen.compare("other numerical options", gen.Solution(sol), gen.Solution(base), floor, 2e-6)


@st.composite
def weak(draw, tier):
    """Weakly coupled magnetic problems: the segregated solver has to converge."""
    case = draw(gen.problem_cases(kinds=gen.MIXED, freqs=("ac", "dc"), max_nv=18, max_src=2, pts=True))
    for m in case["materials"]:
        m["chi_re"] = [0.05 * v / 100 for v in m["chi_re"]]
        m["chi_im"] = [0.0] * 3
    if case["wl"]:
        case["wl"] = 0.05
    case["options"] = dict(draw(options()), coupling="segregated")
    case["n_jobs"] = 0
    return case


def check_weak(case, ctx):
    check(case, ctx)
    if "trivial:segregated iterations diverge" in ctx.labels:
        api.expect(False, "the weakly coupled segregated iterations do not converge")


@st.composite
def jobs(draw, tier):
    case = draw(gen.problem_cases(kinds=gen.MIXED, freqs=("ac", "dc"), max_nv=8, max_src=2, pts=True))
    case["options"] = dict(draw(options()), coupling="direct", library=draw(st.sampled_from(["NumPy", "SciPy"])),
                           fact="SuperLU", worker=1)
    case["n_jobs"] = draw(st.sampled_from([1, 2]))
    return case


PROP = Prop("C15", [
    Part("options", cases, check, quick=800, thorough=24000),
    Part("block", lambda tier: cases(tier, block=True), check, quick=60, thorough=2500),
    Part("large", lambda tier: cases(tier, block="large"), check, quick=16, thorough=400),
    Part("weak", weak, check_weak, quick=240, thorough=8000),
    Part("jobs", jobs, check, quick=16, thorough=400),
], rule="random mixed problems solved twice, with strict default options and with random ones; trivial without face or excitation or "
        "when the segregated fixed point diverges", quick_s=50, assumptions=[
            "FFTW, MKL, CuPy, PARDISO and PyAMG are not installed: stand-ins with their documented interface (NumPy/SciPy based, "
            "destroying overwritable inputs) take their place"])
