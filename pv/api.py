"""Calls into PyPEEC (public interface only) and small comparison helpers."""

import copy

import numpy as np

from pv.engine import Violation


def _short(ex):
    return "%s: %s" % (type(ex).__name__, str(ex).strip().split("\n")[0][:300])


def attempt(fct, *args, **kwargs):
    """Run a function: (True, result) or (False, exception)."""
    try:
        return True, fct(*args, **kwargs)
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as ex:
        return False, ex


def must(what, fct, *args, **kwargs):
    (ok, res) = attempt(fct, *args, **kwargs)
    if not ok:
        raise Violation("%s: valid input refused or crashed with %s" % (what, _short(res))) from res
    return res


def refused(what, fct, *args, **kwargs):
    (ok, res) = attempt(fct, *args, **kwargs)
    if ok:
        raise Violation("%s: accepted without an error" % what)
    return res


def mesh(geo):
    import pypeec
    data = must("mesher", pypeec.run_mesher_data, geo)
    return data


def solve(voxel, problem, tolerance):
    import pypeec
    return must("solver", pypeec.run_solver_data, voxel, problem, tolerance)


def tolerance(**kw):
    """Strict numerical options; keys with dots address nested entries."""
    tol = {
        "parallel_sweep": {"n_jobs": 0, "n_threads": None},
        "integral_simplify": 1000.0,
        "biot_savart": "face",
        "mult_type": "fft",
        "fft_options": {
            "matrix_split": True, "library": "SciPy", "scipy_worker": 1,
            "fftw_thread": 1, "fftw_timeout": 100.0, "fftw_byte_align": 16,
        },
        "factorization_options": {
            "library": "SuperLU",
            "pyamg_options": {"tol": 1e-6, "solver": "root", "krylov": None},
            "pardiso_options": {"thread_pardiso": 1, "thread_mkl": 1},
        },
        "solver_options": {
            "coupling": "direct",
            "tolerance_options": {"ignore_status": False, "ignore_res": True, "rel_tol": 1e-3, "abs_tol": 1e-9},
            "power_options": {"stop": False, "n_min": 4, "n_cmp": 3, "rel_tol": 1e-12, "abs_tol": 1e-30},
            "direct_options": {"solver": "gmres", "rel_tol": 1e-11, "abs_tol": 1e-30, "n_inner": 200, "n_outer": 10},
            "segregated_options": {
                "rel_tol": 1e-10, "abs_tol": 1e-30, "relax_electric": 1.0, "relax_magnetic": 1.0,
                "n_min": 2, "n_max": 300,
                "iter_electric_options": {"solver": "gmres", "rel_tol": 1e-12, "abs_tol": 1e-30, "n_inner": 200, "n_outer": 10},
                "iter_magnetic_options": {"solver": "gmres", "rel_tol": 1e-12, "abs_tol": 1e-30, "n_inner": 200, "n_outer": 10},
            },
        },
        "condition_options": {
            "check": True, "tolerance_electric": 1e15, "tolerance_magnetic": 1e15,
            "norm_options": {"t_accuracy": 2, "n_iter_max": 25},
        },
    }
    for key, val in kw.items():
        node = tol
        path = key.split("__")
        for p in path[:-1]:
            node = node[p]
        assert path[-1] in node, key
        node[path[-1]] = val
    return tol


def geometry_voxel(n, d, c, domain_index, pts=None, check_cloud=False, full_cloud=False, resample=None, reduce=False,
                   rules=None, random=False, connected=None, adjacent=None):
    return {
        "mesh_type": "voxel",
        "data_voxelize": {
            "param": {"n": [int(v) for v in n], "d": [float(v) for v in d], "c": [float(v) for v in c]},
            "domain_index": domain_index,
        },
        "data_point": {"check_cloud": check_cloud, "full_cloud": full_cloud, "pts_cloud": pts if pts is not None else []},
        "data_resampling": {
            "use_reduce": reduce, "use_resample": resample is not None,
            "resampling_factor": resample if resample is not None else [1, 1, 1],
        },
        "data_conflict": {"resolve_rules": rules is not None, "resolve_random": random, "conflict_rules": rules or []},
        "data_integrity": {"domain_connected": connected or {}, "domain_adjacent": adjacent or {}},
    }


def maxabs(*arrays):
    out = 0.0
    for a in arrays:
        a = np.asarray(a)
        if a.size:
            out = max(out, float(np.max(np.abs(a))))
    return out


def close(what, got, ref, tol, floor=0.0):
    """Compare arrays with a tolerance relative to the largest entry (and a natural floor)."""
    got = np.asarray(got)
    ref = np.asarray(ref)
    if got.shape != ref.shape:
        raise Violation("%s: shape %s instead of %s" % (what, got.shape, ref.shape))
    if got.size == 0:
        return
    if not np.all(np.isfinite(got)):
        raise Violation("%s: non-finite values" % what)
    scale = max(maxabs(ref), floor)
    err = maxabs(got - ref)
    if err > tol * scale:
        k = int(np.argmax(np.abs(got - ref).ravel()))
        raise Violation("%s: entry %d is %s instead of %s (error %.2e, scale %.2e)"
                        % (what, k, got.ravel()[k], ref.ravel()[k], err, scale))


def same(what, got, ref):
    """Exact structural equality of nested data."""
    if isinstance(ref, dict):
        if not isinstance(got, dict) or list(got.keys()) != list(ref.keys()):
            raise Violation("%s: keys %s instead of %s" % (what, list(got.keys()) if isinstance(got, dict) else type(got), list(ref.keys())))
        for key in ref:
            same(what + "/" + str(key), got[key], ref[key])
    elif isinstance(ref, np.ndarray) or isinstance(got, np.ndarray):
        (a, b) = (np.asarray(got), np.asarray(ref))
        if a.shape != b.shape or not np.array_equal(a, b, equal_nan=a.dtype.kind in "fc"):
            raise Violation("%s: arrays differ" % what)
    elif isinstance(ref, (list, tuple)):
        if len(got) != len(ref):
            raise Violation("%s: length %d instead of %d" % (what, len(got), len(ref)))
        for i, (a, b) in enumerate(zip(got, ref)):
            same("%s[%d]" % (what, i), a, b)
    else:
        if not (got == ref or (got != got and ref != ref)):
            raise Violation("%s: %r instead of %r" % (what, got, ref))


def snapshot(data):
    return copy.deepcopy(data)


def expect(cond, msg):
    if not cond:
        raise Violation(msg)
