"""Input files, output files and comparison of results (everything in a scratch directory)."""

import contextlib
import gzip
import json
import os
import shutil
import tempfile

import numpy as np
import yaml

from pv.engine import Violation

TIMING = ("date", "duration", "seconds")
# estimates with random vectors, and values at the level of the rounding errors
NOISE = ("cond_electric", "cond_magnetic")
ROUND = ("res", "res_val", "power_vec", "power_init")


_DEPTH = 0


@contextlib.contextmanager
def scratch():
    """Empty folder; its name is the same for all the cases of a process (results remembered by file name are noticed)."""
    global _DEPTH
    path = os.path.join(tempfile.gettempdir(), "pv_files_%d_%d" % (os.getpid(), _DEPTH))
    shutil.rmtree(path, ignore_errors=True)
    os.mkdir(path)
    _DEPTH += 1
    try:
        yield path
    finally:
        _DEPTH -= 1
        shutil.rmtree(path, ignore_errors=True)


def write_config(path, data):
    """Plain writer of the configuration files (independent of the reader of PyPEEC)."""
    if path.endswith((".yaml", ".yml")):
        with open(path, "w") as fid:
            yaml.safe_dump(data, fid, sort_keys=False, default_flow_style=None)
    elif path.endswith((".gz", ".gzip")):
        with gzip.open(path, "wt", encoding="utf-8") as fid:
            json.dump(data, fid)
    else:
        with open(path, "w") as fid:
            json.dump(data, fid)
    return path


def content(path):
    with open(path, "rb") as fid:
        return fid.read()


def tree(path):
    """All the files below a directory with their content."""
    out = {}
    for (root, dirs, names) in os.walk(path):
        for name in names:
            p = os.path.join(root, name)
            out[os.path.relpath(p, path)] = content(p)
        for name in dirs:
            out[os.path.relpath(os.path.join(root, name), path) + "/"] = b""
    return out


def plain(x):
    """Python data without NumPy types."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, np.ndarray):
        return plain(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def same_result(what, got, ref, tol=1e-7, skip=TIMING + NOISE):
    """Same result up to the timing entries (numbers with a tolerance relative to the largest one of the array)."""
    if isinstance(ref, dict):
        if not isinstance(got, dict) or set(got) != set(ref):
            raise Violation("%s: keys %s instead of %s" % (what, sorted(got) if isinstance(got, dict) else type(got), sorted(ref)))
        for key in ref:
            if key in ROUND:
                if np.shape(got[key]) != np.shape(ref[key]):
                    raise Violation("%s/%s: shape %s instead of %s" % (what, key, np.shape(got[key]), np.shape(ref[key])))
            elif key not in skip:
                same_result("%s/%s" % (what, key), got[key], ref[key], tol, skip)
        return
    if isinstance(ref, (list, tuple, np.ndarray)):
        if not isinstance(got, (list, tuple, np.ndarray)) or len(got) != len(ref):
            raise Violation("%s: %s instead of %s" % (what, str(got)[:80], str(ref)[:80]))
        try:
            (a, b) = (np.asarray(got), np.asarray(ref))
            numeric = a.dtype.kind in "biufc" and b.dtype.kind in "biufc"
        except ValueError:
            numeric = False
        if numeric:
            if a.shape != b.shape:
                raise Violation("%s: shape %s instead of %s" % (what, a.shape, b.shape))
            if a.dtype.kind in "biu" and b.dtype.kind in "biu":
                if not np.array_equal(a, b):
                    raise Violation("%s: %s instead of %s" % (what, a, b))
            elif a.size:
                if not np.array_equal(np.isnan(a), np.isnan(b)):
                    raise Violation("%s: undefined numbers at other places" % what)
                scale = float(np.max(np.abs(np.nan_to_num(b))))
                err = np.nan_to_num(np.abs(a - b))
                if np.max(err) > tol * scale + 1e-290 and np.max(err) > 1e-13 * scale:
                    raise Violation("%s: %s instead of %s" % (what, a.ravel()[np.argmax(err)], b.ravel()[np.argmax(err)]))
            return
        for i, (p, q) in enumerate(zip(got, ref)):
            same_result("%s[%d]" % (what, i), p, q, tol, skip)
        return
    if isinstance(ref, (float, complex, np.floating, np.complexfloating)) and not isinstance(ref, bool):
        if not isinstance(got, (int, float, complex, np.number)):
            raise Violation("%s: %r instead of %r" % (what, got, ref))
        if got != got and ref != ref:
            return
        if not abs(got - ref) <= tol * abs(ref) + 1e-290:
            raise Violation("%s: %r instead of %r" % (what, got, ref))
        return
    if plain(got) != plain(ref) or isinstance(plain(got), bool) != isinstance(plain(ref), bool):
        raise Violation("%s: %r instead of %r" % (what, got, ref))
