#!/usr/bin/env python3
"""
Evaluate the planted bugs of /verif/seeded in scratch copies (never in /repo):
the patch applies, the demonstration passes without it and fails with it, the stable tests pass
with it, and the quick check of the property reports it.

usage: plant.py [--no-tests] [--no-check] [id ...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd, env=None, timeout=900):
    try:
        res = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return res.returncode, res.stdout
    except subprocess.TimeoutExpired:
        return -99, "timeout"


def stable_tests(copy, work):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", QT_QPA_PLATFORM="offscreen", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", VTK_SMP_MAX_THREADS="1", ALLOW_PLOTTING="true", TEST_TOL="1e-4",
               TEST_CHECK="1", TEST_SET="0", TMPDIR=work, PYTHONHASHSEED="0", PYTHONPATH=copy)
    xml = os.path.join(work, "junit.xml")
    run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "6", "--dist", "worksteal", "--timeout=400",
         "-o", "junit_family=xunit2", "--junitxml=" + xml, "tests"], copy, env)
    out = os.path.join(work, "out.json")
    run(["python3", "/opt/vp/results.py", out, "junit:" + xml], copy)
    got = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("stable", base.get("passed", base))
    passed = set(got.get("passed", []))
    return sorted(set(names) - passed)


def evaluate(bid, tests, check):
    folder = os.path.join(HERE, "seeded", bid)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    work = tempfile.mkdtemp(prefix="plant_")
    copy = os.path.join(work, "repo")
    msg = []
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        lay = os.path.join(work, "lay")
        shutil.copytree(folder, lay, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        demo = ["bash", os.path.join(lay, "demo.sh")]
        (code, out) = run(demo, copy, timeout=300)
        if code != 0:
            msg.append("DEMO FAILS UNPATCHED %s" % out[-500:])
        (code, out) = run(["git", "apply", os.path.join(folder, "patch.diff")], copy)
        if code != 0:
            return "%s: PATCH %s" % (bid, out)
        (code, out) = run(demo, copy, timeout=300)
        msg.append("demo ok" if code != 0 else "DEMO PASSES PATCHED")
        if code != 0 and "AssertionError" not in out:
            msg.append("(demo: %s)" % out.strip().split("\n")[-1][:150])
        if check:
            env = dict(os.environ, PV_REPO=copy, VERIF_SEED="1", PV_SHRINK="10")
            (code, out) = run(["/opt/venv/bin/python", "run_check.py", meta["property"], "--tier", "quick"], HERE, env)
            hit = code == 1 and ("VIOLATION property=" + meta["property"]) in out
            msg.append("caught by " + meta["property"] if hit else "MISSED by %s (%s) %s" % (meta["property"], code, out.strip()[-200:]))
        if tests:
            bad = stable_tests(copy, work)
            msg.append("tests ok" if not bad else "TESTS FAIL %s" % bad)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return "%s: %s" % (bid, "; ".join(msg))


if __name__ == "__main__":
    args = sys.argv[1:]
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    for bid in ids:
        txt = evaluate(bid, "--no-tests" not in args, "--no-check" not in args)
        print(txt, flush=True)
        if "--no-check" not in args:
            # the table of DESIGN.md is made from this file
            path = os.path.join(HERE, "tools", "plant_results.json")
            res = json.load(open(path)) if os.path.isfile(path) else {}
            res[bid] = "caught" if "caught by" in txt else "missed"
            json.dump(res, open(path, "w"), indent=1, sort_keys=True)
