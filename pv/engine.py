"""
Search engine of the checks.

A property is a list of parts. A part has a Hypothesis strategy that makes JSON-able cases and a
function that decides one case against an oracle and raises Violation when the property is broken.
The parent process starts several workers, each worker runs seeded Hypothesis batches on all the
parts until the number of cases or the time is used up, and shrinks the first failure. The parent
confirms the shrunk case in a fresh process, stores it as replay file and writes the evidence.
"""

import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from pv import boot

SHRINK_SECONDS = float(os.environ.get("PV_SHRINK", "45"))
HANG_SECONDS = float(os.environ.get("PV_HANG", "150"))
MAX_HISTORY = 2000
HISTORY_SECONDS = 120.0


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """The check itself cannot decide (never reported as a violation)."""


class Part:
    def __init__(self, name, strategy, check, quick=400, thorough=8000, rule=None, known=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.rule = rule


class Prop:
    def __init__(self, pid, parts, rule, quick_s=36.0, thorough_s=600.0, workers=8, assumptions=(), batch=60):
        self.pid = pid
        self.parts = parts
        self.rule = rule
        self.quick_s = quick_s
        self.thorough_s = thorough_s
        self.workers = workers
        self.assumptions = list(assumptions)
        self.batch = batch


class Ctx:
    """Handed to a check: records what a case exercised and known findings."""

    def __init__(self, known):
        self.known_list = known
        self.labels = []
        self.is_trivial = False
        self.known_hit = None

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def trivial(self, why="trivial"):
        self.is_trivial = True
        self.labels.append("trivial:" + why)

    def fail(self, msg, key=None):
        """Report a violation, unless it is the listed known finding `key`."""
        if key is not None and key in self.known_list:
            self.known_hit = key
            raise _Known(key)
        raise Violation(msg)


class _Known(Exception):
    pass


def case_hash(part, case):
    txt = json.dumps([part, case], sort_keys=True)
    return hashlib.sha1(txt.encode()).hexdigest()[:16]


def load_known(pid):
    """Keys of the unrepaired findings of this property."""
    try:
        with open(os.path.join(boot.VERIF, "known_findings.json")) as fid:
            data = json.load(fid)
    except FileNotFoundError:
        return {}
    return {f["key"]: f for f in data.get("findings", []) if f["property"] == pid}


def load_prop(pid):
    mod = importlib.import_module("pv.props." + pid.lower())
    prop = mod.PROP
    assert prop.pid == pid
    return prop


def run_case(part, case, known):
    """Decide one case. Return the context; Violation is raised for a broken property."""
    ctx = Ctx(known)
    try:
        part.check(case, ctx)
    except _Known:
        pass
    except (Violation, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except OSError as ex:
        if ex.errno in (12, 24, 28, 122):
            raise HarnessError("resource problem: %r" % ex)
        raise Violation("unexpected %s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc(limit=-6)))
    except Exception as ex:
        raise Violation("unexpected %s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc(limit=-6)))
    return ctx


# ---------------------------------------------------------------------------------------------
# worker
# ---------------------------------------------------------------------------------------------

def _corpus(pid):
    folder = os.path.join(boot.VERIF, "corpus", pid)
    out = []
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            if name.endswith(".json"):
                with open(os.path.join(folder, name)) as fid:
                    data = json.load(fid)
                out.append((name, data["part"], data["case"]))
    return out


class _State:
    def __init__(self):
        self.n = 0
        self.labels = {}
        self.hashes = {}
        self.samples = []
        self.known = {}
        self.failure = None
        self.error = None
        self.per_part = {}
        # cases of this process, for violations that depend on the earlier ones
        self.first = None
        self.trace = collections.deque(maxlen=MAX_HISTORY)


def worker_main(pid, tier, seed, index, n_worker, folder):
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    import hypothesis.internal.conjecture.engine as hce
    hce.MAX_SHRINKING_SECONDS = SHRINK_SECONDS

    prop = load_prop(pid)
    known = load_known(pid)
    st = _State()
    cur = os.path.join(folder, "current_%d.json" % index)
    limit = prop.quick_s if tier == "quick" else prop.thorough_s
    limit = float(os.environ.get("PV_SECONDS", limit))

    def execute(part, case):
        with open(cur, "w") as fid:
            json.dump({"part": part.name, "case": case, "t": time.time()}, fid)
        st.trace.append((part.name, case))
        try:
            ctx = run_case(part, case, known)
        except Violation:
            if st.first is None:
                st.first = {"part": part.name, "case": case, "history": list(st.trace)[:-1]}
            raise
        st.n += 1
        st.per_part[part.name] = st.per_part.get(part.name, 0) + 1
        for lab in set(ctx.labels):
            lab = part.name + ":" + lab
            st.labels[lab] = st.labels.get(lab, 0) + 1
        if ctx.known_hit is not None:
            st.known[ctx.known_hit] = st.known.get(ctx.known_hit, 0) + 1
        if not ctx.is_trivial:
            hsh = case_hash(part.name, case)
            st.hashes[hsh] = 1
            n_part = sum(1 for s in st.samples if s["part"] == part.name)
            if n_part < 1 or (n_part < 3 and st.n % 37 == 0):
                st.samples.append({"part": part.name, "labels": sorted(set(ctx.labels)), "case": case})

    def fail(part, case, ex):
        st.failure = {"part": part.name, "case": case, "message": str(ex)}

    def run_batch(part, n_case, bseed, t_end):
        box = {"fail": {}, "best": None, "t0": None}

        def test(case):
            now = time.monotonic()
            if box["best"] is None and now > t_end:
                return
            hsh = case_hash(part.name, case)
            if hsh in box["fail"]:
                raise Violation(box["fail"][hsh])
            if box["t0"] is not None and now - box["t0"] > SHRINK_SECONDS:
                return
            try:
                execute(part, case)
            except Violation as ex:
                msg = str(ex)
                box["fail"][hsh] = msg
                if box["t0"] is None:
                    box["t0"] = now
                size = len(json.dumps(case))
                if box["best"] is None or size <= box["best"][0]:
                    box["best"] = (size, case, msg)
                raise

        fct = hypothesis.given(part.strategy(tier))(test)
        fct = settings(
            max_examples=n_case, database=None, deadline=None, derandomize=False,
            suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
            report_multiple_bugs=False, print_blob=False,
        )(fct)
        fct = hypothesis.seed(bseed)(fct)
        try:
            fct()
        except (HarnessError, MemoryError, KeyboardInterrupt):
            raise
        except BaseException:
            if box["best"] is None:
                raise
        if box["best"] is not None:
            fail(part, box["best"][1], box["best"][2])
            return True
        return False

    t_start = time.monotonic()
    t_end = t_start + limit
    try:
        by_name = {p.name: p for p in prop.parts}
        done = False
        # regression cases first (spread over the workers)
        for i, (name, pname, case) in enumerate(_corpus(pid)):
            if i % n_worker != index:
                continue
            try:
                execute(by_name[pname], case)
            except Violation as ex:
                fail(by_name[pname], case, ex)
                done = True
                break
        # generated cases
        left = {}
        for p in prop.parts:
            total = p.quick if tier == "quick" else p.thorough
            left[p.name] = -(-total // n_worker)
        rnd = 0
        while not done and time.monotonic() < t_end and any(v > 0 for v in left.values()):
            for k, part in enumerate(prop.parts):
                if left[part.name] <= 0 or time.monotonic() >= t_end:
                    continue
                share = min(left[part.name], max(5, int(prop.batch * (part.quick if tier == "quick" else part.thorough)
                                                        / max(1, max((p.quick if tier == "quick" else p.thorough) for p in prop.parts)))))
                bseed = int(hashlib.sha1(("%d/%d/%d/%d/%s" % (seed, index, rnd, k, pid)).encode()).hexdigest()[:12], 16)
                left[part.name] -= share
                if run_batch(part, share, bseed, t_end):
                    done = True
                    break
            rnd += 1
    except Exception:
        st.error = traceback.format_exc()

    out = {
        "n": st.n, "labels": st.labels, "hashes": list(st.hashes), "samples": st.samples[:8], "known": st.known,
        "failure": st.failure, "first": st.first if st.failure is not None else None, "error": st.error, "per_part": st.per_part,
    }
    tmp = os.path.join(folder, "result_%d.tmp" % index)
    with open(tmp, "w") as fid:
        json.dump(out, fid)
    os.rename(tmp, os.path.join(folder, "result_%d.json" % index))
    try:
        os.remove(cur)
    except OSError:
        pass


# ---------------------------------------------------------------------------------------------
# parent
# ---------------------------------------------------------------------------------------------

def _spawn(args, log, folder):
    env = dict(os.environ)
    env.update(boot.ENV)
    # the parent removes what a killed worker leaves
    env["TMPDIR"] = folder
    return subprocess.Popen([sys.executable, os.path.join(boot.VERIF, "run_check.py")] + args,
                            stdout=log, stderr=log, env=env, start_new_session=True, cwd=boot.VERIF)


def _kill(proc):
    try:
        os.killpg(proc.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        proc.wait(timeout=10)
    except subprocess.TimeoutExpired:
        pass


def _replay_process(pid, path, folder):
    """Run a replay in a fresh process: 'ok', 'violation', 'crash', 'hang' or 'error'."""
    with open(os.path.join(folder, "replay.log"), "w") as log:
        proc = _spawn([pid, "--replay", path], log, folder)
        try:
            code = proc.wait(timeout=HANG_SECONDS)
        except subprocess.TimeoutExpired:
            _kill(proc)
            return "hang"
    if code == 0:
        return "ok"
    if code == 1:
        return "violation"
    if code < 0 and -code in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
        return "crash"
    return "error"


def _history(pid, first, folder):
    """
    The violation does not occur in a fresh process: find a short sequence of earlier cases that leads to it.
    None if the violation does not occur again (or takes too long).
    """
    t_end = time.time() + HISTORY_SECONDS
    path = os.path.join(folder, "history.json")

    def fails(history):
        if time.time() > t_end:
            return False
        with open(path, "w") as fid:
            json.dump({"property": pid, "part": first["part"], "case": first["case"], "history": history}, fid)
        return _replay_process(pid, path, folder) == "violation"

    (full, size, hist) = (first["history"], 1, None)
    while hist is None and full:
        if fails(full[-size:]):
            hist = full[-size:]
        elif size >= len(full):
            return None
        size = min(len(full), 4 * size)
    step = (len(hist) + 1) // 2 if hist else 0
    while step:
        k = 0
        while k < len(hist) and len(hist) > 1:
            less = hist[:k] + hist[k + step:]
            if less and fails(less):
                hist = less
            else:
                k += step
        step //= 2
    return hist


def _write_replay(pid, part, case, message, history=()):
    folder = os.path.join(boot.VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "%s-%s.json" % (pid, case_hash(part, case)))
    with open(path, "w") as fid:
        json.dump(dict({"property": pid, "part": part, "case": case, "message": message}, **({"history": history} if history else {})), fid, indent=1)
    return path


def parent_main(pid, tier, seed):
    t0 = time.time()
    prop = load_prop(pid)
    known = load_known(pid)
    folder = tempfile.mkdtemp(prefix="pv_%s_" % pid)
    n_worker = int(os.environ.get("PV_WORKERS", min(prop.workers, os.cpu_count() or 1)))
    limit = prop.quick_s if tier == "quick" else prop.thorough_s
    limit = float(os.environ.get("PV_SECONDS", limit))
    log = open(os.path.join(folder, "workers.log"), "w")
    procs = []
    results = {}
    violation = None
    first = None
    error = None
    extra = []
    try:
        for i in range(n_worker):
            procs.append(_spawn([pid, "--worker", str(i), "--n-worker", str(n_worker), "--folder", folder,
                                 "--tier", tier, "--seed", str(seed)], log, folder))
        alive = set(range(n_worker))
        hard_end = time.time() + limit + SHRINK_SECONDS + 2 * HANG_SECONDS
        while alive:
            time.sleep(0.05)
            for i in sorted(alive):
                res = os.path.join(folder, "result_%d.json" % i)
                code = procs[i].poll()
                if code is not None:
                    alive.discard(i)
                    if os.path.isfile(res):
                        with open(res) as fid:
                            results[i] = json.load(fid)
                        if results[i]["failure"] is not None and violation is None:
                            violation = results[i]["failure"]
                            first = results[i]["first"]
                        if results[i]["error"] is not None and error is None:
                            error = results[i]["error"]
                    else:
                        extra.append(("died", i, code))
                    continue
                cur = os.path.join(folder, "current_%d.json" % i)
                try:
                    age = time.time() - os.path.getmtime(cur)
                except OSError:
                    age = 0.0
                if age > HANG_SECONDS or time.time() > hard_end:
                    _kill(procs[i])
                    alive.discard(i)
                    extra.append(("hang", i, None))
            if violation is not None:
                break
        for i in list(alive):
            _kill(procs[i])
        # workers that crashed or hung: only a reproducible crash or hang of the case counts
        for (kind, i, code) in extra:
            if violation is not None:
                break
            cur = os.path.join(folder, "current_%d.json" % i)
            try:
                with open(cur) as fid:
                    data = json.load(fid)
            except (OSError, ValueError):
                error = error or "worker %d ended without a result (%s, %s)" % (i, kind, code)
                continue
            path = os.path.join(folder, "suspect.json")
            with open(path, "w") as fid:
                json.dump({"property": pid, "part": data["part"], "case": data["case"]}, fid)
            verdict = _replay_process(pid, path, folder)
            if verdict in ("crash", "hang", "violation"):
                violation = {"part": data["part"], "case": data["case"], "message": "the run of this case ends in: " + verdict}
            else:
                error = error or "worker %d ended (%s, %s), case gives %s" % (i, kind, code, verdict)
        log.close()

        # evidence
        labels, hashes, samples, n, per_part, known_hits = {}, set(), [], 0, {}, {}
        for res in results.values():
            n += res["n"]
            hashes.update(res["hashes"])
            samples.extend(res["samples"])
            for k, v in res["labels"].items():
                labels[k] = labels.get(k, 0) + v
            for k, v in res["per_part"].items():
                per_part[k] = per_part.get(k, 0) + v
            for k, v in res["known"].items():
                known_hits[k] = known_hits.get(k, 0) + v
        pick, seen = [], {}
        for s in samples:
            if seen.get(s["part"], 0) < 2:
                seen[s["part"]] = seen.get(s["part"], 0) + 1
                pick.append(s)
        evidence = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": n, "distinct_nontrivial": len(hashes), "rule": prop.rule, "samples": pick,
                "per_part": per_part, "labels": dict(sorted(labels.items())), "workers": n_worker,
                "known_findings_hit": known_hits,
            },
            "assumptions": prop.assumptions,
            "wall_s": round(time.time() - t0, 2),
            "violations": 0 if violation is None else 1,
        }
        os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(boot.VERIF, "evidence", pid + ".json"), "w") as fid:
            json.dump(evidence, fid, indent=1)

        for key, f in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
        if violation is not None:
            path = _write_replay(pid, violation["part"], violation["case"], violation["message"])
            verdict = _replay_process(pid, path, folder)
            if verdict == "ok" and first is not None:
                short = _history(pid, first, folder)
                if short is not None:
                    violation = dict(violation, part=first["part"], case=first["case"])
                    path = _write_replay(pid, first["part"], first["case"], violation["message"], short)
                    verdict = "violation after %d other cases in the same process" % len(short)
            print("case (%s, fresh process: %s): %s" % (violation["part"], verdict, json.dumps(violation["case"])[:2000]))
            print(violation["message"][:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if error is not None:
            with open(os.path.join(folder, "workers.log")) as fid:
                sys.stderr.write(fid.read()[-3000:])
            sys.stderr.write("CHECK ERROR %s: %s\n" % (pid, error))
            return 3
        if n == 0 or len(hashes) == 0:
            sys.stderr.write("CHECK ERROR %s: nothing was explored\n" % pid)
            return 3
        print("OK property=%s evaluations=%d distinct_nontrivial=%d wall_s=%.1f" % (pid, n, len(hashes), time.time() - t0))
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                _kill(p)
        shutil.rmtree(folder, ignore_errors=True)


def replay_main(pid, path):
    prop = load_prop(pid)
    with open(path) as fid:
        data = json.load(fid)
    by_name = {p.name: p for p in prop.parts}
    part = by_name[data["part"]]
    for (name, case) in data.get("history", []):
        try:
            run_case(by_name[name], case, load_known(pid))
        except Violation:
            pass
    try:
        ctx = run_case(part, data["case"], load_known(pid))
    except Violation as ex:
        print(str(ex)[:4000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if ctx.known_hit is not None:
        print("KNOWN-FINDING: property=%s %s" % (pid, ctx.known_hit))
    print("OK property=%s replay=%s labels=%s" % (pid, path, sorted(set(ctx.labels))))
    return 0


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("pid")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--replay")
    parser.add_argument("--worker", type=int)
    parser.add_argument("--n-worker", type=int, default=1)
    parser.add_argument("--folder")
    args = parser.parse_args(argv)
    if args.replay is not None:
        return replay_main(args.pid, args.replay)
    if args.worker is not None:
        worker_main(args.pid, args.tier, args.seed, args.worker, args.n_worker, args.folder)
        return 0
    return parent_main(args.pid, args.tier, args.seed)
