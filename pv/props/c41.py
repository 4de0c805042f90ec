"""C41: packaged data served by the command line (examples, documentation, version, logo)."""

import os
import subprocess
import sys
import zipfile

from hypothesis import strategies as st

from pv import api, boot, files
from pv.engine import HarnessError, Part, Prop

CODE = "import sys; from pypeec.script import run_script; run_script()"
NAMES = ["a.txt", "README.md", "with space.yaml", "é.json", "run", "x.tar.gz", "index.html", ".hidden", "A.TXT", "empty"]
FOLDERS = ["", "", "sub/", "sub/deep/er/", "my folder/", "ü/", "sub.d/"]
COMMANDS = ["examples", "documentation"]


@st.composite
def trees(draw):
    out = {}
    for _ in range(draw(st.integers(1, 8))):
        name = draw(st.sampled_from(FOLDERS)) + draw(st.sampled_from(NAMES))
        if any(k == name or k.startswith(name + "/") or name.startswith(k + "/") for k in out):
            continue
        out[name] = [draw(st.integers(0, 255)), draw(st.sampled_from([0, 1, 7, 300, 70000]))]
    return out


@st.composite
def cases(draw, tier):
    return {
        "command": draw(st.sampled_from(COMMANDS)), "trees": [draw(trees()), draw(trees())],
        "target": draw(st.sampled_from(["new", "new", "exists", "exists", "dot", "nested new", "file"])),
        "name": draw(st.sampled_from(["out", "my out", "ö", "-x", "a.b"])), "relative": draw(st.booleans()), "quiet": draw(st.booleans()),
        "fault": draw(st.sampled_from(["none", "none", "none", "absent", "garbage", "truncated"])), "store": draw(st.booleans()),
        "old": draw(st.booleans()), "folders": draw(st.booleans()), "twice": draw(st.booleans()),
    }


def payload(spec):
    return bytes((spec[0] + 31 * i + (i >> 8)) % 256 for i in range(spec[1]))


def package(tmp):
    """Package with its own data folder (links to the real files)."""
    root = os.path.join(tmp, "lib", "pypeec")
    data = os.path.join(root, "data")
    os.makedirs(data)
    src = os.path.join(boot.REPO, "pypeec")
    for name in os.listdir(src):
        if name not in ("data", "__pycache__"):
            os.symlink(os.path.join(src, name), os.path.join(root, name))
    for name in os.listdir(os.path.join(src, "data")):
        if name != "__pycache__" and not name.endswith(".zip"):
            os.symlink(os.path.join(src, "data", name), os.path.join(data, name))
    return data


def run(tmp, argv, cwd):
    env = dict(os.environ, PYTHONPATH=os.path.join(tmp, "lib"), PYTHONDONTWRITEBYTECODE="1")
    try:
        proc = subprocess.run([sys.executable, "-c", CODE] + argv, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, timeout=120)
    except subprocess.TimeoutExpired:
        raise HarnessError("the process takes too long")
    if proc.returncode < 0:
        raise HarnessError("the process ends with the signal %d" % -proc.returncode)
    return proc.returncode, proc.stdout.decode("utf-8", errors="replace"), proc.stderr.decode("utf-8", errors="replace")


def write(path, spec, store, folders):
    with zipfile.ZipFile(path, "w", zipfile.ZIP_STORED if store else zipfile.ZIP_DEFLATED) as fid:
        if folders:
            for name in sorted({os.path.dirname(k) for k in spec} - {""}):
                fid.writestr(name + "/", b"")
        for name, val in spec.items():
            fid.writestr(name, payload(val))


def check(case, ctx):
    with files.scratch() as tmp:
        data = package(tmp)
        for name, spec in zip(COMMANDS, case["trees"]):
            write(os.path.join(data, name + ".zip"), spec, case["store"], case["folders"])
        k = COMMANDS.index(case["command"])
        archive = os.path.join(data, case["command"] + ".zip")
        fault = case["fault"]
        if fault == "absent":
            os.remove(archive)
        elif fault == "garbage":
            with open(archive, "wb") as fid:
                fid.write(b"not an archive" * 20)
        elif fault == "truncated":
            raw = files.content(archive)
            with open(archive, "wb") as fid:
                fid.write(raw[:len(raw) // 2])
        work = os.path.join(tmp, "work")
        os.mkdir(work)
        spec = case["trees"][k]
        target = case["name"]
        if target.startswith("-") and case["relative"]:
            target = "x" + target
        if case["target"] == "dot":
            target = "."
        elif case["target"] == "nested new":
            target = os.path.join(target, "a", "b")
        full = os.path.normpath(os.path.join(work, target))
        if case["target"] in ("exists", "dot"):
            os.makedirs(full, exist_ok=True)
            with open(os.path.join(full, "mine.dat"), "wb") as fid:
                fid.write(b"keep")
            if case["old"] and spec:
                name = sorted(spec)[0]
                os.makedirs(os.path.dirname(os.path.join(full, name)), exist_ok=True)
                with open(os.path.join(full, name), "wb") as fid:
                    fid.write(b"an old version which is longer than the new one" * 5)
        elif case["target"] == "file":
            with open(full, "wb") as fid:
                fid.write(b"a file")
        before = files.tree(work)
        kept = files.tree(os.path.join(tmp, "lib"))
        argv = ["-q"] * case["quiet"] + [case["command"], target if case["relative"] else full]
        for _ in range(2 if case["twice"] else 1):
            (code, _, err) = run(tmp, argv, work)
            after = files.tree(work)
            if fault == "none" and case["target"] != "file":
                api.expect(code == 0, "extracting the %s ends with %d\n%s" % (case["command"], code, err[-800:]))
                want = dict(before)
                want.update({os.path.normpath(os.path.join(os.path.relpath(full, work), name)): payload(val) for name, val in spec.items()})
                bad = sorted(k for k in set(want) | set(after) if want.get(k) != after.get(k) and (k in want or not k.endswith("/")))
                api.expect(not bad, "extracted files which are missing, different or unexpected: %s" % bad)
            else:
                api.expect(code not in (0, None), "extracting the %s with the fault %s/%s ends with %d" % (case["command"], fault, case["target"], code))
                changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and not k.endswith("/"))
                api.expect(fault == "truncated" or not changed, "a failing extraction changes %s" % changed)
                api.expect(all(after.get(k) == v for k, v in before.items() if fault != "truncated"), "a failing extraction changes a file")
        api.expect(files.tree(os.path.join(tmp, "lib")) == kept, "the extraction changes the package")
        ctx.label(case["command"], fault, case["target"])


@st.composite
def infos(draw, tier):
    return {
        "kind": draw(st.sampled_from(["version", "version", "logo", "quiet"])), "short": draw(st.booleans()), "absent": draw(st.booleans()),
        "version": draw(st.sampled_from(["5.7.1", "0.0.1.dev3", "10.20.30", "1.0rc1"])),
    }


def check_info(case, ctx):
    with files.scratch() as tmp:
        data = package(tmp)
        logo = "== generated logo %s ==" % case["version"]
        for name, txt in (("version.txt", case["version"]), ("pypeec.txt", logo)):
            os.remove(os.path.join(data, name)) if os.path.lexists(os.path.join(data, name)) else None
            if not (name == "version.txt" and case["absent"]):
                with open(os.path.join(data, name), "w") as fid:
                    fid.write(txt)
        if case["kind"] == "version":
            (code, out, err) = run(tmp, ["-v" if case["short"] else "--version"], tmp)
            want = "PyPEEC " + ("x.x.x" if case["absent"] else case["version"])
            api.expect(code == 0 and out.strip() == want, "version %r instead of %r (exit code %d)" % (out, want, code))
        else:
            quiet = case["kind"] == "quiet"
            with zipfile.ZipFile(os.path.join(data, "examples.zip"), "w") as fid:
                fid.writestr("a.txt", b"a")
            (code, out, err) = run(tmp, (["-q" if case["short"] else "--quiet"] if quiet else []) + ["examples", os.path.join(tmp, "out")], tmp)
            api.expect(code == 0, "exit code %d" % code)
            api.expect((logo in err) == (not quiet), "the logo is %s" % ("shown although quiet" if quiet else "not shown"))
        ctx.label(case["kind"], "version file absent" if case["absent"] else "version file")


PROP = Prop("C41", [
    Part("extract", cases, check, quick=120, thorough=2500),
    Part("info", infos, check_info, quick=24, thorough=300),
], rule="a package with generated archives (nested folders, special names, empty and large files) in its data folder, extracted by the command line in a "
        "fresh process into new, existing or impossible targets; missing and damaged archives; version and logo files", quick_s=40)
