"""C37: conversion of GERBER files into images."""

import copy
import json
import os
import re
import shutil
import stat
import tempfile

from hypothesis import strategies as st

from pv import api
from pv.engine import Part, Prop, Violation

# stand-ins for the external tools: the image is a record of what the tool was asked to do
GERBV = """#!/bin/sh
out=""
for arg in "$@"; do
    printf 'gerbv\\t%s\\n' "$arg" >> "$PV_TOOL_LOG"
    [ "$prev" = "-o" ] && out="$arg"
    [ "$prev" = "--output" ] && out="$arg"
    [ "$prev" = "-p" ] && prj="$arg"
    [ "$prev" = "--project" ] && prj="$arg"
    prev="$arg"
done
[ -f "$prj" ] || exit 1
{ printf 'render\\n'; for arg in "$@"; do printf 'arg\\t%s\\n' "$arg"; done; printf 'project\\n'; cat "$prj"; printf 'end\\n'; } > "$out"
"""
MOGRIFY = """#!/bin/sh
last=""
for arg in "$@"; do last="$arg"; done
[ -f "$last" ] || exit 1
{ printf 'mogrify\\n'; for arg in "$@"; do printf 'arg\\t%s\\n' "$arg"; done; printf 'end\\n'; } >> "$last"
"""
NAMES = ["front", "back", "via", "src", "drill", "l-1", "top.2", "it's", "a b", "$HOME", "x;y"]
FILES = ["pcb-front.gbr", "pcb-back.gbr", "pcb-VIA.drl", "a b.gbr", "sub/edge.gbr", "pcb-PTH.drl"]


@st.composite
def cases(draw, tier):
    def color():
        return [draw(st.sampled_from([0, 1, 2, 127, 128, 254, 255])) for _ in range(3)]

    gerbers = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    colors = draw(st.lists(st.sampled_from(["none", "copper", "sink", "x"]), min_size=1, max_size=4, unique=True))
    stack = {}
    for tag in draw(st.lists(st.sampled_from(NAMES), min_size=draw(st.sampled_from([0, 1, 1, 1])), max_size=3, unique=True)):
        stack[tag] = [{"gerber": draw(st.sampled_from(gerbers)), "color": draw(st.sampled_from(colors))}
                      for _ in range(draw(st.sampled_from([1, 2, 3, 4, 4, 7, 12])))]
    return {
        "gerber": {
            "gerber_edge": draw(st.sampled_from(FILES)), "color_background": color(), "color_edge": color(),
            "color_def": {c: color() for c in colors}, "gerber_def": {g: draw(st.sampled_from(FILES)) for g in gerbers},
        },
        "margin": draw(st.sampled_from([0.0, 0.05, 0.1, 0.25, 1.0, 2.5])),
        "oversampling": draw(st.sampled_from([1.0, 1.0, 2.0, 4.0, 3.0, 1.5, 2, 10.0])),
        "voxel": draw(st.sampled_from([17.0e-6, 25.4e-6, 50e-6, 100e-6, 35e-6, 1e-3])),
        "folders": [draw(st.sampled_from(["gerber", "in put", "a/b"])), draw(st.sampled_from(["png", "out put", "c/d", "gerber", "o'ne"]))],
        "relative": draw(st.booleans()), "stale": draw(st.booleans()),
        "stack": stack,
    }


def parse_project(txt):
    """Layers and render type of a gerbv project."""
    layers = {}
    order = []
    for block in re.split(r"\(define-layer!", txt)[1:]:
        number = int(re.match(r"\s*(-?\d+)", block).group(1))
        layer = {}
        m = re.search(r"\(cons\s+'filename\s+\"([^\"]*)\"\s*\)", block)
        layer["filename"] = m.group(1) if m else None
        m = re.search(r"\(cons\s+'visible\s+#([tf])\s*\)", block)
        layer["visible"] = None if m is None else m.group(1) == "t"
        m = re.search(r"\(cons\s+'color\s+#\(\s*(\d+)\s+(\d+)\s+(\d+)\s*\)\s*\)", block)
        layer["color"] = [int(m.group(i)) for i in (1, 2, 3)] if m else None
        m = re.search(r"\(cons\s+'alpha\s+#\(\s*(\d+)\s*\)\s*\)", block)
        layer["alpha"] = int(m.group(1)) if m else None
        if number in layers:
            raise Violation("the project has two layers with the number %d" % number)
        layers[number] = layer
        order.append(number)
    m = re.search(r"\(set-render-type!\s+(\d+)\s*\)", txt)
    return layers, int(m.group(1)) if m else None


def option(args, names):
    for (a, b) in zip(args, args[1:] + [None]):
        if a in names:
            return b
        for n in names:
            if n.startswith("--") and a.startswith(n + "="):
                return a[len(n) + 1:]
    return None


def parse_image(txt):
    """Steps recorded in an image."""
    steps = []
    lines = txt.split("\n")
    i = 0
    while i < len(lines) and lines[i]:
        kind = lines[i]
        args = []
        i += 1
        while lines[i].startswith("arg\t"):
            args.append(lines[i][4:])
            i += 1
        body = []
        while lines[i] != "end":
            body.append(lines[i])
            i += 1
        i += 1
        steps.append((kind, args, "\n".join(body)))
    return steps


def check(case, ctx):
    from pypeec.utils import gerber
    stack = case["stack"]
    if not stack:
        ctx.trivial("no layer")
    ctx.label("%d images" % len(stack), "oversampling" if case["oversampling"] != 1 else "direct",
              "spaces" if any(" " in f for f in case["folders"]) else "plain")
    root = os.path.realpath(tempfile.mkdtemp(prefix="pv_gerber_"))
    cwd = os.getcwd()
    env = {k: os.environ.get(k) for k in ("PATH", "PV_TOOL_LOG")}
    try:
        tools = os.path.join(root, "tools")
        os.mkdir(tools)
        for (name, txt) in (("gerbv", GERBV), ("mogrify", MOGRIFY)):
            path = os.path.join(tools, name)
            with open(path, "w") as fid:
                fid.write(txt)
            os.chmod(path, stat.S_IRWXU)
        work = os.path.join(root, "work")
        os.mkdir(work)
        (f_in, f_out) = (os.path.join(work, f) for f in case["folders"])
        for f in (f_in, f_out):
            os.makedirs(f, exist_ok=True)
        kept = {}
        if case["stale"]:
            # other files of the folder stay, old images are replaced
            for name in ["other.png", "notes.gvp.txt"] + [tag + ".png" for tag in stack]:
                with open(os.path.join(f_out, name), "w") as fid:
                    fid.write("stale\n")
            kept = {"other.png": "stale\n", "notes.gvp.txt": "stale\n"}
        data_gerber = {k: copy.deepcopy(v) for k, v in case["gerber"].items()}
        data_export = {
            "margin": case["margin"], "oversampling": case["oversampling"], "voxel": case["voxel"],
            "folder_gerber": case["folders"][0] if case["relative"] else f_in,
            "folder_png": case["folders"][1] if case["relative"] else f_out,
        }
        args = (data_export, data_gerber, copy.deepcopy(stack))
        keep = copy.deepcopy(args)
        os.environ["PATH"] = tools + os.pathsep + (env["PATH"] or "")
        os.environ["PV_TOOL_LOG"] = os.path.join(root, "log")
        os.chdir(work)
        try:
            api.must("get_convert", gerber.get_convert, *args)
        finally:
            os.chdir(cwd)
        api.same("arguments of get_convert", args, keep)
        # files
        files = {}
        for (folder, _, names) in os.walk(work):
            for name in names:
                path = os.path.join(folder, name)
                with open(path) as fid:
                    files[os.path.relpath(path, f_out)] = fid.read()
        want = sorted(list(kept) + [tag + ".png" for tag in stack])
        if sorted(files) != want:
            raise Violation("the files are %s instead of %s" % (sorted(files), want))
        for name, txt in kept.items():
            if files[name] != txt:
                raise Violation("the unrelated file %s is changed" % name)
        # images
        g = case["gerber"]
        for tag, layers in stack.items():
            txt = files[tag + ".png"]
            if not txt.startswith("render\n"):
                raise Violation("the image %s is not rendered" % tag)
            steps = parse_image(txt)
            (_, a, project) = steps[0]
            exp = {0: (os.path.join(f_in, g["gerber_edge"]), g["color_edge"])}
            for i, layer in enumerate(layers):
                exp[i + 1] = (os.path.join(f_in, g["gerber_def"][layer["gerber"]]), g["color_def"][layer["color"]])
            (got, render) = parse_project(project)
            if sorted(got) != sorted([-1] + list(exp)):
                raise Violation("image %s: the layers are %s instead of %s" % (tag, sorted(got), sorted([-1] + list(exp))))
            for number, (filename, color) in exp.items():
                layer = got[number]
                if os.path.normpath(layer["filename"] or "") != os.path.normpath(filename):
                    raise Violation("image %s: layer %d shows %s instead of %s" % (tag, number, layer["filename"], filename))
                if layer["color"] != [257 * c for c in color]:
                    raise Violation("image %s: layer %d has the color %s instead of 257*%s" % (tag, number, layer["color"], color))
                if layer["visible"] is not True or layer["alpha"] != 65535:
                    raise Violation("image %s: layer %d is not visible and opaque: %s" % (tag, number, layer))
            if got[-1]["color"] != [257 * c for c in g["color_background"]]:
                raise Violation("image %s: the background is %s instead of 257*%s" % (tag, got[-1]["color"], g["color_background"]))
            if render != 3:
                raise Violation("image %s: render type %s" % (tag, render))
            if option(a, ("-x", "--export")) != "png":
                raise Violation("image %s: the export type is %s" % (tag, option(a, ("-x", "--export"))))
            dpi = float(option(a, ("-D", "--dpi")) or "nan")
            if not abs(dpi - 25.4e-3 * case["oversampling"] / case["voxel"]) <= 0.5001:
                raise Violation("image %s: the resolution is %s" % (tag, dpi))
            border = float(option(a, ("-B", "--border")) or "nan")
            if not abs(border - 100 * case["margin"]) < 1.0:
                raise Violation("image %s: the border is %s" % (tag, border))
            # trimming and downsampling
            ops = []
            for (kind, a, _) in steps[1:]:
                if "-trim" in a:
                    ops.append("trim")
                if option(a, ("-sample",)):
                    val = option(a, ("-sample",))
                    ok = val.endswith("%") and abs(float(val[:-1]) - 100 / case["oversampling"]) <= 0.00501
                    ops.append("sample" if ok else "sample %s" % val)
            if ops not in (["trim", "sample"], ["trim"] if case["oversampling"] == 1 else None):
                raise Violation("image %s: the image is processed with %s" % (tag, json.dumps(ops)))
    finally:
        os.chdir(cwd)
        for (k, v) in env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(root, ignore_errors=True)


PROP = Prop("C37", [
    Part("convert", cases, check, quick=3600, thorough=50000),
], rule="random layer stacks, colours, files, folders (also with spaces, relative and absolute, with old files) and resolutions; trivial without layer",
   assumptions=["gerbv and mogrify are not installed: stand-ins record the project and the operations in place of the image"])
