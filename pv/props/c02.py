"""C02: PNG layer stacks."""

import copy
import os

from hypothesis import strategies as st

from pv import api, files
from pv.engine import Part, Prop

COLORS = [(255, 255, 255, 255), (255, 0, 0, 255), (0, 255, 0, 255), (0, 0, 255, 255), (0, 0, 0, 255), (255, 0, 0, 128),
          (254, 0, 0, 255), (0, 0, 0, 0), (128, 128, 128, 255), (255, 0, 0, 0), (255, 255, 255, 0)]
NAMES = ["b", "a", "dom", "Z"]


@st.composite
def stacks(draw, tier):
    hi = 6 if tier == "quick" else 12
    size = [draw(st.integers(1, hi)), draw(st.integers(1, hi))]
    n_dom = draw(st.integers(1, 4))
    # colour 0 is background; every other colour goes to at most one domain
    owner = [-1] + [draw(st.integers(-1, n_dom - 1)) for _ in COLORS[1:]]
    for (k, i) in enumerate(draw(st.permutations(range(1, len(COLORS))))[:n_dom]):
        owner[i] = k
    tall = draw(st.integers(0, 7)) == 0
    n_lay = draw(st.integers(5, 9)) if tall else draw(st.integers(1, 3))
    if tall:
        size = [min(3, v) for v in size]
    layers = []
    for _ in range(n_lay):
        n_img = draw(st.sampled_from([1, 1, 2, 3]))
        imgs = []
        for q in range(n_img):
            palette = draw(st.sampled_from([list(range(len(COLORS))), [0, 1, 2], [0, 0, 0, 0, 0, 1, 3], [0, 1, 9], [7, 10, 4], [0, 2, 7]])) if q == 0 else [0] * 9 + [1, 2]
            pix = [draw(st.sampled_from(palette)) for _ in range(size[0] * size[1])]
            imgs.append({"pix": pix, "mode": draw(st.sampled_from(["RGBA", "RGB", "P", "P", "L", "1", "key"])), "same": draw(st.integers(0, 9)) == 0})
        layers.append({"n": draw(st.sampled_from([1, 2, 3, 3, 8])), "imgs": imgs, "again": draw(st.sampled_from([-1, -1, -1, 0, 1]))})
    return {
        "size": size, "d": [draw(st.sampled_from([1.0, 0.5, 1e-3])) for _ in range(3)],
        "c": [draw(st.sampled_from([0.0, 2.0, -1e-3])) for _ in range(3)],
        "owner": owner, "n_dom": n_dom, "layers": layers, "twice": draw(st.sampled_from([False, False, True])), "names": draw(st.sampled_from(["flat", "folder", "reverse"])),
    }


@st.composite
def large(draw, tier):
    """Larger images, the pixels are drawn from a seed."""
    case = draw(stacks("quick"))
    case["size"] = list(draw(st.permutations(draw(st.sampled_from([[17, 16], [40, 9], [33, 31], [90, 2], [128, 70]])))))
    seed = draw(st.integers(0, 10 ** 6))
    for (i, lay) in enumerate(case["layers"]):
        lay["n"] = min(lay["n"], 3)
        for (q, im) in enumerate(lay["imgs"]):
            palette = sorted(set(im["pix"])) + ([0] * 5 if q else [0])
            im["pix"] = {"seed": seed + 10 * i + q, "palette": palette}
    return case


def expand(case):
    """Replace the seeds of the pixels by the pixels."""
    import numpy as np
    case = copy.deepcopy(case)
    for lay in case["layers"]:
        for im in lay["imgs"]:
            if isinstance(im["pix"], dict):
                rng = np.random.default_rng(im["pix"]["seed"])
                im["pix"] = [int(v) for v in rng.choice(im["pix"]["palette"], case["size"][0] * case["size"][1])]
    return case


def write_image(path, size, pix, mode):
    from PIL import Image
    colors = [COLORS[p] for p in pix]
    if mode == "L" and all(c[0] == c[1] == c[2] for c in colors):
        mode = "L" if all(c[3] == 255 for c in colors) else "LA"
    elif mode == "1" and all(c in (COLORS[0], COLORS[4]) for c in colors):
        mode = "1"
    elif mode == "key":
        # a colour key: one colour is fully transparent, the others are opaque
        keys = {c[:3] for c in colors if c[3] == 0}
        solid = {c[:3] for c in colors if c[3] == 255}
        if len(keys) == 1 and not keys & solid and all(c[3] in (0, 255) for c in colors):
            img = Image.new("RGB", tuple(size))
            img.putdata([c[:3] for c in colors])
            img.save(path, format="PNG", transparency=keys.pop())
            return
        mode = "RGBA"
    elif mode in ("L", "1") or (mode not in ("RGBA", "P") and any(c[3] != 255 for c in colors)):
        mode = "RGBA"
    img = Image.new("RGBA", tuple(size))
    # row 0 is the top of the image
    img.putdata(colors)
    if mode in ("RGB", "L", "LA", "1"):
        img = img.convert(mode)
    elif mode == "P":
        pal = sorted(set(pix))
        out = Image.new("P", tuple(size))
        flat = []
        for p in pal:
            flat += list(COLORS[p][:3])
        out.putpalette(flat)
        out.putdata([pal.index(p) for p in pix])
        if any(COLORS[p][3] != 255 for p in pal):
            out.save(path, format="PNG", transparency=bytes(COLORS[p][3] for p in pal))
            return
        img = out
    img.save(path, format="PNG")


def build(case, folder):
    stack = []
    for i, lay in enumerate(case["layers"]):
        files = []
        if 0 <= lay.get("again", -1) < i:
            # the files of another layer once more
            stack.append({"n_layer": lay["n"], "filename_list": list(stack[lay.get("again", -1)]["filename_list"])})
            continue
        for q, im in enumerate(lay["imgs"]):
            if case.get("names", "flat") == "folder":
                # same names in different folders
                os.makedirs(os.path.join(folder, "layer_%d" % i), exist_ok=True)
                path = os.path.join(folder, "layer_%d" % i, "img_%d.png" % q)
            elif case.get("names", "flat") == "reverse":
                path = os.path.join(folder, "l%d_%d.png" % (9 - i, 9 - q))
            else:
                path = os.path.join(folder, "l%d_%d.png" % (i, q))
            write_image(path, case["size"], im["pix"], im["mode"])
            files.append(path)
            if im["same"]:
                files.append(path)
        stack.append({"n_layer": lay["n"], "filename_list": files})
    color = {NAMES[k]: [list(COLORS[i]) for i, o in enumerate(case["owner"]) if o == k] for k in range(case["n_dom"])}
    if case.get("twice", False):
        # a colour listed twice
        color = {tag: val + val[:1] for (tag, val) in color.items()}
    geo = api.geometry_voxel([1, 1, 1], case["d"], case["c"], {})
    geo["mesh_type"] = "png"
    geo["data_voxelize"] = {
        "param": {"d": case["d"], "c": case["c"], "size": case["size"]},
        "domain_color": color, "layer_stack": stack,
    }
    return geo


def expected(case):
    (w, h) = case["size"]
    dom = {NAMES[k]: set() for k in range(case["n_dom"])}
    z = 0
    used = []
    for i, lay in enumerate(case["layers"]):
        used.append(used[lay.get("again", -1)] if 0 <= lay.get("again", -1) < i else lay["imgs"])
        for _ in range(lay["n"]):
            for im in used[-1]:
                for row in range(h):
                    for col in range(w):
                        k = case["owner"][im["pix"][row * w + col]]
                        if k >= 0:
                            dom[NAMES[k]].add(col + w * (h - 1 - row) + w * h * z)
            z += 1
    return [w, h, z], dom


def check_valid(case, ctx):
    import pypeec
    case = expand(case)
    (n, dom) = expected(case)
    tot = sum(len(v) for v in dom.values())
    overlap = tot != len(set().union(*dom.values()))
    ctx.label("layers=%d" % len(case["layers"]), "again" if any(0 <= x.get("again", -1) < i for i, x in enumerate(case["layers"])) else "new", case.get("names", "flat"),
              "merged" if any(len(x["imgs"]) > 1 for x in case["layers"]) else "single")
    with files.scratch() as folder:
        geo = build(case, folder)
        if overlap:
            ctx.label("conflict")
            api.refused("images with a pixel in two domains", pypeec.run_mesher_data, geo)
            return
        if tot == 0:
            ctx.trivial("no coloured pixel")
        data = api.mesh(geo)["data_geom"]
    api.expect([int(v) for v in data["n"]] == n, "grid %s instead of %s" % (list(data["n"]), n))
    api.expect([float(v) for v in data["d"]] == case["d"], "voxel size %s instead of %s" % (data["d"], case["d"]))
    api.expect([float(v) for v in data["c"]] == case["c"], "centre %s instead of %s" % (data["c"], case["c"]))
    api.close("structure size", data["s"], [a * b for a, b in zip(n, case["d"])], 1e-12)
    api.expect(set(data["domain_def"]) == set(dom), "domains %s" % list(data["domain_def"]))
    for tag in dom:
        got = [int(v) for v in data["domain_def"][tag]]
        api.expect(len(got) == len(set(got)), "domain %s has repeated voxels" % tag)
        api.expect(set(got) == dom[tag], "domain %s: missing %s, additional %s"
                   % (tag, sorted(dom[tag] - set(got))[:10], sorted(set(got) - dom[tag])[:10]))


@st.composite
def broken(draw, tier):
    case = draw(stacks("quick"))
    case["bad"] = draw(st.sampled_from(["wide", "high", "narrow", "swap", "missing", "text", "jpeg", "n_layer", "no_file"]))
    case["lay"] = draw(st.integers(0, 2))
    case["img"] = draw(st.integers(0, 2))
    return case


def check_broken(case, ctx):
    import pypeec
    from PIL import Image
    bad = case["bad"]
    (w, h) = case["size"]
    with files.scratch() as folder:
        geo = build(case, folder)
        lay = geo["data_voxelize"]["layer_stack"][case["lay"] % len(case["layers"])]
        path = lay["filename_list"][case["img"] % len(lay["filename_list"])]
        ctx.label(bad)
        new = None
        if bad == "wide":
            new = (w + 1, h)
        elif bad == "high":
            new = (w, h + 1)
        elif bad == "narrow":
            new = (w - 1, h) if w > 1 else (w + 2, h)
        elif bad == "swap":
            new = (h, w) if h != w else (w + 1, h + 1)
        elif bad == "missing":
            os.remove(path)
        elif bad == "text":
            with open(path, "w") as fid:
                fid.write("this is not an image")
        elif bad == "jpeg":
            Image.new("RGB", (w, h)).save(path, format="JPEG")
        elif bad == "n_layer":
            lay["n_layer"] = 0
        elif bad == "no_file":
            lay["filename_list"] = ["", path][:1]
        if new is not None:
            Image.new("RGBA", new, COLORS[1]).save(path, format="PNG")
        api.refused("PNG stack with a defect (%s)" % bad, pypeec.run_mesher_data, geo)


PROP = Prop("C02", [
    Part("valid", stacks, check_valid, quick=2000, thorough=30000),
    Part("large", large, check_valid, quick=120, thorough=3000),
    Part("broken", broken, check_broken, quick=800, thorough=8000),
], rule="random stacks of PNG images up to nine layers and 128 pixels (RGBA, RGB and palette files, merged images, repeated layers, colours that differ in one "
        "channel only), and the same with one defect; trivial when no pixel has a domain colour")
