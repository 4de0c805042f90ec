"""
Documented format of the input data, as a small specification language, and the single-entry
defects of a value with respect to its format. Independent of the schemas of PyPEEC.
"""

import copy


class Node:
    pass


class N(Node):
    """Floating point number."""

    def __init__(self, lo=None, excl=False, null=False):
        (self.lo, self.excl, self.null) = (lo, excl, null)

    def bad(self):
        out = ["x", True, [], {}, [1.0], 1, "1.0"]
        if not self.null:
            out.append(None)
        if self.lo is not None:
            out += [self.lo - 1.0, self.lo - 1e-9]
            if self.excl:
                out.append(float(self.lo))
        return out

    def good(self):
        out = [None] if self.null else []
        if self.lo is not None and not self.excl:
            out.append(float(self.lo))
        return out


class I(Node):  # noqa: E742
    """Integer number."""

    def __init__(self, lo=None, null=False):
        (self.lo, self.null) = (lo, null)

    def bad(self):
        out = ["x", True, [], 1.5, 2.0, "1", [1]]
        if not self.null:
            out.append(None)
        if self.lo is not None:
            out += [self.lo - 1, self.lo - 7]
        return out

    def good(self):
        return ([None] if self.null else []) + ([self.lo] if self.lo is not None else [])


class B(Node):
    def bad(self):
        return [0, 1, "true", None, [], 1.0]

    def good(self):
        return []


class S(Node):
    def __init__(self, null=False):
        self.null = null

    def bad(self):
        return [1, True, [], {}, ""] + ([] if self.null else [None])

    def good(self):
        return [None] if self.null else []


class E(Node):
    def __init__(self, options, null=False, other=(), free=False):
        # free: every option is accepted with the same other entries
        (self.options, self.null, self.other, self.free) = (options, null, other, free)

    def bad(self):
        first = self.options[0]
        return ["unknown", "", 1, [first], first.swapcase(), first + " "] + ([] if self.null else [None]) + list(self.other)

    def good(self):
        return ([None] if self.null else []) + (list(self.options) if self.free else [])


class Num(Node):
    """Number or array (values of the materials and sources)."""

    def bad(self):
        return ["x", True, None, {}, "1.0"]

    def good(self):
        return []


class L(Node):
    def __init__(self, item, size=None, lo=0, null=False):
        (self.item, self.size, self.lo, self.null) = (item, size, lo, null)

    def bad(self):
        out = ["abc", 1.0, 1, True, {}] + ([] if self.null else [None])
        if self.lo > 0 or self.size is not None:
            out.append([])
        return out

    def good(self):
        return [None] if self.null else []


class D(Node):
    def __init__(self, required, optional=None, nonempty=False):
        (self.required, self.optional, self.nonempty) = (required, optional or {}, nonempty)

    def bad(self):
        return [None, [], "x", 1, 1.0, True, {}]


class M(Node):
    """Dictionary with user-defined names."""

    def __init__(self, item, lo=0):
        (self.item, self.lo) = (item, lo)

    def bad(self):
        return [None, [], "x", 1, 1.0] + ([{}] if self.lo else [])


def defects(node, value, path=()):
    """All single-entry defects: (path, operation, new value)."""
    out = []
    for b in node.bad():
        if isinstance(node, D) and b == {} and not node.required and not node.nonempty:
            continue
        out.append((path, "set", b))
    if value is None:
        return out
    if isinstance(node, D):
        for k in node.required:
            out.append((path + (k,), "del", None))
            out += defects(node.required[k], value[k], path + (k,))
        for k, sub in node.optional.items():
            if k in value:
                out += defects(sub, value[k], path + (k,))
    elif isinstance(node, M):
        for k in value:
            out += defects(node.item, value[k], path + (k,))
    elif isinstance(node, L):
        if node.size is not None:
            out.append((path, "pop", None))
            out.append((path, "dup", None))
        for i in range(len(value)):
            out += defects(node.item, value[i], path + (i,))
    return out


def variants(node, value, path=()):
    """Equivalent or boundary values that are well-formed: (path, operation, new value)."""
    out = []
    if isinstance(node, (N, I)):
        if value is not None:
            out.append((path, "numpy", None))
        out += [(path, "set", v) for v in node.good()]
    elif isinstance(node, (S, E)):
        out += [(path, "set", v) for v in node.good()]
    if value is None:
        return out
    if isinstance(node, D):
        out.append((path, "reorder", None))
        for k, sub in list(node.required.items()) + list(node.optional.items()):
            if k in value:
                out += variants(sub, value[k], path + (k,))
    elif isinstance(node, M):
        for k in value:
            out += variants(node.item, value[k], path + (k,))
    elif isinstance(node, L):
        if len(value) and isinstance(node.item, (N, I)):
            out.append((path, "array", None))
        out += [(path, "set", v) for v in node.good()]
        for i in range(len(value)):
            out += variants(node.item, value[i], path + (i,))
    return out


def apply(data, change):
    """Changed copy of the data."""
    import numpy as np
    (path, op, new) = change
    data = copy.deepcopy(data)
    if not path:
        return new if op == "set" else data
    node = data
    for p in path[:-1]:
        node = node[p]
    k = path[-1]
    if op == "set":
        node[k] = new
    elif op == "del":
        del node[k]
    elif op == "pop":
        node[k] = node[k][:-1]
    elif op == "dup":
        node[k] = node[k] + node[k][-1:]
    elif op == "numpy":
        node[k] = np.int64(node[k]) if isinstance(node[k], int) else np.float64(node[k])
    elif op == "array":
        node[k] = np.array(node[k])
    elif op == "reorder":
        node[k] = dict(reversed(list(node[k].items())))
    return data


# -- geometry ---------------------------------------------------------------------------------
VEC = L(N(), 3)
NAMES = L(S(), lo=1)
GROUP = M(D({"domain_group": L(NAMES, lo=1), "connected": B()}))
GEO = {
    "mesh_type": E(["voxel", "png", "stl", "shape"]),
    "data_point": D({"check_cloud": B(), "full_cloud": B(), "pts_cloud": L(VEC)}),
    "data_resampling": D({"use_reduce": B(), "use_resample": B(), "resampling_factor": L(I(1), 3)}),
    "data_conflict": D({"resolve_rules": B(), "resolve_random": B(),
                        "conflict_rules": L(D({"domain_resolve": NAMES, "domain_keep": NAMES}))}),
    "data_integrity": D({"domain_connected": GROUP, "domain_adjacent": GROUP}),
}
POS = N(0.0, excl=True)
COORD = L(L(N(), 2), lo=1)
VOXELIZE = {
    "voxel": D({"param": D({"n": L(I(1), 3), "d": L(POS, 3), "c": VEC}), "domain_index": M(L(I(0)), lo=1)}),
    "png": D({
        "param": D({"d": L(POS, 3), "c": VEC, "size": L(I(1), 2)}),
        "domain_color": M(L(L(I(0), 4), lo=1), lo=1),
        "layer_stack": L(D({"n_layer": I(1), "filename_list": NAMES}), lo=1),
    }),
    "stl": D({
        "param": D({"d": L(POS, 3), "xyz_min": L(N(), 3, null=True), "xyz_max": L(N(), 3, null=True)}),
        "domain_stl": M(L(D({"scale": N(0.0), "offset": VEC, "filename": S()}), lo=1), lo=1),
    }),
}
SHAPE_DATA = {
    "pad": D({"diameter": N(0.0), "coord": COORD}),
    "trace": D({"width": N(0.0), "coord": COORD}),
    "polygon": D({"buffer": N(0.0, null=True), "coord_shell": COORD, "coord_holes": L(COORD)}),
}


class Shape(Node):
    def bad(self):
        return [None, [], "x", 1]


def shape_node(spec):
    return D({"shape_layer": NAMES, "shape_operation": E(["add", "sub"]), "shape_type": E(["pad", "trace", "polygon"]),
              "shape_data": SHAPE_DATA[spec["shape_type"]]})


def geometry(data):
    """Format of a geometry (the format of the shapes depends on the values)."""
    kind = data["mesh_type"]
    if kind == "shape":
        # every shape has its own format: all the shapes of a list get the format of the first one
        shapes = D({}, {k: L(shape_node(v[0]), lo=1) for k, v in data["data_voxelize"]["geometry_shape"].items()}, nonempty=True)
        vox = D({
            "param": D({"dx": POS, "dy": POS, "dz": POS, "cz": N(null=True), "simplify": N(0.0, null=True), "construct": N(0.0, null=True),
                        "xy_min": L(N(), 2, null=True), "xy_max": L(N(), 2, null=True)}),
            "layer_stack": L(D({"n_layer": I(1), "tag_layer": S()}), lo=1),
            "geometry_shape": shapes,
        })
    else:
        vox = VOXELIZE[kind]
    return D(dict(GEO, data_voxelize=vox))


# -- problem ----------------------------------------------------------------------------------
def problem(data):
    mat = {k: D({t: Num() for t in (["rho_re", "rho_im"] if v["material_type"] != "magnetic" else [])
                 + (["chi_re", "chi_im"] if v["material_type"] != "electric" else [])}) for k, v in data["material_def"].items()}
    src = {k: D({t: Num() for t in (["I_re", "I_im", "Y_re", "Y_im"] if v["source_type"] == "current" else ["V_re", "V_im", "Z_re", "Z_im"])})
           for k, v in data["source_def"].items()}
    return D({
        "material_def": M(D({"domain_list": NAMES, "material_type": E(["electric", "magnetic", "electromagnetic"]),
                             "orientation_type": E(["isotropic", "anisotropic"]), "var_type": E(["lumped", "distributed"])}), lo=1),
        "source_def": M(D({"domain_list": NAMES, "source_type": E(["current", "voltage"]), "var_type": E(["lumped", "distributed"])}), lo=1),
        "sweep_solver": M(D({"init": S(null=True), "param": D({"freq": N(0.0), "material_val": D(mat), "source_val": D(src)})}), lo=1),
    })


# -- tolerance --------------------------------------------------------------------------------
ITER = D({"solver": E(["gmres", "gcrot"], free=True), "n_inner": I(0), "n_outer": I(0), "rel_tol": N(0.0), "abs_tol": N(0.0)})
TOLERANCE = D({
    "parallel_sweep": D({"n_jobs": I(), "n_threads": I(null=True)}),
    "integral_simplify": N(0.0), "biot_savart": E(["face", "voxel"]), "mult_type": E(["fft", "direct"]),
    "fft_options": D({"matrix_split": B(), "library": E(["NumPy", "SciPy", "MKL", "FFTW", "CuPy"]), "scipy_worker": I(), "fftw_thread": I(),
                      "fftw_timeout": N(0.0, null=True), "fftw_byte_align": I(0, null=True)}),
    "factorization_options": D({
        "library": E(["SuperLU", "PARDISO", "PyAMG"]),
        "pyamg_options": D({"tol": N(0.0), "solver": E(["adapt", "root"], free=True), "krylov": E(["gmres", "fgmres"], null=True, free=True)}),
        "pardiso_options": D({"thread_pardiso": I(null=True), "thread_mkl": I(null=True)}),
    }),
    "solver_options": D({
        "coupling": E(["direct", "segregated"]),
        "tolerance_options": D({"ignore_status": B(), "ignore_res": B(), "rel_tol": N(0.0), "abs_tol": N(0.0)}),
        "power_options": D({"stop": B(), "n_min": I(0), "n_cmp": I(0), "rel_tol": N(0.0), "abs_tol": N(0.0)}),
        "direct_options": ITER,
        "segregated_options": D({"relax_electric": N(0.0), "relax_magnetic": N(0.0), "n_min": I(0), "n_max": I(0), "rel_tol": N(0.0), "abs_tol": N(0.0)},
                                {"iter_electric_options": ITER, "iter_magnetic_options": ITER}),
    }),
    "condition_options": D({"check": B(), "tolerance_electric": N(0.0), "tolerance_magnetic": N(0.0),
                            "norm_options": D({"t_accuracy": I(0), "n_iter_max": I(0)})}),
})
# entries that the runs of the checks do not use: every well-formed value has to be accepted
TOLERANCE_UNUSED = {
    ("fft_options", "fftw_timeout"), ("fft_options", "fftw_byte_align"), ("fft_options", "fftw_thread"),
    ("factorization_options", "pyamg_options"), ("factorization_options", "pardiso_options"),
    ("solver_options", "segregated_options"), ("parallel_sweep", "n_threads"),
}

# -- plots ------------------------------------------------------------------------------------
SIZE = L(I(0), 2, null=True)
WINDOW = D({"show_menu": B(), "image_size": SIZE, "window_size": SIZE, "notebook_size": SIZE})
PYVISTA = D({
    "plot_clip": D({"clip_plot": B(), "clip_invert": B(), "clip_axis": E(["x", "y", "z"], free=True), "clip_value": N()}),
    "plot_theme": D({"text_color": S(), "title_font": I(0), "colorbar_font": I(0), "colorbar_size": I(0), "colorbar_plot": B(),
                     "background_color": S(), "axis_add": B(), "axis_size": I(0)}),
    "plot_view": D({"grid_plot": B(), "grid_thickness": N(0.0), "grid_color": S(), "grid_opacity": N(0.0),
                    "geom_plot": B(), "geom_thickness": N(0.0), "geom_color": S(), "geom_opacity": N(0.0),
                    "point_plot": B(), "point_color": S(), "point_size": N(0.0), "point_opacity": N(0.0),
                    "camera_roll": N(0.0, null=True), "camera_azimuth": N(0.0, null=True), "camera_elevation": N(0.0, null=True)}),
})
MATPLOTLIB = D({"style": S(), "legend": S(), "font": I(0)})
_GEOM = D({"title": S(null=True), "colormap": S(), "opacity": N(0.0)})
_COMMON = {"title": S(null=True), "legend": S(null=True), "var": S(), "log": B(), "color_lim": L(N(), 2, null=True),
           "filter_lim": L(N(), 2, null=True), "clamp_lim": L(N(), 2, null=True), "scale": N()}
_NORM = D(dict(_COMMON, point_size=N(0.0)))
_PHASOR = D(dict(_COMMON, phase=N(), point_size=N(0.0)))
_ARROW = D(dict(_COMMON, phase=N(), arrow_threshold=N(0.0), arrow_scale=N(0.0)))
DATA_PLOT = {
    "domain": _GEOM, "graph": _GEOM,
    "mesh": D({"title": S(null=True), "color_voxel": S(), "color_reference": S(), "opacity_voxel": N(0.0), "opacity_reference": N(0.0)}),
    "material": D({"title": S(null=True), "color_electric": S(), "color_magnetic": S(), "color_electromagnetic": S(),
                   "color_current_source": S(), "color_voltage_source": S()}),
    "norm_voxel": _NORM, "norm_point": _NORM, "phasor_voxel": _PHASOR, "phasor_point": _PHASOR, "arrow_voxel": _ARROW, "arrow_point": _ARROW,
    "convergence": D({"color_active": S(), "color_reactive": S(), "marker": N(0.0), "width": N(0.0)}),
    "residuum": D({"bar_color": S(), "edge_color": S(), "tol_bins": N(0.0), "n_bins": I(0)}),
}


def plots(data, layouts):
    """Format of the viewer or plotter data."""
    out = {}
    for k, v in data.items():
        lay = v["layout"]
        mat = v["framework"] == "matplotlib"
        out[k] = D({
            "framework": E(["pyvista", "matplotlib"], other=("pyvista" if mat else "matplotlib",)),
            "layout": E(layouts), "title": S(), "data_window": WINDOW,
            "data_options": MATPLOTLIB if mat else PYVISTA, "data_plot": DATA_PLOT[lay],
        })
    node = D(out)
    node.required = {}
    node.optional = out
    return node
