"""
Generators and builders of solver cases.

A case is plain JSON data. `Problem` turns it into PyPEEC input data and into the input of the
independent reference model; both describe the same voxels, materials and sources.
"""

import copy

import numpy as np
from hypothesis import strategies as st

from pv import api, model

SIZES = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 1, 1), (1, 3, 1), (1, 1, 3), (2, 2, 1), (2, 1, 2), (1, 2, 2),
         (3, 2, 1), (1, 3, 2), (2, 1, 3), (2, 2, 2), (4, 1, 1), (3, 3, 1), (1, 3, 3), (3, 2, 2), (2, 3, 2), (2, 2, 3),
         (4, 2, 1), (5, 1, 2), (3, 3, 2), (2, 4, 2), (3, 2, 3), (4, 3, 2), (2, 3, 4), (3, 3, 3)]


def sizes(max_nv=27, min_nv=1):
    lst = [s for s in SIZES if min_nv <= s[0] * s[1] * s[2] <= max_nv]
    big = [s for s in lst if s[0] * s[1] * s[2] >= 8]
    return st.sampled_from(lst + 2 * big).map(list)


D_BASE = [1.0, 0.5, 2.0, 0.8, 1.25]


def counts(high):
    """Number of materials or sources: mostly a few, sometimes many."""
    return list(range(1, high + 1)) * 3 + ([high + 4] if high >= 2 else [])


@st.composite
def problem_cases(draw, kinds=("electric",), max_nv=27, min_nv=2, max_mat=3, max_src=3, freqs=("dc", "ac"), dist=True,
                  complex_rho=True, pts=False, aniso=True, elements=True, scales=(1.0, 1.0, 1e-3, 1e-6, 1e-9, 1e3), embed=True):
    """Random conductive/magnetic voxel structure with materials and sources."""
    n = draw(sizes(max_nv, min_nv))
    nv = n[0] * n[1] * n[2]
    # the residuum of tiny magnetic structures is limited by the rounding errors (fluxes against voltages)
    scale = draw(st.sampled_from([v for v in scales if v >= 1e-3 or all(k == "electric" for k in kinds)]))
    d = [draw(st.sampled_from(D_BASE)) for _ in range(3)]
    c = [draw(st.sampled_from([0.0, 0.0, 1.5, -2.25])) for _ in range(3)]
    n_mat = draw(st.sampled_from(counts(max_mat)))
    kind_list = [draw(st.sampled_from(list(kinds))) for _ in range(n_mat)]
    if any(k != "electric" for k in kinds) and all(k == "electric" for k in kind_list):
        kind_list[-1] = draw(st.sampled_from([k for k in kinds if k != "electric"]))
    if not any(k != "magnetic" for k in kind_list):
        kind_list.append("electric" if "electric" in kinds else "electromagnetic")
        n_mat += 1
    # fill pattern: mostly one background label, then random labels
    back = draw(st.integers(0, n_mat))
    weight = draw(st.integers(0, 3))
    palette = [back] * weight + list(range(n_mat + 1))
    mat = [draw(st.sampled_from(palette)) for _ in range(nv)]
    # at least two conductive and, if asked for, two magnetic voxels side by side
    cond = [k + 1 for k in range(n_mat) if kind_list[k] != "magnetic"]
    magn = [k + 1 for k in range(n_mat) if kind_list[k] != "electric"]
    pairs = model.faces(n, range(nv)) or [(0, 0, 0)]
    keep = []
    if magn and nv >= 4 and not any(mat[i] in magn and mat[j] in magn for (_, i, j) in pairs):
        (_, i, j) = draw(st.sampled_from(pairs))
        mat[i] = mat[j] = draw(st.sampled_from(magn))
        keep = [i, j]
    if not any(mat[i] in cond and mat[j] in cond for (_, i, j) in pairs):
        free = [p for p in pairs if p[1] not in keep and p[2] not in keep]
        (_, i, j) = draw(st.sampled_from(free or pairs))
        mat[i] = mat[j] = draw(st.sampled_from(cond))
    n_src = draw(st.sampled_from(counts(max_src)))
    src_pal = draw(st.sampled_from([[0, 0, 0, 0, 0], [0, 0], [0]]))
    src = [draw(st.sampled_from(src_pal + list(range(1, n_src + 1)))) for _ in range(nv)]
    materials = []
    for kind in kind_list:
        m = {
            "type": kind,
            "orient": draw(st.sampled_from(["isotropic", "anisotropic"])) if aniso else "isotropic",
            "var": draw(st.sampled_from(["lumped", "distributed"])) if dist else "lumped",
            "seed": draw(st.integers(0, 7)),
            "rho_re": [draw(st.sampled_from([1.0, 0.5, 2.0, 4.0, 0.25])) for _ in range(3)],
            "rho_im": [draw(st.sampled_from([0.0, 0.0, 0.5, 1.0])) for _ in range(3)] if complex_rho else [0.0] * 3,
            "chi_re": [draw(st.sampled_from([1.0, 10.0, 0.5, 100.0, 3.0])) for _ in range(3)],
            "chi_im": [draw(st.sampled_from([0.0, 0.0, 0.25, 2.0])) for _ in range(3)],
        }
        materials.append(m)
    sources = []
    for i in range(n_src):
        s = {
            "type": draw(st.sampled_from(["current", "voltage"])),
            "var": draw(st.sampled_from(["lumped", "distributed"])) if dist else "lumped",
            "seed": draw(st.integers(0, 7)),
            "re": draw(st.sampled_from([1.0, 0.0, -1.0, 2.5])), "im": draw(st.sampled_from([0.0, 0.0, 1.0, -0.5])),
            "el_re": draw(st.sampled_from([0.0, 0.5, 1.0])) if elements else 0.0,
            "el_im": draw(st.sampled_from([0.0, 0.0, 0.25])) if elements else 0.0,
        }
        sources.append(s)
    kind = draw(st.sampled_from(list(freqs)))
    wl = 0.0 if kind == "dc" else draw(st.sampled_from([0.3, 1.0, 0.05, 3.0]))
    case = {
        "n": n, "d": d, "c": c, "scale": scale, "mat": mat, "src": src, "materials": materials, "sources": sources,
        "wl": wl, "order": draw(st.integers(0, 50)),
    }
    if embed and draw(st.integers(0, 2)) == 0:
        # empty border layers and one empty slab inside: the same voxels in a larger, sparser grid
        axis = draw(st.integers(0, 2))
        case["embed"] = {
            "lo": [draw(st.sampled_from([0, 0, 1, 2, 5])) for _ in range(3)],
            "hi": [draw(st.sampled_from([0, 0, 1, 3])) for _ in range(3)],
            "axis": axis, "pos": draw(st.integers(0, n[axis])), "gap": draw(st.sampled_from([0, 1, 1, 2, 9])),
        }
    if pts:
        case["pts"] = [[draw(st.integers(-12, 12)) for _ in range(3)] for _ in range(draw(st.integers(0, 3)))]
    return case


def shuffled(items, seed):
    """Deterministic reordering (seed 0 keeps the order)."""
    items = list(items)
    if seed == 0:
        return items
    rng = np.random.default_rng(seed)
    return [items[i] for i in rng.permutation(len(items))]


def embedded(case):
    """Grid and labels of a case, with the optional empty layers inserted."""
    (n, mat, src) = ([int(v) for v in case["n"]], case["mat"], case["src"])
    emb = case.get("embed")
    if emb is None:
        return n, mat, src
    gap = [emb["gap"] if a == emb["axis"] else 0 for a in range(3)]
    m = [n[a] + emb["lo"][a] + emb["hi"][a] + gap[a] for a in range(3)]
    out = [[0] * (m[0] * m[1] * m[2]) for _ in range(2)]
    for i in range(n[0] * n[1] * n[2]):
        k = list(model.coords(n, i))
        for a in range(3):
            k[a] += emb["lo"][a] + (gap[a] if a == emb["axis"] and k[a] >= emb["pos"] else 0)
        j = model.linear(m, k)
        (out[0][j], out[1][j]) = (mat[i], src[i])
    return m, out[0], out[1]


class Problem:
    """Normalised description of a case: always a well-posed problem (or None if it has no conductor)."""

    def __init__(self, case):
        self.case = case
        (self.n, mat, src) = embedded(case)
        sc = case["scale"]
        self.d = [v * sc for v in case["d"]]
        self.c = [v * sc for v in case["c"]]
        self.nv = self.n[0] * self.n[1] * self.n[2]
        self.ids = list(range(self.nv))
        self.scale = sc
        self.materials = case["materials"]
        self.sources = case["sources"]
        self.order = case.get("order", 0)
        mat = [m if 0 < m <= len(self.materials) else 0 for m in mat]
        self.mat = mat
        self.electric = [i for i in range(self.nv) if mat[i] and self.materials[mat[i] - 1]["type"] != "magnetic"]
        self.magnetic = [i for i in range(self.nv) if mat[i] and self.materials[mat[i] - 1]["type"] != "electric"]
        src = [s if s <= len(self.sources) else 0 for s in src]
        el = set(self.electric)
        src = [s if i in el else 0 for i, s in enumerate(src)]
        self.comps = model.components(self.n, self.electric)
        # every conductive component gets a grounding source (voltage source or loaded current source)
        for comp in self.comps:
            if not any(src[i] and self._grounds(src[i] - 1) for i in comp):
                k = next((q for q in range(len(self.sources)) if self._grounds(q)), None)
                if k is None:
                    self.sources = list(self.sources)
                    self.sources[0] = dict(self.sources[0], type="voltage")
                    k = 0
                src[comp[0]] = k + 1
        self.src = src
        self.well_posed = len(self.electric) > 0
        # frequency from the ratio between reactance and resistance
        wl = case["wl"]
        if wl == 0:
            self.freq = 0.0
        else:
            # rho is given in units of the length scale, the resistances are of order one
            self.freq = float(wl / (2 * np.pi * 0.25 * model.MU0 * sc))
        self.pts = [self._point(p) for p in case.get("pts", [])]

    def _point(self, p):
        """Evaluation point outside the grid."""
        out = [self.c[a] + 0.31 * p[a] * self.d[a] for a in range(3)]
        a = abs(p[0]) % 3
        sign = 1 if p[1] >= 0 else -1
        out[a] = self.c[a] + sign * (0.5 * self.n[a] + 1.1 + 0.2 * abs(p[2])) * self.d[a]
        return [float(v) for v in out]

    def _grounds(self, k):
        s = self.sources[k]
        return s["type"] == "voltage" or s["el_re"] > 0

    # -- names ---------------------------------------------------------------------------------
    def domain_name(self, i):
        return "dom_%d_%d" % (self.mat[i], self.src[i])

    def domains(self):
        dom = {}
        for i in range(self.nv):
            if self.mat[i]:
                dom.setdefault(self.domain_name(i), []).append(i)
        keys = shuffled(dom.keys(), self.order)
        return {k: shuffled(dom[k], self.order and self.order + 7) for k in keys}

    def used_materials(self):
        return [m for m in range(1, len(self.materials) + 1) if m in self.mat]

    def used_sources(self):
        return [s for s in range(1, len(self.sources) + 1) if s in self.src]

    # -- values --------------------------------------------------------------------------------
    @staticmethod
    def _mult(seed, i):
        return 1.0 + 0.25 * ((seed * 5 + 3 * i + (i * i) % 7) % 5)

    def rho_at(self, i):
        m = self.materials[self.mat[i] - 1]
        out = []
        for a in range(3):
            b = a if m["orient"] == "anisotropic" else 0
            f = self._mult(m["seed"], self.ids[i]) if m["var"] == "distributed" else 1.0
            out.append(complex(m["rho_re"][b] * f, m["rho_im"][b] * f) * self.scale)
        return out

    def chi_at(self, i):
        m = self.materials[self.mat[i] - 1]
        out = []
        for a in range(3):
            b = a if m["orient"] == "anisotropic" else 0
            f = self._mult(m["seed"], self.ids[i]) if m["var"] == "distributed" else 1.0
            out.append(complex(m["chi_re"][b] * f, m["chi_im"][b] * f))
        return out

    def source_at(self, i):
        """Per-voxel source law: (type, value, element)."""
        k = self.src[i] - 1
        s = self.sources[k]
        cnt = sum(1 for v in self.src if v == k + 1)
        val = complex(s["re"], s["im"])
        el = complex(s["el_re"], s["el_im"])
        if s["var"] == "distributed":
            f = self._mult(s["seed"], self.ids[i])
            return s["type"], val * f, el * (1.0 + 0.5 * (f - 1.0))
        if s["type"] == "current":
            return "current", val / cnt, el / cnt
        return "voltage", val, el * cnt

    # -- PyPEEC input --------------------------------------------------------------------------
    def geometry(self, **kw):
        return api.geometry_voxel(self.n, self.d, self.c, self.domains(), pts=self.pts, **kw)

    def problem_def(self, dom):
        mdef, sdef = {}, {}
        for m in shuffled(self.used_materials(), self.order and self.order + 1):
            spec = self.materials[m - 1]
            lst = [k for k in dom if k.startswith("dom_%d_" % m)]
            mdef["mat_%d" % m] = {
                "domain_list": shuffled(lst, self.order and self.order + 2 + m), "material_type": spec["type"],
                "orientation_type": spec["orient"], "var_type": spec["var"],
            }
        for s in shuffled(self.used_sources(), self.order and self.order + 3):
            spec = self.sources[s - 1]
            lst = [k for k in dom if k.endswith("_%d" % s)]
            sdef["src_%d" % s] = {
                "domain_list": shuffled(lst, self.order and self.order + 4 + s), "source_type": spec["type"], "var_type": spec["var"],
            }
        return mdef, sdef

    def values(self, dom, mdef, sdef):
        mval, sval = {}, {}
        for name, md in mdef.items():
            spec = self.materials[int(name[4:]) - 1]
            idx = [i for k in md["domain_list"] for i in dom[k]]
            val = {}
            tags = []
            if spec["type"] != "magnetic":
                tags += [("rho_re", lambda z: z.real, self.rho_at), ("rho_im", lambda z: z.imag, self.rho_at)]
            if spec["type"] != "electric":
                tags += [("chi_re", lambda z: z.real, self.chi_at), ("chi_im", lambda z: z.imag, self.chi_at)]
            for tag, part, fct in tags:
                rows = [[float(part(z)) for z in fct(i)] for i in idx]
                if spec["var"] == "lumped":
                    row = rows[0]
                    val[tag] = row if spec["orient"] == "anisotropic" else row[0]
                else:
                    val[tag] = rows if spec["orient"] == "anisotropic" else [r[0] for r in rows]
            mval[name] = val
        for name, sd in sdef.items():
            spec = self.sources[int(name[4:]) - 1]
            idx = [i for k in sd["domain_list"] for i in dom[k]]
            (v, e) = ("I", "Y") if spec["type"] == "current" else ("V", "Z")
            if spec["var"] == "lumped":
                sval[name] = {v + "_re": float(spec["re"]), v + "_im": float(spec["im"]),
                              e + "_re": float(spec["el_re"]), e + "_im": float(spec["el_im"])}
            else:
                laws = [self.source_at(i) for i in idx]
                sval[name] = {v + "_re": [x[1].real for x in laws], v + "_im": [x[1].imag for x in laws],
                              e + "_re": [x[2].real for x in laws], e + "_im": [x[2].imag for x in laws]}
        return mval, sval

    def problem(self):
        dom = self.domains()
        (mdef, sdef) = self.problem_def(dom)
        (mval, sval) = self.values(dom, mdef, sdef)
        return {
            "material_def": mdef, "source_def": sdef,
            "sweep_solver": {"sim": {"init": None, "param": {"freq": self.freq, "material_val": mval, "source_val": sval}}},
        }

    # -- reference -----------------------------------------------------------------------------
    def reference(self):
        rho = {i: self.rho_at(i) for i in self.electric}
        chi = {i: [z.real - 1j * z.imag for z in self.chi_at(i)] for i in self.magnetic}
        src = [(i,) + self.source_at(i) for i in range(self.nv) if self.src[i]]
        return model.Model(self.n, self.d, self.c, self.freq, rho, chi, src)

    def moved(self, perm=(0, 1, 2), flip=(False, False, False), lo=(0, 0, 0), hi=(0, 0, 0), shift=(0.0, 0.0, 0.0)):
        """
        The same problem with permuted and mirrored axes (about the origin), surrounded by empty
        voxels and translated. New axis a is the old axis perm[a], mirrored if flip[a] is set.
        Returns the problem and the map from the old to the new voxels.
        """
        q = copy.copy(self)
        m = [self.n[perm[a]] + lo[a] + hi[a] for a in range(3)]
        vmap = {}
        for i in range(self.nv):
            k = model.coords(self.n, i)
            kk = [k[perm[a]] for a in range(3)]
            kk = [self.n[perm[a]] - 1 - kk[a] if flip[a] else kk[a] for a in range(3)]
            vmap[i] = model.linear(m, [kk[a] + lo[a] for a in range(3)])
        q.n = m
        q.nv = m[0] * m[1] * m[2]
        q.d = [self.d[perm[a]] for a in range(3)]
        q.c = [(-1 if flip[a] else 1) * self.c[perm[a]] + shift[a] + 0.5 * (hi[a] - lo[a]) * q.d[a] for a in range(3)]
        q.mat, q.src, q.ids = [0] * q.nv, [0] * q.nv, [0] * q.nv
        for i, j in vmap.items():
            (q.mat[j], q.src[j], q.ids[j]) = (self.mat[i], self.src[i], self.ids[i])
        q.electric = sorted(vmap[i] for i in self.electric)
        q.magnetic = sorted(vmap[i] for i in self.magnetic)
        q.comps = [sorted(vmap[i] for i in c) for c in self.comps]
        q.materials = []
        for mat in self.materials:
            mat = dict(mat)
            if mat["orient"] == "anisotropic":
                for key in ("rho_re", "rho_im", "chi_re", "chi_im"):
                    mat[key] = [mat[key][perm[a]] for a in range(3)]
            q.materials.append(mat)
        q.pts = [[float((-1 if flip[a] else 1) * p[perm[a]] + shift[a]) for a in range(3)] for p in self.pts]
        return q, vmap

    def run(self, tol=None, geo_kw=None):
        vox = api.mesh(self.geometry(**(geo_kw or {})))
        sol = api.solve(vox, self.problem(), tol if tol is not None else api.tolerance())
        return vox, sol


class Solution:
    """Result of one sweep keyed by voxel (independent of the internal ordering)."""

    def __init__(self, sol, sweep="sim"):
        self.raw = sol
        self.init = sol["data_init"]
        self.sw = sol["data_sweep"][sweep]
        self.vc = [int(i) for i in self.init["idx_vc"]]
        self.vm = [int(i) for i in self.init["idx_vm"]]
        self.oc = np.argsort(self.vc, kind="stable") if self.vc else np.empty(0, dtype=int)
        self.om = np.argsort(self.vm, kind="stable") if self.vm else np.empty(0, dtype=int)

    def var(self, name):
        """Field sorted by voxel index."""
        v = np.asarray(self.sw["var"][name]["var"])
        if name in ("V_c", "P_c", "S_c", "J_c"):
            return v[self.oc]
        if name in ("V_m", "P_m", "Q_m", "B_m"):
            return v[self.om]
        return v

    def field(self, name):
        """Field as a dict voxel -> value."""
        v = np.asarray(self.sw["var"][name]["var"])
        return {i: v[j] for j, i in enumerate(self.vc if name in ("V_c", "P_c", "S_c", "J_c") else self.vm)}

    def face_flows(self, name):
        """
        Currents (fluxes) through the faces, from the voxel densities: along a line of voxels the
        first face carries nothing and every density is the mean of the two faces of its voxel.
        Returns {(axis, low voxel): flow} and the flow out of the end of every line (zero).
        """
        dens = self.field(name)
        n = [int(v) for v in self.init["n"]]
        d = [float(v) for v in self.init["d"]]
        area = (d[1] * d[2], d[0] * d[2], d[0] * d[1])
        flow, end = {}, []
        for a in range(3):
            step = (1, n[0], n[0] * n[1])[a]
            for i in sorted(dens):
                k = model.coords(n, i)
                if k[a] > 0 and i - step in dens:
                    continue
                (cur, j, low) = (0.0, i, True)
                while True:
                    cur = 2 * area[a] * dens[j][a] - cur
                    nxt = j + step
                    if model.coords(n, j)[a] + 1 < n[a] and nxt in dens:
                        flow[a, j] = cur
                        j = nxt
                    else:
                        end.append((a, j, cur))
                        break
        return flow, end

    def integral(self, name):
        return self.sw["integral"][name]

    def source(self, name):
        return self.sw["source"][name]


def labels(prob, ctx):
    ctx.label("n_vc<=%d" % (8 * (1 + len(prob.electric) // 8)), "ac" if prob.freq else "dc", "comps=%d" % min(3, len(prob.comps)))
    if prob.magnetic:
        ctx.label("magnetic")
    for m in prob.used_materials():
        s = prob.materials[m - 1]
        ctx.label(s["type"], s["orient"], s["var"])
    for k in prob.used_sources():
        s = prob.sources[k - 1]
        ctx.label("src-" + s["type"], "src-" + s["var"])


ELECTRIC = ("V_c", "J_c", "S_c", "P_c")
MAGNETIC = ("V_m", "B_m", "Q_m", "P_m")
INTEGRAL = ("P_electric", "P_magnetic", "W_electric", "W_magnetic", "P_total", "W_total", "S_total")


def floors(ref):
    """Natural magnitude of every quantity of a solution (from the reference model)."""
    area = min(ref.area)
    p = max(ref.pe_floor, ref.pm_floor)
    far = max(a * b for (a, b) in zip(ref.n, ref.d)) / min(ref.d)
    out = {
        "V_c": ref.v_floor, "J_c": ref.i_floor / area, "S_c": ref.i_floor / ref.vol, "P_c": ref.pe_floor / ref.vol,
        "V_m": ref.vm_floor, "B_m": ref.im_floor / area, "Q_m": ref.im_floor / ref.vol, "P_m": ref.pm_floor / ref.vol,
        "P_electric": ref.pe_floor, "P_magnetic": ref.pm_floor, "W_electric": ref.w_floor, "W_magnetic": ref.w_floor,
        "P_total": p, "W_total": ref.w_floor, "S_total": max(p, ref.s_floor), "V": ref.v_floor, "I": ref.i_floor, "S": ref.s_floor,
        "H_p": getattr(ref, "h_floor", 0.0),
    }
    # the cancellations of the closed-form inductances grow with the distance
    return {key: val * max(1.0, far / 60) ** 2 for (key, val) in out.items()}


def check_against(prob, sol, ref, tol, var_list=None):
    """Compare a PyPEEC solution with the reference model."""
    S = Solution(sol)
    api.expect(sorted(S.vc) == ref.vc, "electric voxels differ")
    api.expect(sorted(S.vm) == ref.vm, "magnetic voxels differ")
    floor = floors(ref)
    refs = {"V_c": ref.V_vc, "J_c": ref.J_c, "S_c": ref.S_c, "P_c": ref.P_c, "V_m": ref.V_vm, "B_m": ref.B_m, "Q_m": ref.Q_m, "P_m": ref.P_m}
    for name in (var_list or refs):
        api.close(name, S.var(name), refs[name], tol, floor[name])
    for name in ("P_electric", "P_magnetic", "W_electric", "W_magnetic"):
        api.close(name, S.integral(name), getattr(ref, name), tol, floor[name])
    # terminals
    for k in prob.used_sources():
        q = [j for j, s in enumerate(ref.sources) if prob.src[s[0]] == k]
        vox = [ref.sources[j][0] for j in q]
        V = np.array([ref.V_vc[ref.vc.index(v)] for v in vox])
        I = ref.I_src[q]
        got = S.source("src_%d" % k)
        api.close("V source %d" % k, got["V"], np.mean(V), tol, floor["V"])
        api.close("I source %d" % k, got["I"], np.sum(I), tol, floor["I"])
        api.close("S source %d" % k, got["S"], np.sum(ref.fp * V * np.conj(I)), tol, floor["S"])
    return S


def compare(what, A, B, floor, tol, scale=1.0, sources=None, materials=None):
    """
    Compare two solutions voxel by voxel (same voxels), B times the scale (powers times its square).
    The dicts map the source and material names of A onto the ones of B.
    """
    api.expect(sorted(A.vc) == sorted(B.vc), what + ": electric voxels differ")
    api.expect(sorted(A.vm) == sorted(B.vm), what + ": magnetic voxels differ")
    p2 = abs(scale) ** 2
    for name in ELECTRIC + MAGNETIC + ("H_p",):
        f = p2 if name in ("P_c", "P_m") else scale
        api.close("%s: %s" % (what, name), A.var(name), f * B.var(name), tol, abs(f) * floor[name])
    for name in INTEGRAL:
        api.close("%s: %s" % (what, name), A.integral(name), p2 * B.integral(name), tol, p2 * floor[name])
    if sources is None:
        sources = {k: k for k in A.sw["source"]}
        api.expect(set(A.sw["source"]) == set(B.sw["source"]), what + ": sources differ")
    for ka, kb in sources.items():
        (a, b) = (A.source(ka), B.source(kb))
        for name in ("V", "I", "S"):
            f = p2 if name == "S" else scale
            api.close("%s: %s of source %s" % (what, name, ka), a[name], f * b[name], tol, abs(f) * floor[name])
    if materials is None:
        materials = {k: k for k in A.sw["material"]}
        api.expect(set(A.sw["material"]) == set(B.sw["material"]), what + ": materials differ")
    for ka, kb in materials.items():
        (a, b) = (A.sw["material"][ka], B.sw["material"][kb])
        for name in ("P_electric", "P_magnetic", "P_total"):
            api.close("%s: %s of material %s" % (what, name, ka), a[name], p2 * b[name], tol, p2 * floor[name])


@st.composite
def path_cases(draw, tier, freqs=("dc", "ac")):
    """A wire that walks through a larger grid: long chains with sources at the ends and taps."""
    length = draw(st.integers(5, 16 if tier == "quick" else 40))
    pos = [0, 0, 0]
    cells = [tuple(pos)]
    for _ in range(length):
        a = draw(st.integers(0, 2))
        s = draw(st.sampled_from([1, 1, 1, -1]))
        pos[a] += s
        if tuple(pos) not in cells:
            cells.append(tuple(pos))
    lo = [min(c[a] for c in cells) for a in range(3)]
    n = [max(c[a] for c in cells) - lo[a] + 1 for a in range(3)]
    mat = [0] * (n[0] * n[1] * n[2])
    src = list(mat)
    idx = [model.linear(n, [c[a] - lo[a] for a in range(3)]) for c in cells]
    for j, i in enumerate(idx):
        mat[i] = 1 if j <= len(idx) // 2 else draw(st.sampled_from([1, 2]))
    src[idx[0]] = 1
    src[idx[-1]] = 2
    if draw(st.booleans()):
        src[idx[len(idx) // 2]] = draw(st.sampled_from([1, 2, 3]))
    base = draw(problem_cases(max_nv=2, embed=False))
    materials = []
    for k in range(2):
        materials.append({
            "type": "electric", "orient": draw(st.sampled_from(["isotropic", "anisotropic"])),
            "var": draw(st.sampled_from(["lumped", "distributed"])), "seed": draw(st.integers(0, 7)),
            "rho_re": [draw(st.sampled_from([1.0, 0.5, 2.0, 4.0])) for _ in range(3)],
            "rho_im": [draw(st.sampled_from([0.0, 0.5])) for _ in range(3)], "chi_re": [1.0] * 3, "chi_im": [0.0] * 3,
        })
    sources = []
    for k in range(3):
        sources.append({
            "type": draw(st.sampled_from(["current", "voltage"])) if k else "voltage",
            "var": draw(st.sampled_from(["lumped", "distributed"])), "seed": draw(st.integers(0, 7)),
            "re": draw(st.sampled_from([1.0, 0.0, -1.0, 2.5])), "im": draw(st.sampled_from([0.0, 1.0])),
            "el_re": draw(st.sampled_from([0.0, 0.5, 1.0])), "el_im": draw(st.sampled_from([0.0, 0.25])),
        })
    wl = 0.0 if draw(st.sampled_from(list(freqs))) == "dc" else draw(st.sampled_from([0.3, 1.0, 3.0]))
    return dict(base, n=n, mat=mat, src=src, materials=materials, sources=sources, wl=wl)


@st.composite
def block_cases(draw, tier, kinds=("electric",), freqs=("dc", "ac"), max_used=None, hi=None, shapes=None, **kw):
    """Structures made of overlapping boxes with holes: hundreds of voxels."""
    hi = hi or (9 if tier == "quick" else 14)
    max_used = max_used or (160 if tier == "quick" else 320)
    base = draw(problem_cases(**dict(kw, kinds=kinds, max_nv=4, min_nv=2, embed=False, freqs=freqs)))
    n_mat = len(base["materials"])
    # cubes, plates, and bars are as likely (small integers would be preferred otherwise)
    mid = max(2, round(hi * 0.7))
    n = draw(st.permutations(draw(st.sampled_from(shapes or [
        (mid, mid, 3), (hi, 4, 3), (hi, mid, 1), (mid, 4, 4), (hi, hi, 2), (2 * hi, 2, 2), (5, 4, 3)]))))
    n = [max(1, v - draw(st.integers(0, 1))) for v in n]
    # first a big block, afterwards other materials and holes
    lab = np.zeros(n, dtype=int)
    lab[tuple(slice(draw(st.integers(0, 1)), None) if v > 2 else slice(None) for v in n)] = draw(st.integers(1, n_mat))
    for _ in range(draw(st.integers(0, 5))):
        lo = [draw(st.integers(0, v - 1)) for v in n]
        size = [draw(st.integers(1, max(1, v // 2))) for v in n]
        lab[tuple(slice(a, a + b) for a, b in zip(lo, size))] = draw(st.integers(0, n_mat))
    rng = np.random.default_rng(draw(st.integers(0, 10**6)))
    mat = lab.flatten(order="F")
    mat[rng.random(len(mat)) < draw(st.sampled_from([0.0, 0.0, 0.1, 0.25]))] = 0
    used = np.flatnonzero(mat)
    if len(used) > max_used:
        # cut the structure (keeps the shape of the grid)
        mat[used[max_used:] if draw(st.booleans()) else used[:-max_used]] = 0
    if not any(m and base["materials"][m - 1]["type"] != "magnetic" for m in mat):
        k = next(q for q in range(n_mat) if base["materials"][q]["type"] != "magnetic") + 1
        mat[:max(2, n[0] * n[1])] = k
    src = np.zeros(len(mat), dtype=int)
    for k in range(len(base["sources"])):
        src[rng.integers(0, len(mat), draw(st.integers(1, 12)))] = k + 1
    return dict(base, n=n, mat=[int(v) for v in mat], src=[int(v) for v in src])


LARGE = [(11, 11, 4), (18, 5, 5), (8, 8, 8), (36, 4, 3), (22, 22, 1), (150, 2, 1), (7, 6, 5)]


def mixed(tier, block, **kw):
    """Small random problems or structures made of (large) blocks."""
    if block == "large":
        return block_cases(tier, **dict(kw, max_used=500 if tier == "quick" else 900, shapes=LARGE))
    if block:
        return block_cases(tier, **dict(kw, max_used=70 if tier == "quick" else 120, hi=7 if tier == "quick" else 9))
    return problem_cases(**kw)


def any_tolerance(case, strict=True):
    """Numerical options picked from the case (the solution may not depend on them)."""
    k = case.get("order", 0)
    return api.tolerance(mult_type=["fft", "fft", "direct"][k % 3], fft_options__matrix_split=bool(k // 3 % 2),
                         fft_options__library=["SciPy", "NumPy"][k // 6 % 2])


MIXED = ("electric", "magnetic", "electromagnetic")


def setup_case(case, ctx, magnetic=False):
    """Problem, labels and floors of a case; None if there is nothing to solve."""
    prob = Problem(case)
    if not prob.well_posed:
        ctx.trivial("no conductor")
        return None, None, None
    labels(prob, ctx)
    ref = prob.reference()
    if len(ref.fc) == 0:
        ctx.trivial("no face")
    if abs(ref.i_floor) == 0:
        ctx.trivial("no excitation")
    if magnetic and not prob.magnetic:
        ctx.trivial("no magnetic voxel")
    if prob.pts:
        ref.field(prob.pts)
    return prob, ref, floors(ref)


HUGE = [(70, 60, 10), (5, 200, 40), (190, 181, 1)]
MESHES = [(20, 20, 3), (33, 30, 1), (9, 9, 9), (1, 17, 40), (6, 5, 30), (130, 2, 2), (12, 11, 10)]


@st.composite
def coarse(draw, tier, max_dom=300):
    """Voxel structures with many voxels, components, or domains (the labels are drawn from a seed)."""
    n = list(draw(st.permutations(draw(st.sampled_from(MESHES * 2 + HUGE)))))
    if n[0] * n[1] * n[2] > 10000:
        # few voxels with large indices
        return {
            "n": n, "n_dom": draw(st.sampled_from([k for k in (1, 2, 4, 12) if k <= max_dom])),
            "lab": {"seed": draw(st.integers(0, 10 ** 6)), "fill": draw(st.sampled_from([0.001, 0.01])), "pattern": "noise"},
        }
    return {
        "n": n, "n_dom": draw(st.sampled_from([k for k in (1, 2, 4, 12, 70, 140, 290) if k <= max_dom])),
        "lab": {"seed": draw(st.integers(0, 10 ** 6)), "fill": draw(st.sampled_from([0.05, 0.3, 0.6, 1.0])),
                "pattern": draw(st.sampled_from(["noise", "checker", "boxes", "lines", "lattice"]))},
    }


def expand(case):
    """Replace the seed of the labels by the labels (-1: empty)."""
    spec = case["lab"]
    if not isinstance(spec, dict):
        return case
    (n, n_dom) = (case["n"], case["n_dom"])
    rng = np.random.default_rng(spec["seed"])
    (x, y, z) = np.meshgrid(*[np.arange(v) for v in n], indexing="ij")
    lab = rng.integers(0, n_dom, tuple(n))
    empty = rng.random(tuple(n)) >= spec["fill"]
    if spec["pattern"] == "checker":
        empty |= (x + y + z) % 2 == 1
    elif spec["pattern"] == "lattice":
        empty |= (x % 2 + y % 2 + z % 2) > (1 if spec["seed"] % 2 else 0)
    elif spec["pattern"] == "lines":
        a = spec["seed"] % 3
        keep = rng.random(tuple(1 if k == a else v for k, v in enumerate(n))) < 0.4
        empty |= ~np.broadcast_to(keep, tuple(n))
    elif spec["pattern"] == "boxes":
        lab = np.full(tuple(n), -1)
        for _ in range(int(rng.integers(1, max(3, min(60, 2 * n_dom))))):
            lo = [int(rng.integers(0, v)) for v in n]
            lab[tuple(slice(k, k + int(rng.integers(1, max(2, v // 2)))) for k, v in zip(lo, n))] = rng.integers(-1, n_dom)
        empty = lab < 0
    lab = np.where(empty, -1, lab)
    return dict(case, lab=[int(v) for v in lab.flatten(order="F")])


def domain_names(names, n_dom):
    return list(names) + ["dom_%03d" % k for k in range(max(0, n_dom - len(names)))]
