"""
Stand-ins for the optional libraries (FFTW, MKL, CuPy, PARDISO, PyAMG), which are not installed.

They implement the documented interface of these libraries with NumPy/SciPy, so that the code that
selects and drives the libraries is exercised. An input that may be overwritten is destroyed.
"""

import sys
import types

import numpy as np


def _fft(fct):
    def run(mat, shape, axes, overwrite):
        out = fct(mat, shape, axes=axes)
        if overwrite and mat.flags.writeable:
            mat[...] = np.nan
        return out
    return run


def install():
    if "pyfftw" in sys.modules:
        return
    (fwd, inv) = (_fft(np.fft.fftn), _fft(np.fft.ifftn))

    def module(name, **kw):
        mod = types.ModuleType(name)
        mod.__dict__.update(kw)
        sys.modules[name] = mod
        if "." in name:
            (parent, child) = name.rsplit(".", 1)
            setattr(sys.modules[parent], child, mod)
        return mod

    # FFTW
    def byte_align(array, n=None, dtype=None):
        if not isinstance(array, np.ndarray):
            raise TypeError("array required")
        return array

    module("pyfftw", byte_align=byte_align)
    module("pyfftw.interfaces")
    module("pyfftw.interfaces.cache", enable=lambda: None, disable=lambda: None, set_keepalive_time=lambda t: float(t))

    def fftw(fct):
        def run(a, s=None, axes=None, norm=None, overwrite_input=False, planner_effort=None, threads=None,
                auto_align_input=None, auto_contiguous=None):
            if threads is not None and threads < 1:
                raise ValueError("threads")
            return fct(a, s, axes, overwrite_input)
        return run

    module("pyfftw.interfaces.numpy_fft", fftn=fftw(fwd), ifftn=fftw(inv))

    # MKL
    def mkl(fct):
        return lambda x, s=None, axes=None, overwrite_x=False: fct(x, s, axes, overwrite_x)

    module("mkl_fft", fftn=mkl(fwd), ifftn=mkl(inv))

    # CuPy (arrays are a separate type: host arrays are refused)
    class device(np.ndarray):
        pass

    def to_device(x, dtype=None):
        return np.array(x, dtype=dtype).view(device)

    def cupy_fft(fct):
        def run(a, s=None, axes=None):
            if not isinstance(a, device):
                raise TypeError("Unsupported type %s" % type(a))
            return fct(np.asarray(a), s, axes=axes).view(device)
        return run

    def maker(fct):
        return lambda *args, **kw: fct(*args, **kw).view(device)

    mod = module("cupy", array=to_device, asarray=to_device, asnumpy=lambda x: np.array(np.asarray(x)),
                 ones=maker(np.ones), zeros=maker(np.zeros), empty=maker(np.empty), arange=maker(np.arange))
    mod.__getattr__ = lambda name: getattr(np, name)
    module("cupy.fft", fftn=cupy_fft(np.fft.fftn), ifftn=cupy_fft(np.fft.ifftn))

    # factorization
    import scipy.sparse.linalg as sla

    class MKLPardisoSolver:
        def __init__(self, A, matrix_type=None, factor=True, verbose=False):
            if A.format != "csr":
                raise TypeError("csr matrix required")
            self.lu = sla.splu(A.tocsc())

        def solve(self, b, x=None, transpose=False):
            return self.lu.solve(b)

    def set_threads(num):
        if not isinstance(num, int) or num < 1:
            raise ValueError("number of threads")

    module("pydiso")
    module("pydiso.mkl_solver", MKLPardisoSolver=MKLPardisoSolver, set_mkl_pardiso_threads=set_threads, set_mkl_threads=set_threads)

    class Multilevel:
        def __init__(self, A):
            if A.format != "csr":
                raise TypeError("csr matrix required")
            self.lu = sla.splu(A.tocsc())

        def solve(self, b, x0=None, tol=1e-5, maxiter=100, cycle="V", accel=None):
            if accel not in (None, "gmres", "fgmres", "cg", "bicgstab"):
                raise ValueError("accel")
            return self.lu.solve(b)

    module("pyamg")
    module("pyamg.aggregation", rootnode_solver=lambda A: Multilevel(A), adaptive_sa_solver=lambda A: (Multilevel(A), 1.0))
