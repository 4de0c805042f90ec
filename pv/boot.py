"""
Process set-up shared by every check: import path, silent logging, Hypothesis from the tooling
environment (only Hypothesis and its one dependency, never a scientific library).
"""

import ctypes
import glob
import importlib.abc
import importlib.machinery
import logging
import os
import sys
import tempfile
import warnings
import zipfile

REPO = os.environ.get("PV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "QT_QPA_PLATFORM": "offscreen",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "VTK_SMP_MAX_THREADS": "1",
    "LANG": "C.UTF-8",
}

_TOOL_NAMES = ("hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_ftz_detector", "_hypothesis_pytestplugin")


class _ToolFinder(importlib.abc.MetaPathFinder):
    """Resolve only the property-based testing library from the given folder."""

    def __init__(self, folder):
        self.folder = folder

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] not in _TOOL_NAMES:
            return None
        return importlib.machinery.PathFinder.find_spec(fullname, [self.folder] if path is None else path)


def _tool_folder():
    for pat in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages", "/opt/veriftools/pyvenv/lib/python3*/site-packages"):
        for folder in glob.glob(pat):
            if os.path.isdir(os.path.join(folder, "hypothesis")):
                return folder
    # fall back on the wheelhouse
    folder = os.path.join(tempfile.gettempdir(), "pv_tools_%d" % os.getuid())
    if not os.path.isdir(os.path.join(folder, "hypothesis")):
        for name in ("hypothesis-*cp312*", "sortedcontainers-*"):
            for whl in glob.glob("/opt/veriftools/wheels/" + name + ".whl"):
                with zipfile.ZipFile(whl) as fid:
                    fid.extractall(folder)
    return folder


def _poison():
    """Fill new memory with 0xFE bytes: results that depend on uninitialised memory become visible and reproducible."""
    try:
        ctypes.CDLL(None).mallopt(-6, 1)
    except (OSError, AttributeError):
        pass


def setup():
    """Prepare this process (environment must be set before NumPy is loaded)."""
    sys.dont_write_bytecode = True
    for key, val in ENV.items():
        os.environ[key] = val
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.meta_path.append(_ToolFinder(_tool_folder()))
        import hypothesis  # noqa: F401
    _poison()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
