#!/opt/venv/bin/python
"""Set-up: nothing to build (pure Python), only make sure that the checks can be imported."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from pv import boot  # noqa: E402

boot.setup()

import hypothesis  # noqa: E402
import pypeec  # noqa: E402

from pv import engine  # noqa: E402

n = 0
for name in sorted(os.listdir(os.path.join(HERE, "pv", "props"))):
    if name.startswith("c") and name.endswith(".py"):
        engine.load_prop(name[:-3].upper())
        n += 1
print("hypothesis", hypothesis.__version__, "pypeec from", os.path.dirname(pypeec.__file__), "checks", n)
