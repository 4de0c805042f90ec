#!/opt/venv/bin/python
"""Run one check: run_check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from pv import boot  # noqa: E402

boot.setup()

from pv import engine  # noqa: E402

if __name__ == "__main__":
    sys.exit(engine.main(sys.argv[1:]))
