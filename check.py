#!/usr/bin/env python3
"""check.py <property> [--replay FILE | --only SUB,SUB]

Runs the generated-input search of one property; environment VERIF_SEED,
VERIF_TIER (quick or thorough), OCRV_REPO, OCRV_JOBS, OCRV_BUDGET (seconds).
"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/veriftools/pyvenv/bin/python3"
try:
    import hypothesis  # noqa: F401
except ImportError:
    if os.path.exists(VENV) and not os.environ.get("OCRV_VENV"):
        os.environ["OCRV_VENV"] = "1"
        os.execv(VENV, [VENV] + sys.argv)
    raise

sys.path.insert(0, HERE)
os.chdir(HERE)
os.environ.setdefault("PYTHONHASHSEED", "0")

if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    prop = sys.argv[1]
    from ocrv import core
    mod = importlib.import_module("checks." + prop.lower())
    large = importlib.import_module("checks.large")
    sys.exit(core.main(prop, mod.SUBS + large.subs(prop), mod.__doc__, sys.argv[2:]))
