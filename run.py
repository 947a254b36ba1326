#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [-j N] [-v]"""
import argparse
import importlib
import os
import sys

PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
        "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "MPLBACKEND": "Agg", "PYVISTA_OFF_SCREEN": "true", "TQDM_DISABLE": "1"}
if any(os.environ.get(k) != v for k, v in WANT.items()) or (
        os.path.exists(PY) and sys.prefix != "/opt/venv"):
    os.environ.update(WANT)
    os.execv(PY if os.path.exists(PY) else sys.executable,
             [PY, os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"),
                    choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from mc import core
    mod = importlib.import_module(f"mc.checks.{a.property.lower()}")
    return core.main(mod, a.property, a.tier, a.j,
                     os.path.abspath(a.replay) if a.replay else None, a.v)


if __name__ == "__main__":
    sys.exit(main())
