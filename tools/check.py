#!/usr/bin/env python3
"""check.py ID [--thorough]: runs the check of one property (module checks/<id>.py)."""
import importlib
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
sys.path.insert(0, os.path.join(V, "checks"))
sys.dont_write_bytecode = True
import vf  # noqa: E402

pid = sys.argv[1].upper()
m = importlib.import_module(pid.lower())
try:
    rc = vf.main(pid, m.run, getattr(m, "LEVEL", "model_checking"), getattr(m, "ASSUMPTIONS", ()))
except Exception:  # noqa: BLE001  an error of the check is neither a pass nor a violation
    import traceback
    traceback.print_exc()
    rc = 2
sys.exit(rc)
