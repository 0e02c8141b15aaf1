#!/usr/bin/env python3
"""Decide a property by deterministic simulation with fault injection.

    check.py PROPERTY [--tier quick|thorough] [--runs N] [--procs N]
    check.py --replay FILE
    check.py --run PROPERTY NUMBER      (one run of the search, with trace)
"""
import os
import sys

PY = "/opt/venv/bin/python"

if os.environ.get("DST_CHILD") != "1":
    env = dict(os.environ, DST_CHILD="1", PYTHONHASHSEED=os.environ.get("DST_HASHSEED", "0"),
               PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent/pycache",
               PYTHONUTF8="1", PYTHONNOUSERSITE="1")
    env.pop("PYTHONPATH", None)
    env.pop("PYTHONHOME", None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from dst import main
sys.exit(main.main(sys.argv[1:]))
