#!/usr/bin/env python3
"""Builds the symbolic engine and the harness crates once (the checks rebuild what changed)."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["check.py"]
g = {"__file__": V + "/check.py", "__name__": "setup"}
exec(compile(open(V + "/check.py").read(), "check.py", "exec"), g)
g["build"](sorted({c for v in g["CRATES"].values() for c in v}))
