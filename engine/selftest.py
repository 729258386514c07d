#!/usr/bin/env python3-vt
"""setup: smoke test of the symbolic executor on a harness without /repo code"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
r = run.run_job(dict(name="selftest", src="t_basic.cpp", budget=120), dict())
print("selftest", r["status"], r.get("detail", "")[:300])
sys.exit(0 if r["status"] in ("held", "violated") else 1)
