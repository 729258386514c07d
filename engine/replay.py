#!/usr/bin/env python3-vt
"""replay.py <PROPERTY> <job> <inputs file>: compile the harness natively with /repo's sources and run the counterexample."""
import sys, os, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import run as R
import check
m = check.load_prop(sys.argv[1])
job = [j for j in m.jobs("thorough") + m.jobs("quick") if j["name"] == sys.argv[2]][0]
tmp = tempfile.mkdtemp(prefix="vp_")
try:
    inp = os.path.join(tmp, "in")
    with open(inp, "w") as f:
        f.write("".join(l for l in open(sys.argv[3]) if not l.startswith("#")))
    st, txt = R.native_run(R.compile_native(job, tmp), inp, tmp)
    print(st, txt)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
sys.exit(0 if st == "ok" else 1)
