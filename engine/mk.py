#!/usr/bin/env python3-vt
"""regenerates properties.jsonl and MANIFEST.json from props/*.py"""
import glob, importlib.util, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, V + "/props"); sys.dont_write_bytecode = True
props, checks, na = [], [], []
for p in sorted(glob.glob(V + "/props/P*.py")):
    s = importlib.util.spec_from_file_location("m", p); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    pid = os.path.basename(p)[:-3]
    d = dict(id=pid, title=m.TITLE, statement=" ".join(m.STATEMENT.split()), quantifier=dict(over=m.OVER, text=" ".join(m.QTEXT.split())),
             why_tests_cant=" ".join(m.WHY.split()), anchors=dict(files=m.FILES, mechanism=[dict(name=n, where=w) for n, w in m.MECH]))
    assert len(m.TITLE) <= 80, m.TITLE
    props.append(d)
    if getattr(m, "NA", None):
        na.append(dict(property=pid, reason=m.NA)); continue
    checks.append(dict(property=pid, quick_cmd="python3-vt engine/check.py %s quick" % pid, thorough_cmd="python3-vt engine/check.py %s thorough" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=getattr(m, "TECH", "symbolic execution of the compiler's LLVM IR of the real code, assertions decided by SMT (z3/cvc5), counterexamples replayed natively"),
                       level="model_checking", level_note="Every path and every input value within: " + m.BOUNDS + ". Assumes: " + "; ".join(m.ASSUMPTIONS) + "."))
open(V + "/properties.jsonl", "w").write("".join(json.dumps(d) + "\n" for d in props))
man = dict(version=1, setup_cmd="python3-vt engine/selftest.py", checks=checks, not_applicable=na,
           notes="Solver-based checking: engine/ is a symbolic executor for clang bitcode; harness/ includes /repo's sources directly; props/ lists the jobs per property.")
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(props), "properties", len(checks), "checks")
