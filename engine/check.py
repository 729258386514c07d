#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [quick|thorough] : decide one property with the solver.

exit 0: every job discharged; 1: confirmed violation (VIOLATION line); 2: no answer."""
import concurrent.futures as cf
import glob
import importlib.util
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "props"))
import run as R


def load_prop(pid):
    p = os.path.join(VERIF, "props", pid + ".py")
    spec = importlib.util.spec_from_file_location("prop_" + pid, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) job=(\S+) label=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def _child(job, opts, conn):
    lim = int(job.get("mem_gb", 12) * (1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (lim, resource.RLIM_INFINITY))
    try:
        r = R.run_job(job, opts)
    except MemoryError:
        r = dict(job=job["name"], status="error", detail="out of memory")
    conn.send(r)
    conn.close()


def run_all(jobs, opts, ncpu):
    """run jobs in child processes, at most ncpu at a time"""
    todo = list(jobs)
    running = []
    out = {}
    stop = False
    while todo or running:
        while todo and len(running) < ncpu and not stop:
            j = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(j, opts, b))
            p.start()
            b.close()
            running.append((p, a, j, time.time()))
        for it in list(running):
            p, a, j, t0 = it
            r = None
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(job=j["name"], status="error", detail="child ended without result (memory?)")
            elif not p.is_alive():
                r = dict(job=j["name"], status="error", detail="child died, exit code %r" % p.exitcode)
            elif time.time() - t0 > j.get("budget", opts.get("budget", 600)) + 240:
                p.kill()
                r = dict(job=j["name"], status="error", detail="child exceeded its time budget")
            if r is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(it)
                out[j["name"]] = r
                if os.environ.get("VP_VERBOSE"):
                    print("  job %-34s %-9s %6.1fs paths=%s queries=%s asserts=%s %s" % (
                        r["job"], r["status"], r.get("wall_s", 0), r.get("stats", {}).get("paths"), r.get("stats", {}).get("queries"),
                        r.get("stats", {}).get("asserts"), r.get("detail", "")[:1500]), flush=True)
                if r["status"] == "violated" and not opts.get("keep_going"):
                    new = [v for v in r["violations"] if not v.get("known")]
                    if new:
                        stop = True
        if stop:
            for p, a, j, t0 in running:
                p.kill()
                p.join(5)
                out[j["name"]] = dict(job=j["name"], status="stopped", detail="another job found a violation")
            running = []
            for j in todo:
                out[j["name"]] = dict(job=j["name"], status="stopped", detail="another job found a violation")
            todo = []
    return [out[j["name"]] for j in jobs]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    m = load_prop(pid)
    jobs = m.jobs(tier)
    if len(sys.argv) > 3:
        jobs = [j for j in jobs if re.search(sys.argv[3], j["name"])]
    for j in jobs:
        j.setdefault("mem_gb", 24 if len(jobs) == 1 else 10)
        j["known"] = [(l) for (jn, l, t) in known_findings(pid) if jn == j["name"]]
    opts = dict(budget=700 if tier == "quick" else 3000)
    res = run_all(jobs, opts, int(os.environ.get("VP_CPUS", "8")))
    kf = known_findings(pid)
    viol = []
    known = []
    errors = []
    for r in res:
        for v in r.get("violations", []):
            k = [x for x in kf if x[0] == r["job"] and x[1] == v["label"]]
            if k:
                known.append((k[0], r["job"], v))
            else:
                viol.append((r["job"], v))
        if r["status"] == "error":
            errors.append((r["job"], r.get("detail", "")))
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    rep = None
    if viol:
        rd = os.path.join(ev, "replay")
        os.makedirs(rd, exist_ok=True)
        jn, v = viol[0]
        rep = os.path.join(rd, "%s_%s.txt" % (pid, re.sub(r"\W", "_", jn)))
        with open(rep, "w") as f:
            f.write("# property %s, job %s, assertion: %s\n# in %s\n# native replay: %s\n# rerun: %s/engine/replay.py %s %s <this file>\n" % (
                pid, jn, v["label"], v["where"], v["replay_out"].replace("\n", " | ")[:400], VERIF, pid, jn))
            for n, k, x in v["inputs"]:
                f.write("%s %s\n" % (n.replace(" ", "_"), repr(float(x)) if k == "f" else int(x)))
    S = {}
    funcs = {}
    for r in res:
        for k, x in r.get("stats", {}).items():
            S[k] = S.get(k, 0) + x
        for n, fn in r.get("encoded", []):
            funcs[n] = fn[len(R.REPO) + 1:]
    names = list(funcs)
    try:
        dem = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.splitlines()
    except Exception:
        dem = names
    fl = sorted(set("%s [%s]" % (re.sub(r"<.*>", "<>", re.sub(r"\(.*", "", d))[:90], funcs[n]) for n, d in zip(names, dem)))
    samples = []
    for r in res:
        for s in r.get("samples", [])[:2]:
            samples.append({"job": r["job"], "inputs": s})
    evd = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
               coverage=dict(states=int(S.get("steps", 0)), transitions=int(S.get("forks", 0)) + int(S.get("paths", 0)),
                             traces_validated_against_impl=sum(r.get("validated", 0) for r in res),
                             paths=int(S.get("paths", 0)), assertions_checked=int(S.get("asserts", 0)),
                             assertions_decided_by_solver=int(S.get("assert_queries", 0)),
                             solver_queries=int(S.get("queries", 0)), solver_s=round(S.get("solver_s", 0), 2),
                             merges=int(S.get("merges", 0)), unknown=int(S.get("unknown", 0)),
                             functions_encoded=fl, bounds=getattr(m, "BOUNDS", ""),
                             jobs=[dict(job=r["job"], status=r["status"], detail=r.get("detail", "")[:300], wall_s=r.get("wall_s"),
                                        paths=r.get("stats", {}).get("paths"), queries=r.get("stats", {}).get("queries"),
                                        reach=r.get("reach"), asserts=r.get("asserts_by_label")) for r in res],
                             samples=samples[:6]),
               wall_s=round(time.time() - t0, 2), assumptions=list(getattr(m, "ASSUMPTIONS", [])),
               violations=[dict(job=j, label=v["label"], replay=rep) for j, v in viol][:5])
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1, default=str)
    for t in sorted(set(k[2] for k, j, v in known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    if viol:
        for jn, v in viol[:3]:
            print("job %s: assertion '%s' fails in %s; native replay: %s" % (jn, v["label"], v["where"], v["replay_out"].strip()[-200:]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    if errors:
        for j, d in errors:
            print("NO-ANSWER job %s: %s" % (j, d), file=sys.stderr)
        return 2
    print("property %s held: %d paths, %d assertions (%d by solver), %d queries, solver %.1fs, wall %.1fs" % (
        pid, S.get("paths", 0), S.get("asserts", 0), S.get("assert_queries", 0), S.get("queries", 0), S.get("solver_s", 0), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
