"""Job runner: compile harness -> bitcode, symbolic execution, native replay."""
import json
import os
import resource
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
H = os.path.join(VERIF, "harness")

BASE = ["-DPP_USE_OMP", "-DPP_USE_EASYLOGGING", "-DEIGEN_MAX_STATIC_ALIGN_BYTES=0", '-DPP_EDGE_VERSION="offline"',
        "-DEIGEN_DONT_VECTORIZE", "-DVP=1"]


def edge_flags(eq="ELASTIC", el="TET4", order=4, prec=32, crs=1, relax=0, kernels="VANILLA"):
    d = ["-DPP_N_CRUNS=%d" % crs, "-DPP_ORDER=%d" % order, "-DPP_PRECISION=%d" % prec, "-DPP_T_ELEMENTS_" + el,
         "-DPP_N_RELAXATION_MECHANISMS=%d" % relax, "-DPP_T_KERNELS_" + kernels]
    if eq in ("ELASTIC", "VISCOELASTIC"):
        d += ["-DPP_T_EQUATIONS_SEISMIC"]
    else:
        d += ["-DPP_T_EQUATIONS_" + eq]
    return d


def incs(kind):
    out = ["-I" + os.path.join(H, "stubs"), "-I" + H]
    if kind == "edge":
        out += ["-I" + REPO, "-I" + REPO + "/src"]
    elif kind == "edge_v":
        out += ["-I" + REPO + "/tools/edge_v", "-I" + REPO + "/tools/edge_v/src", "-DPP_USE_METIS"]
    elif kind == "edge_cut":
        out += ["-I" + REPO + "/tools/edge_cut", "-I" + REPO + "/tools/edge_cut/src"]
    out += ["-I/opt/vp/deps/include", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial"]
    return out


def flags(job):
    f = list(BASE)
    f += ["-I" + os.path.join(H, d) for d in job.get("xinc", [])]
    f += incs(job.get("inc", "edge"))
    if job.get("inc", "edge") == "edge":
        f += edge_flags(**job.get("cfg", {}))
    f += ["-D%s" % d for d in job.get("defs", [])]
    f += ["-include", os.path.join(H, "stubs", "vp_pre.h")]
    f += ["-std=" + job.get("std", "c++11"), "-Wno-enum-constexpr-conversion"]
    return f


def compile_ir(job, tmp):
    out = os.path.join(tmp, "h.bc")
    cmd = ["clang++-18"] + flags(job) + ["-D__VP_SYM__=1", job.get("opt", "-O1"), "-g1", "-emit-llvm", "-c", "-w",
           "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fignore-exceptions", "-fno-threadsafe-statics",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-unroll-loops", "-mno-avx", "-fno-strict-aliasing", "-U_FORTIFY_SOURCE",
           os.path.join(H, job["src"]), "-o", out]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("harness does not compile: " + " ".join(cmd) + "\n" + p.stderr[-3000:])
    return out


def encoded(bc, tmp):
    """functions of /repo present in the encoding (inlined ones included), from the debug info"""
    import re
    ll = os.path.join(tmp, "h.ll")
    p = subprocess.run(["clang-18", "-x", "ir", "-S", "-emit-llvm", "-w", bc, "-o", ll], capture_output=True)
    if p.returncode:
        return []
    files, subs = {}, []
    for l in open(ll):
        if "!DIFile(" in l:
            m = re.match(r'(!\d+) = .*filename: "([^"]*)", directory: "([^"]*)"', l)
            if m:
                files[m.group(1)] = os.path.normpath(os.path.join(m.group(3), m.group(2)))
        elif "!DISubprogram(" in l:
            m = re.search(r'DISubprogram\(name: "([^"]*)"(?:, linkageName: "([^"]*)")?.* file: (!\d+)', l)
            if m:
                subs.append(m.groups())
    os.remove(ll)
    return [(lk or n, files[f]) for n, lk, f in subs if f in files and files[f].startswith(REPO + "/")]


def compile_native(job, tmp):
    out = os.path.join(tmp, "h.exe")
    if os.path.exists(out):
        return out
    san = [] if job.get("nosan") else ["-fsanitize=address"]
    cmd = ["clang++-18"] + flags(job) + ["-O1", "-g1", "-w", "-ftrivial-auto-var-init=pattern", "-ffp-contract=off"] + san + [
           os.path.join(H, job["src"]), os.path.join(H, "vp_rt.cpp"), "-o", out] + job.get("libs", [])
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("native harness does not compile: " + " ".join(cmd) + "\n" + p.stderr[-3000:])
    return out


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, k, v in inputs:
            n = n.replace(" ", "_")
            if k == "f":
                f.write("%s %r\n" % (n, float(v)))
            else:
                f.write("%s %d\n" % (n, v))


def unlimit():
    resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def native_run(exe, inp, cwd, known=()):
    """returns (status, text): 'ok' | 'fail' | 'diverged'"""
    res = None
    for fill in ("165", "0", "127"):
        env = dict(os.environ)
        env["VP_KNOWN"] = "\n".join(known)
        env["ASAN_OPTIONS"] = "detect_leaks=0:malloc_fill_byte=%s:max_malloc_fill_size=1073741824:allocator_may_return_null=1:exitcode=77:detect_stack_use_after_return=0" % fill
        try:
            p = subprocess.run([exe, inp], capture_output=True, text=True, timeout=60, env=env, cwd=cwd, errors="replace", preexec_fn=unlimit)
        except subprocess.TimeoutExpired:
            return "fail", "native replay does not terminate within 60 s"
        txt = (p.stdout + p.stderr)[-2000:]
        if p.returncode == 0:
            res = res or ("ok", txt)
        elif p.returncode in (3, 4, 5):
            res = res or ("diverged", txt)
        else:
            if p.returncode in (42, 43, 77) or p.returncode in (-6, -8, -11, -4):
                return "fail", "exit %d: %s" % (p.returncode, txt)
            res = res or ("diverged", "exit %d: %s" % (p.returncode, txt))
    return res


def run_job(job, opts):
    """executed in a child process; returns result dict"""
    sys.path.insert(0, HERE)
    import z3
    z3.set_param("memory_max_size", int(job.get("z3_mb", 6000)))
    import llvmc
    import symex
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp_")
    res = dict(job=job["name"], status="error", detail="", violations=[], unreproduced=[], stats={}, functions=[], reach={}, samples=[])
    try:
        bc = compile_ir(job, tmp)
        res["compile_s"] = round(time.time() - t0, 2)
        mod = llvmc.Module(bc)
        res["encoded"] = encoded(bc, tmp)
        deadline = t0 + job.get("budget", opts.get("budget", 600))
        confirmed = []

        def on_viol(rec):
            inp = os.path.join(tmp, "v.in")
            write_inputs(inp, rec["inputs"])
            exe = compile_native(job, tmp)
            kn = rec["kind"] == "assert" and rec["label"] in job.get("known", ())
            st, txt = native_run(exe, inp, tmp, [] if kn else job.get("known", ()))
            rec["replay"] = st
            rec["replay_out"] = txt[-600:]
            rec["known"] = kn
            if st == "fail":
                confirmed.append(rec)
                return not kn and not opts.get("keep_going")
            return False
        X = symex.Exec(mod, fp=job.get("fp", "real"), merge=job.get("merge", "none"), symaddr=job.get("symaddr", "ite"),
                       timeout_ms=job.get("timeout_ms", 20000), max_steps=job.get("max_steps", 30_000_000), deadline=deadline,
                       on_violation=on_viol, zero_uninit=job.get("zero_uninit", False), nomerge=job.get("nomerge", ()),
                       assert_timeout_ms=job.get("assert_timeout_ms", 120000), incr=job.get("incr", True),
                       fsplit=job.get("fsplit", False), branch_ms=job.get("branch_ms"))
        if job.get("uf_math"):
            X.uf_math = True
        X.known = set(job.get("known", ()))
        err = None
        try:
            X.run(job.get("entry", "vp_entry"))
        except symex.Inconclusive as e:
            err = "inconclusive: %s" % e
        except symex.Unsupported as e:
            err = "unsupported: %s in %s" % (e, X.where(X.cur))
        res["stats"] = X.stats
        res["functions"] = [(n, mod.funcs[n].fname, c) for n, c in X.funcs_used.items()]
        res["reach"] = X.reach
        res["samples"] = X.samples
        res["asserts_by_label"] = X.asserts_by_label
        res["undecided"] = X.undecided[:10]
        res["violations"] = confirmed
        res["unreproduced"] = [v for v in X.viol if v.get("replay") != "fail"][:5]
        if [v for v in confirmed if not v["known"]]:
            res["status"] = "violated"
        elif err:
            res["status"] = "error"
            res["detail"] = err
        elif X.undecided:
            res["status"] = "error"
            res["detail"] = "solver undecided: %r" % (X.undecided[:3],)
        elif res["unreproduced"]:
            res["status"] = "error"
            res["detail"] = "counterexample not reproduced natively: %r" % (res["unreproduced"][0],)
        else:
            miss = [l for l in job.get("reach", ["end"]) if l not in X.reach]
            if miss:
                res["status"] = "error"
                res["detail"] = "vacuous: no feasible path reaches %r" % miss
            elif X.stats["asserts"] == 0:
                res["status"] = "error"
                res["detail"] = "vacuous: no assertion evaluated"
            else:
                res["status"] = "held"
        # translator validation: run solver models of completed paths through the native build
        res["validated"] = 0
        res["valmismatch"] = 0
        if res["status"] == "held" and opts.get("validate", True) and X.samples_full:
            try:
                exe = compile_native(job, tmp)
                for ins in X.samples_full[:job.get("nval", 2)]:
                    inp = os.path.join(tmp, "s.in")
                    write_inputs(inp, ins)
                    st, txt = native_run(exe, inp, tmp, job.get("known", ()))
                    if st == "ok":
                        res["validated"] += 1
                    else:
                        res["valmismatch"] += 1
                        res.setdefault("valdetail", []).append((st, txt[-300:], ins))
            except Exception as e:
                res["valdetail"] = [("err", str(e)[-300:])]
    except Exception as e:
        res["status"] = "error"
        res["detail"] = "%s: %s" % (type(e).__name__, "".join(traceback.format_exception(e))[-2500:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res["wall_s"] = round(time.time() - t0, 2)
    return res
