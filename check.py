#!/usr/bin/env python3
"""Builds a simulation harness from /repo's working tree and runs it for one property.

usage: check.py PROPERTY [--tier quick|thorough] [--seconds N] [--build-only] [--keep]
Exit 0: held on everything explored; 1: violation (VIOLATION line); anything else: error of the check.
"""
import hashlib, json, os, subprocess, sys, time, struct, shutil, concurrent.futures
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS, TRUSTED  # noqa: E402

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def repo_digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "sim"), os.path.join(VERIF, "harness")):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def build(harness):
    """Compiles the harness with /repo's headers. Output is keyed by the content of all sources."""
    spec = CHECKS["harnesses"][harness]
    dig = repo_digest()
    out = os.path.join(VERIF, "build", dig)
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, harness)
    if os.path.exists(exe) and not os.environ.get("VERIF_REBUILD"):
        return exe
    for d in os.listdir(os.path.join(VERIF, "build")):  # outputs of older source states
        p = os.path.join(VERIF, "build", d)
        if d != dig and os.path.isdir(p) and not d.startswith("run") and time.time() - os.path.getmtime(p) > 60:
            shutil.rmtree(p, ignore_errors=True)
    sim = os.path.join(VERIF, "sim")
    env = dict(os.environ); env["LC_ALL"] = "C.UTF-8"
    tmp = exe + ".%d" % os.getpid()
    jobs = []
    # create_tokenizer.cpp names a header the Windows way
    os.makedirs(out + "/compat", exist_ok=True)
    with open(tmp + ".win", "w") as f:
        f.write('#include "ml/byte_pair_encoder.hpp"\n')
    os.replace(tmp + ".win", out + "/compat/ml\\byte_pair_encoder.hpp")
    inc = ["-include", sim + "/compat/msvc_compat.hpp", "-I" + REPO + "/src", "-I" + REPO + "/src/ml", "-I" + REPO + "/src/lang/statements", "-I" + sim, "-I" + out + "/compat"]
    jobs.append((["g++", "-std=c++17", "-O2", "-w", "-I" + sim, "-c", sim + "/simkit.cpp", "-o", tmp + ".kit.o"]))
    if spec.get("sched"):
        jobs.append((["g++", "-std=c++17", "-O2", "-w", "-I" + sim, "-c", sim + "/sched.cpp", "-o", tmp + ".sched.o"]))
    if spec.get("coop"):
        jobs.append((["g++", "-std=c++17", "-O2", "-w", "-I" + sim, "-c", sim + "/coop.cpp", "-o", tmp + ".coop.o"]))
    jobs.append((["g++", "-std=c++17", "-w"] + spec.get("opt", ["-O1"]) + ["-g1", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"] + [f.replace("SIM", sim) if f.startswith("SIM/") else f for f in spec.get("flags", [])] + inc + ["-c", os.path.join(VERIF, "harness", spec["src"]), "-o", tmp + ".h.o"]))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda c: run(c, env=env), jobs):
            if r.returncode:
                print("BUILD FAILED\n" + r.stdout[-6000:]); sys.exit(3)
    objs = [tmp + ".h.o", tmp + ".kit.o"] + [tmp + ".%s.o" % k for k in ("sched", "coop") if spec.get(k)]
    r = run(["g++", "-rdynamic"] + objs + ["-o", tmp, "-ldl", "-lpthread", "-ltbb"], env=env)
    if r.returncode:
        print("LINK FAILED\n" + r.stdout[-6000:]); sys.exit(3)
    for o in objs:
        os.unlink(o)
    os.replace(tmp, exe)
    return exe

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                rest = l[len("finding: property=%s " % prop):]
                cls, _, what = rest.partition(" ")
                out.append((cls[len("class="):], what))
    return out

def main():
    a = sys.argv[1:]
    prop = a[0]
    opt = {a[i]: a[i + 1] for i in range(1, len(a) - 1) if a[i].startswith("--") and not a[i + 1].startswith("--")}
    tier = opt.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS["properties"][prop]
    t0 = time.time()
    exe = build(spec["harness"])
    tb = time.time() - t0
    if "--build-only" in a:
        return 0
    if "replay" in a:
        os.execv(exe, [exe, prop, "replay", a[a.index("replay") + 1]] + [x for x in a if x in ("--trace", "--quiet")])
    secs = float(opt.get("--seconds", spec.get("thorough_s", 420) if tier == "thorough" else spec.get("quick_s", 25)))
    workers = int(opt.get("--workers", "8"))
    outdir = os.path.join(VERIF, "build", "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    kf = known_findings(prop)
    ps = []
    for w in range(workers):
        ps.append(subprocess.Popen([exe, prop, "worker", "--tier", "1" if tier == "thorough" else "0", "--seed", str(seed), "--first", str(w), "--stride", str(workers),
                                    "--seconds", str(secs), "--out", outdir, "--known", ",".join(c for c, _ in kf)],
                                   stdout=subprocess.DEVNULL, stderr=open(os.path.join(outdir, "err%d" % w), "w")))
    rc = [p.wait() for p in ps]
    J = []; hashes = set(); states = set(); errors = []
    for w in range(workers):
        try:
            J.append(json.load(open(os.path.join(outdir, "w%d.json" % w))))
            for nm, st in (("hash", hashes), ("state", states)):
                b = open(os.path.join(outdir, "w%d.%s" % (w, nm)), "rb").read()
                st.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except Exception as e:  # noqa: BLE001
            errors.append("worker %d: rc %s %s %s" % (w, rc[w], e, open(os.path.join(outdir, "err%d" % w)).read()[-2000:]))
    for w, j in enumerate(J):
        if j["error"]:
            errors.append(j["error"])
    tot = lambda k: sum(j[k] for j in J)
    def merge(k):
        m = {}
        for j in J:
            for a_, b_ in j[k].items():
                m[a_] = m.get(a_, 0) + b_
        return dict(sorted(m.items()))
    viols = {}
    for j in J:
        for v in j["viol"]:
            viols.setdefault(v["class"], v)
    wall = time.time() - t0
    runwall = max([j["wall"] for j in J] + [0.001])
    runs = tot("runs")
    rep = []
    if viols and not errors:
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        for c, v in viols.items():
            dst = os.path.join(rd, os.path.basename(v["file"])); shutil.copy(v["file"], dst); rep.append((c, v, dst))
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": runs, "distinct_nontrivial": len(hashes) if len(hashes) < tot("nontrivial") else tot("nontrivial"),
            "rule": (J[0]["rule"] if J else "") + " Counted: distinct event-trace hashes of runs in which an oracle judged at least one outcome.",
            "samples": [s for j in J for s in j["samples"]][:4],
            "base_plans": tot("bases"), "fault_runs": tot("fault_runs"), "fault_free_runs": runs - tot("fault_runs"),
            "seeds": tot("bases"), "runs_per_hour": int(runs / runwall * 3600), "seeds_per_hour": int(tot("bases") / runwall * 3600),
            "simulated_seconds": round(tot("sim_s"), 3), "faults_fired": merge("fired"), "coverage_tags": merge("tags"),
            "simulated_processes": tot("boots"), "injected_crashes": tot("crashes"), "io_fault_points_passed": tot("io"), "allocations_passed": tot("allocs"),
            "distinct_event_traces": len(hashes), "distinct_judged_states": len(states), "determinism_rechecks": tot("det_checks"),
            "known_findings_seen": merge("known"),
            "real_code": spec["real"], "stubbed": TRUSTED,
            "build_s": round(tb, 1),
        },
        "assumptions": TRUSTED + spec.get("assume", []),
        "wall_s": round(wall, 2), "violations": len(rep),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if not (errors and "--keep" in a):
        shutil.rmtree(outdir, ignore_errors=True)
    print("%s %s: %d runs (%d with faults), %d distinct traces, %d judged states, fired %s, build %.0fs run %.0fs" % (prop, tier, runs, tot("fault_runs"), len(hashes), len(states), merge("fired"), tb, runwall))
    print("tags", merge("tags"))
    if errors:
        print("ERROR", *errors, sep="\n"); return 3
    if runs == 0:
        print("ERROR no runs"); return 3
    for c, what in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for c, v, dst in rep:
        print("violation class %s: %s" % (c, v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    return 1 if rep else 0

if __name__ == "__main__":
    sys.exit(main())
