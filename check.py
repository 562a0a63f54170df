#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current code.

  check.py P01            run the property's harnesses (tier from VERIF_TIER)
  check.py --setup        build the engine only
  check.py --list         list runs
Exit: 0 held within the bounds, 1 violation (confirmed by native replay), 2 no answer.
"""
import hashlib, json, os, re, subprocess, sys, tempfile, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
CLANG = "/usr/bin/clang++-18"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
INC = ["-I" + ROOT + "/lib", "-I" + REPO + "/src", "-I" + REPO + "/external", "-isystem", "/usr/include/eigen3", "-isystem", "/opt/vp/cmake/fmt/include",
       "-isystem", "/usr/include/hdf5/openmpi", "-isystem", "/usr/lib/x86_64-linux-gnu/openmpi/include", "-isystem", "/opt/vp/cmake/pybind11/include"]
DEF = ["-DEIGEN_NO_CPUID", "-D__DNDS_REALLY_COMPILING__", "-DNINSERT", "-DVERIF_HARNESS"]
COMMON = ["-std=c++17", "-w"] + INC + ["-isystem", ROOT + "/lib/ext"]
BC = ["-DVERIF_ENGINE", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-DEIGEN_DONT_VECTORIZE", "-isystem", ROOT + "/lib/inc", "-fno-threadsafe-statics", "-fno-unroll-loops", "-gmlt", "-emit-llvm", "-c"]
NAT = ["-DFMT_HEADER_ONLY", "-O1", "-g1", "-fno-threadsafe-statics", "-DEIGEN_DONT_VECTORIZE", "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer"]

def sh(cmd, timeout=None, env=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, env=env)

def ensure_engine():
    os.makedirs(BUILD, exist_ok=True)
    r = sh(["make", "-C", ROOT + "/engine", "OUT=" + BUILD])
    if r.returncode != 0:
        print(r.stdout[-3000:], r.stderr[-3000:])
        sys.exit(2)

def load():
    """harness files carry //@run lines (JSON) and one //@unit line"""
    runs = []
    for f in sorted(glob.glob(ROOT + "/harness/*.cpp")):
        unit = {}
        for line in open(f):
            m = re.match(r"//@unit\s+(\{.*\})", line)
            if m: unit = json.loads(m.group(1))
            m = re.match(r"//@run\s+(\{.*\})", line)
            if m:
                r = json.loads(m.group(1))
                r["file"] = f
                r["unit"] = unit
                runs.append(r)
    return runs

def compile_unit(work, f, unit, thorough, native=False):
    """compile a harness and the sources it needs; returns path of linked bitcode / executable"""
    tag = os.path.basename(f)[:-4] + ("_t" if thorough else "")
    d = DEF + (["-DTHOROUGH"] if thorough else []) + unit.get("flags", [])
    srcs = [f] + [REPO + "/" + x for x in unit.get("repo", [])] + [ROOT + "/lib/" + x for x in unit.get("lib", [])]
    objs = []
    jobs = []
    for i, s in enumerate(srcs):
        o = "%s/%s_%d.%s" % (work, tag, i, "o" if native else "bc")
        objs.append(o)
        fl = (NAT + ["-c"] + (["-fsanitize=address"] if unit.get("asan", True) else [])) if native else BC
        jobs.append([CLANG] + COMMON + d + fl + [s, "-o", o])
    if native:
        o = work + "/" + tag + "_vh.o"
        jobs.append([CLANG] + COMMON + NAT + (["-fsanitize=address"] if unit.get("asan", True) else []) + ["-c", ROOT + "/lib/vh_native.cpp", "-o", o])
        objs.append(o)
    else:
        o = work + "/" + tag + "_rt.bc"
        jobs.append([CLANG] + COMMON + BC + [ROOT + "/lib/rt.cpp", "-o", o])
        objs.append(o)
    with ThreadPoolExecutor(4) as ex:
        rs = list(ex.map(sh, jobs))
    for r, j in zip(rs, jobs):
        if r.returncode != 0: return None, "compile failed: " + " ".join(j[-3:]) + "\n" + r.stderr[:900]
    out = work + "/" + tag + ("_native" if native else "_all.bc")
    if native:
        r = sh([CLANG] + (["-fsanitize=address"] if unit.get("asan", True) else []) + ["-rdynamic"] + objs + ["-o", out, "-ldl", "-lm"] + unit.get("nlibs", ["-L/opt/vp/cmake/fmt/lib"]))
    else:
        r = sh([LINK] + objs + ["-o", out])
    if r.returncode != 0: return None, "link failed: " + r.stderr[:900]
    return out, None

def expand(r):
    """shards"""
    sh_ = r.get("shard")
    if not sh_: return [dict(r, pins=[])]
    res = [[]]
    for name, lo, hi in sh_:
        res = [p + [(name, v)] for p in res for v in range(lo, hi + 1)]
    return [dict(r, pins=p) for p in res]

def run_engine(work, bc, r, idx, more=None):
    out = "%s/out_%s.json" % (work, idx)
    o = r.get("opts", [])
    tl = r.get("time", 240 if TIER == "quick" else 1500)
    if more: o, tl = o + ["--qtimeout=100000", "--ftimeout=10000"], more
    cmd = [BUILD + "/vsym", bc, "--entry=" + r["entry"], "--out=" + out, "--time=%g" % tl, "--seed=%d" % SEED, "--prefix=" + REPO + "/"] + ["--pin=%s=%d" % p for p in r["pins"]] + o
    t = time.time()
    try:
        p = sh(cmd, timeout=tl + 120)
    except subprocess.TimeoutExpired:
        return {"entry": r["entry"], "crash": "engine timed out"}
    if not os.path.exists(out):
        return {"entry": r["entry"], "crash": "engine exit %d: %s" % (p.returncode, p.stderr[-1500:])}
    j = json.load(open(out))
    j["cmd"] = " ".join(cmd)
    j["stderr"] = p.stderr[-2000:]
    return j

def replay(exe, entry, inputs, path, pins, tmo=120):
    with open(path, "w") as f:
        f.write("%% replay: entry %s\n" % entry)
        for k, v in inputs: f.write("%s %s\n" % (k, v))
    env = dict(os.environ, MALLOC_PERTURB_="123", ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:exitcode=1:malloc_fill_byte=123:max_malloc_fill_size=100000000:allocator_may_return_null=0")
    try:
        p = sh([exe, entry, path], timeout=tmo, env=env)
        return p.returncode, p.stderr[-1500:]
    except subprocess.TimeoutExpired:
        return -999, "timeout"

def main():
    if "--setup" in sys.argv:
        ensure_engine()
        return 0
    allruns = load()
    if "--list" in sys.argv:
        for r in allruns: print(r["prop"], os.path.basename(r["file"]), r["entry"], r.get("tier", "quick"))
        return 0
    prop = sys.argv[1]
    only = sys.argv[2:] and set(sys.argv[2:]) or None
    thorough = TIER == "thorough"
    t0 = time.time()
    ensure_engine()
    runs = [r for r in allruns if r["prop"] == prop and (thorough or r.get("tier", "quick") == "quick") and (not only or r["entry"] in only)]
    if not runs:
        print("no runs for", prop)
        return 2
    kf = []
    if os.path.exists(ROOT + "/known_findings.json"):
        kf = [k for k in json.load(open(ROOT + "/known_findings.json")).get("findings", []) if k["property"] == prop]
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 3e9 else None
    work = tempfile.mkdtemp(prefix="vsym_", dir=base)
    rdir = ROOT + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    viol, known, problems, results = [], [], [], []
    val = {"ran": 0, "ok": 0, "skipped": 0, "bad": []}
    try:
        files = sorted({r["file"] for r in runs})
        units = {f: [r for r in runs if r["file"] == f][0]["unit"] for f in files}
        bcs, exes = {}, {}
        with ThreadPoolExecutor(JOBS) as ex:
            fb = {f: ex.submit(compile_unit, work, f, units[f], thorough) for f in files}
            fn = {f: ex.submit(compile_unit, work, f, units[f], thorough, True) for f in files}
            for f in files:
                b, e = fb[f].result()
                if e: problems.append(e)
                bcs[f] = b
            jobs = []
            for r in runs:
                if bcs[r["file"]]:
                    jobs += expand(r)
            jobs.sort(key=lambda r: -r.get("weight", 1))
            futs = [(r, ex.submit(run_engine, work, bcs[r["file"]], r, i)) for i, r in enumerate(jobs)]
            for r, fu in futs: results.append((r, fu.result()))
            # what a query time limit left undecided (a busy machine) is tried again with more time
            left = (840 if TIER == "quick" else 7200) - (time.time() - t0)
            again = [i for i, (r, j) in enumerate(results) if j.get("unknown") and not j["violations"]]
            if again and left > 60:
                futs = [(i, ex.submit(run_engine, work, bcs[results[i][0]["file"]], results[i][0], "r%d" % i, max(30, left - 130))) for i in again]
                for i, fu in futs: results[i] = (results[i][0], fu.result())
            for f in files:
                b, e = fn[f].result()
                if e: problems.append("native: " + e)
                exes[f] = b
        n = 0
        reach = {}
        for r, j in results:
            if "crash" in j:
                problems.append("%s: %s" % (r["entry"], j["crash"]))
                continue
            exe = exes.get(r["file"])
            newv = 0
            for v in j["violations"]:
                path = "%s/%s_%s_%d.txt" % (rdir, prop, r["entry"], n)
                n += 1
                if not exe:
                    problems.append("violation without a native replay: " + v["msg"])
                    continue
                rc, err = replay(exe, r["entry"], v["inputs"], path, r["pins"])
                confirmed = rc in (1,) or rc < 0 and rc != -999 or (rc == -999 and v["kind"] == "hang")
                k = [x for x in kf if x["entry"] == r["entry"] and x["msg"] == v["msg"]]
                if k and confirmed:
                    known.append((k[0], path))
                elif confirmed:
                    newv += 1
                    viol.append((r, v, path, err))
                else:
                    problems.append("%s: solver counterexample for '%s' not reproduced natively (rc=%s, at %s): %s; inputs %s" % (r["entry"], v["msg"], rc, v["where"], err.strip()[-300:], v["inputs"]))
            if j["errors"]: problems.append("%s: %d paths not encoded: %s" % (r["entry"], j["errPaths"], j["errors"][:3]))
            if j["limit"] and not (j["limit"] == "violation limit"): problems.append("%s %s: %s reached, %d pending" % (r["entry"], r["pins"], j["limit"], j["pending"]))
            if j["unknown"]: problems.append("%s: undecided obligations %s" % (r["entry"], j["unknown"]))
            a = reach.setdefault((r["file"], r["entry"]), [set(), set(r.get("reach", [])), False])
            a[0] |= set(j["reach"])
            if j["violations"]: a[2] = True
            if exe:
                for si, inp in enumerate(j["samples"][:3]):
                    path = "%s/%s_s.txt" % (work, r["entry"])
                    rc, err = replay(exe, r["entry"], inp, path, r["pins"])
                    val["ran"] += 1
                    if rc == 0: val["ok"] += 1
                    elif rc == 4: val["skipped"] += 1
                    else: val["bad"].append((r["entry"], rc, err.strip()[-300:], inp[:20]))
        for (f, e), (got, need, hasv) in reach.items():
            if hasv: continue
            if not got: problems.append("%s: vacuous, no witness point reached" % e)
            if need - got: problems.append("%s: witness points not reached: %s" % (e, sorted(need - got)))
        for b in val["bad"]:
            problems.append("path model replayed natively disagrees with the symbolic verdict: %s" % (b,))
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)
    wall = time.time() - t0
    js = [j for r, j in results if "crash" not in j]
    S = lambda k: sum(j[k] for j in js)
    fns = sorted({f for j in js for f in j["functions"]})
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking", "wall_s": round(wall, 2),
          "violations": len(viol),
          "coverage": {
              "states": S("paths"), "transitions": S("insts"), "traces_validated_against_impl": val["ok"],
              "samples": [{"entry": r["entry"], "inputs": j["samples"][-1]} for r, j in results if "crash" not in j and j["samples"]][:6],
              "symbolic_paths_completed": S("complete"), "forks": S("forks"), "solver_queries": S("queries"), "queries_unsat": S("unsat"), "queries_sat": S("sat"), "queries_unknown": S("unk"),
              "query_cache_hits": S("qcache"), "solver_seconds": round(S("solver_s"), 3), "obligations_checked": S("asserts"), "obligations_symbolic": S("assertsSym"), "obligations_by_normal_form": S("trivial"),
              "obligations_by_linear_relaxation": S("lra"), "obligations_by_nlsat": S("nra"), "branch_feasibility_unknown": S("forkUnk"), "denominator_nonzero_assumptions": S("divAssume"),
              "functions_encoded": fns[:400], "functions_encoded_count": len(fns),
              "runs": [{"entry": r["entry"], "pins": r["pins"], "bounds": r.get("bounds", ""), "paths": j["paths"], "queries": j["queries"], "wall_s": round(j["wall_s"], 2), "solver_s": round(j["solver_s"], 2), "reached": j["reach"], "obligations": j["obligations"]} for r, j in results if "crash" not in j],
              "stubs": sorted({s for j in js for s in j["stubs"]}),
              "known_findings": [k["what"] for k, p in known],
              "undecided": problems},
          "assumptions": ["double arithmetic is encoded as exact real arithmetic; comparisons in harnesses use stated tolerances", "denominators met on a path are assumed non-zero",
                          "libstdc++ out-of-line containers, libm, MPI and stream I/O are modelled (lib/, engine/models.inc)", "bounds are those listed per run; nothing outside them is claimed"]}
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    if not only: json.dump(ev, open(ROOT + "/evidence/%s.json" % prop, "w"), indent=1)
    for k, p in known: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for r, v, p, err in viol:
        print("  %s: %s [%s] at %s\n  native: %s\n  inputs: %s" % (r["entry"], v["msg"], v["kind"], v["where"], err.strip()[-400:], v["inputs"][:40]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    print("%s: %d paths, %d obligations, %d queries (%.1f s solver), %d functions, native validation %d/%d, wall %.1f s" % (prop, S("paths"), S("asserts"), S("queries"), S("solver_s"), len(fns), val["ok"], val["ran"], wall))
    if viol: return 1
    if problems:
        for p in problems: print("NO-ANSWER:", p)
        return 2
    return 0

sys.exit(main())
