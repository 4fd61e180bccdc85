#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--keep] [--entry NAME]

Regenerates the LLVM IR of the harnesses and of /repo's sources, executes the
harness entries symbolically (build/symx) and reports. See DESIGN.md."""
import sys, os, json, subprocess, tempfile, shutil, time, re, threading, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MAEC_REPO", "/repo")
sys.path.insert(0, V)
from props import PROPS
T0 = time.time()
ENV = dict(os.environ, HOME="/root", LC_ALL="C.UTF-8", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
INC = ["-I" + REPO + "/include/maec", "-I" + V + "/lib", "-I" + V + "/harness", "-DALSA_F=1", "-DFFTW=1", "-DNDEBUG"]
BC = ["clang++", "-std=c++23", "-fno-pic", "-O1", "-g1", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
      "-ffp-contract=off", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-c", "-emit-llvm"]
MC = ["clang", "-O1", "-g1", "-fno-pic", "-fno-builtin", "-ffp-contract=off", "-w", "-c", "-emit-llvm"]
NAT = ["g++", "-std=c++23", "-O1", "-g1", "-w", "-ffp-contract=off"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
DEADLINE = 840.0

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=kw.pop("env", ENV), errors="replace", **kw)

def known():
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) label=\"([^\"]*)\" :: (.*)", l.strip())
            if m: out.append(m.groups())
    return out

def limit(mem_gb): return ["prlimit", "--as=%d" % int(mem_gb * 2**30)]

def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    only = args[args.index("--entry") + 1] if "--entry" in args else None
    prop = args[0]
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="symx-%s-" % prop, dir="/tmp")
    rdir = V + "/evidence/replay/" + prop
    shutil.rmtree(rdir, ignore_errors=True)
    try:
        return check(prop, P, tier, only, seed, work, rdir)
    finally:
        if "--keep" not in args: shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)

def allsrc(): return sorted(os.path.relpath(os.path.join(d, f), REPO) for d, _, fs in os.walk(REPO + "/src") for f in fs if f.endswith(".cpp"))

def check(prop, P, tier, only, seed, work, rdir):
    pool = cf.ThreadPoolExecutor(max_workers=8)
    # ---- regenerate the encoding
    units = {}
    def bc(path, extra):
        k = (path, tuple(extra))
        if k not in units:
            out = "%s/u%d.bc" % (work, len(units))
            units[k] = (out, pool.submit(sh, MC + [path, "-o", out] if path.endswith(".c") else BC + extra + INC + [path, "-o", out]))
        return units[k]
    groups = []
    for g in P["groups"]:
        ents = [e for e in g["entries"] if (tier == "thorough" or e.get("tier", "quick") == "quick") and (only is None or e["name"] == only)]
        if not ents: continue
        extra = g.get("defs", []) + (g.get("tdefs", []) if tier == "thorough" else g.get("qdefs", []))
        srcs = [V + "/harness/" + g["file"]] + [REPO + "/" + s for s in (allsrc() if P.get("allsrc") else g.get("src", []))]
        groups.append((g, ents, srcs, extra, [bc(s, extra + (["-I", V + "/lib/shim"] if g.get("shim") else [])) for s in srcs] + [bc(V + "/lib/model.c", [])]))
    if not groups: print('no such entry'); return 2
    # ---- native twins (validation of the translation, replay)
    natives = {}; nlock = threading.Lock()
    def native(gi, san):
        k = (gi, san)
        with nlock:
          if k not in natives:
            g, ents, srcs, extra, _ = groups[gi]
            exe = "%s/native%d_%s" % (work, gi, san)
            def build():
                objs = []; 
                cmds = []
                for i, s in enumerate(srcs + [V + "/lib/native.cpp"] + ([V + "/lib/sched.cpp"] if g.get("threads") else [])):
                    o = "%s.%d.o" % (exe, i); objs.append(o)
                    tsan = [] if s.startswith(V + "/lib/") else ["-fsanitize=thread"]
                    cmds.append(NAT + (tsan if g.get("threads") else SAN if san else []) + extra + INC + ["-c", s, "-o", o])
                with cf.ThreadPoolExecutor(max_workers=4) as p2: rs = list(p2.map(sh, cmds))
                for r in rs:
                    if r.returncode: return r.stdout
                r = sh(["g++"] + (SAN if san and not g.get("threads") else []) + ["-rdynamic"] + objs + ["-o", exe, "-ldl", "-lpthread"] + (["-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy"] if P.get("allsrc") else []) + g.get("libs", []))
                return r.stdout if r.returncode else None
            natives[k] = (exe, pool3.submit(build))
        return natives[k]
    pool2 = cf.ThreadPoolExecutor(max_workers=4)
    pool3 = cf.ThreadPoolExecutor(max_workers=3)
    for (src, _), (out, fut) in list(units.items()):
        r = fut.result()
        if r.returncode:
            print("COMPILE-ERROR %s\n%s" % (src, r.stdout[-3000:])); return 2
    # ---- symbolic execution of every entry
    def run(gi, e):
        g, ents, srcs, extra, bcs = groups[gi]
        out = "%s/%s.json" % (work, e["name"])
        t = e.get("time", 300) if tier == "quick" else e.get("ttime", max(e.get("time", 300), 600))
        t = min(t, DEADLINE - 60 - (time.time() - T0))
        cmd = [V + "/build/symx", "--entry=" + e["name"], "--out=" + out, "--repo=" + REPO + "/", "--time=%f" % t] + (e.get("topts", e.get("opts", [])) if tier == "thorough" else e.get("opts", [])) + [b[0] for b in bcs]
        try: r = sh(limit(e.get("mem", 12)) + cmd, timeout=max(t, 1) + 60)
        except subprocess.TimeoutExpired: return {"entry": e["name"], "status": "incomplete", "incomplete": ["executor killed after its time budget"], "violations": []}
        try: res = json.load(open(out))
        except Exception: return {"entry": e["name"], "status": "incomplete", "incomplete": ["executor failed (%s): %s" % (r.returncode, r.stdout[-400:])], "violations": []}
        missing = [x for x in e.get("reach", []) if not res["reach"].get(x)]
        if missing and res["status"] == "ok": res["status"] = "incomplete"; res["incomplete"].append("vacuous: witness not reached: %s" % missing)
        return res
    futs = []
    order = sorted(((gi, e) for gi, g in enumerate(groups) for e in g[1]), key=lambda x: -x[1].get("cost", 1))
    for gi, e in order: futs.append((gi, e, pool.submit(run, gi, e)))
    # ---- translator validation: random concrete inputs through both engines
    def validate(gi, e, k):
        g = groups[gi][0]
        if e.get("novalidate"): return None
        exe, fb = native(gi, False); err = fb.result()
        if err: return "native build failed: " + err[-1500:]
        if g.get("threads"):    # the real build under random schedules must agree with the executor's verdict
            n = 0
            for i in range(20):
                p = sh([exe, e["name"], "--random=%d" % (seed * 1000 + 20 * k + i)], timeout=60, env=dict(ENV, SCHED_RANDOM=str(seed * 1000 + 20 * k + i)))
                if p.returncode == 9: continue
                if p.returncode: return ("fails", "real build fails under a random schedule: " + p.stdout[-200:])
                n += 1
            return "same" if n else None
        d = "%s/%s.v%d" % (work, e["name"], k)
        try: r = sh([exe, e["name"], "--log", "--random=%d" % (seed * 1000 + k), "--dump=" + d], timeout=20)
        except subprocess.TimeoutExpired: return None
        if r.returncode != 0: return None      # assumption false, or a failure the symbolic run reports itself
        nl = [l[4:] for l in r.stdout.splitlines() if l.startswith("LOG ")]
        out = d + ".json"
        sh([V + "/build/symx", "--entry=" + e["name"], "--out=" + out, "--inputs=" + d, "--time=60", "--maxsteps=80000000", "--repo=" + REPO + "/"] + [b[0] for b in groups[gi][4]], timeout=100)
        try: el = json.load(open(out))
        except Exception: return "executor failed on concrete inputs"
        el["incomplete"] = [x for x in el["incomplete"] if not x.startswith("vacuous")]
        if el["incomplete"]: return "executor incomplete on concrete inputs: %s" % el["incomplete"][:2]
        if el["log"] != nl:
            for a, b in zip(nl + ["<end>"], el["log"] + ["<end>"]):
                if a != b and not close(a, b): return "disagreement: native %s / executor %s" % (a, b)
        return "same"
    def close(a, b):
        try:
            la, va = a.rsplit("=", 1); lb, vb = b.rsplit("=", 1)
            if la != lb: return False
            return all(abs(float.fromhex(x) - float.fromhex(y)) <= 1e-9 * max(1, abs(float.fromhex(x))) for x, y in zip(va.split(","), vb.split(",")))
        except ValueError: return False
    nval = 2 if tier == "quick" else 6
    vfuts = [(e, pool2.submit(validate, gi, e, k)) for gi, e in order for k in range(nval)] if not os.environ.get("SYMX_NOVALIDATE") else []
    results = [(gi, e, f.result()) for gi, e, f in futs]
    # ---- code that moved to another source file: once more, with every source file of the library
    moved = lambda x: isinstance(x, str) and re.search(r"undefined function|external function|undefined reference|undefined symbol", x)
    if not P.get("allsrc") and (any(moved(x) for _, _, r in results for x in r["incomplete"]) or any(moved(f.result()) for _, f in vfuts)):
        print("a function is not in the usual sources; using all of them"); return check(prop, dict(P, allsrc=True), tier, only, seed, work, rdir)
    # ---- replay of counterexamples on the real build
    kf = known(); alarms = []; knowns = []; unconfirmed = []
    for gi, e, r in results:
        byl = {}; g_threads = groups[gi][0].get("threads")
        for v in r["violations"]: byl.setdefault(v["label"], []).append(v)
        for label, vs in list(byl.items())[:6]:
            ok = None
            for i, v in enumerate(vs):
                if time.time() - T0 > DEADLINE - 20: break
                exe, fb = native(gi, True); err = fb.result()
                if err: print("replay build failed:\n" + err[-2000:]); break
                os.makedirs(rdir, exist_ok=True)
                base = "%s/%s-%s-%d" % (rdir, e["name"], re.sub(r"\W+", "_", label)[:50], i)
                with open(base + ".in", "w") as f:
                    for n, x in v["inputs"]: f.write("%s %s\n" % (n, x))
                    if v["sched"]: f.write("sched %s\n" % ",".join(map(str, v["sched"])))
                env = dict(ENV, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=1:allocator_may_return_null=0:max_allocation_size_mb=4096", UBSAN_OPTIONS="print_stacktrace=1", MALLOC_PERTURB_="170")
                try:
                    p = sh([exe, e["name"], base + ".in"], timeout=40, env=env); rc, txt = p.returncode, p.stdout
                except subprocess.TimeoutExpired: rc, txt = (124 if v["kind"] in ("termination", "deadlock") or v["kind"] == "limit" and not g_threads else -99), "timeout"
                if v["kind"] == "uninit" and rc == 0:
                    exe2, fb2 = native(gi, False)
                    if not fb2.result():
                        p = sh(["valgrind", "-q", "--error-exitcode=42", exe2, e["name"], base + ".in"], timeout=120); rc, txt = p.returncode, p.stdout
                if v["kind"] == "race" and rc == 0: pass
                with open(base + ".txt", "w") as f:
                    f.write("property %s\nharness entry %s\nkind %s\nviolated: %s\nat: %s\ninputs:\n" % (prop, e["name"], v["kind"], label, v["where"]))
                    for n, x in v["inputs"]: f.write("  %s = %s\n" % (n, x))
                    if v["sched"]: f.write("schedule (thread ids): %s\n" % v["sched"])
                    f.write("\nreplay on the real code: exit %s\n%s\n" % (rc, txt[-6000:]))
                if rc not in (0, 9, 3, -99): ok = (base + ".txt", v); break
            k = next((x for x in kf if x[0] == prop and x[1] == e["name"] and x[2] == label), None)
            if ok and k: knowns.append(k)
            elif not ok and all(v["kind"] == "limit" for v in vs): pass   # a limit of the executor only (reported as such)
            elif ok: alarms.append((e["name"], label, ok[0], ok[1]))
            elif all(v.get("approx") for v in vs) and any("gave no answer" in x and label in x for x in r["incomplete"]): pass   # guesses tried because the solver had no answer (reported as such)
            else: unconfirmed.append((e["name"], label, vs[0]))
    val = [f.result() for _, f in vfuts]
    vsame = sum(1 for x in val if x == "same")
    bad = {e["name"] for _, e, r in results if r["violations"]}
    vbad = [(e["name"], x) for (e, _), x in zip(vfuts, val) if x not in ("same", None) and not (isinstance(x, tuple) and e["name"] in bad)]
    inc = [(e["name"], x) for gi, e, r in results for x in r["incomplete"] if not (r["violations"] and "enough violations" in x)]
    # ---- evidence
    tot = lambda k: sum(r.get(k, 0) for _, _, r in results)
    fns = sorted({f for _, _, r in results for f in r.get("functions", [])})
    bounds = {}
    for _, _, r in results:
        for k, b in r.get("bounds", {}).items(): bounds.setdefault(k, set()).add(b)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "explanation": "Symbolic execution of the compiled real code (LLVM IR regenerated from %s on this run), every path within the bounds; assertions decided by z3." % REPO,
            "states": tot("states"), "transitions": tot("instructions"), "traces_validated_against_impl": vsame,
            "paths_completed": tot("completed"), "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "query_cache_hits": tot("cache_hits"), "solver_s": round(tot("solver_s"), 3), "slowest_query_s": max([r.get("solver_max_s", 0) for _, _, r in results] or [0]),
            "schedule_points": tot("sched_points"),
            "obligations": sum(sum(r.get("asserts", {}).values()) for _, _, r in results), "obligations_by_solver": tot("assert_queries"), "obligations_folded": tot("assert_folded"),
            "functions_encoded": fns, "bounds": {k: sorted(v) for k, v in sorted(bounds.items())}, "bound_notes": P.get("bounds", ""),
            "entries": [{"entry": e["name"], "status": r["status"], "paths": r.get("paths"), "completed": r.get("completed"), "queries": r.get("queries"), "wall_s": r.get("wall_s"), "reach": r.get("reach"), "asserts": r.get("asserts")} for _, e, r in results],
            "samples": [s for _, _, r in results for s in r.get("samples", [])[:1]][:12] or ["none"],
            "exhaustive": not inc and not unconfirmed and not vbad,
            "incomplete": ["%s: %s" % x for x in inc], "validation_disagreements": ["%s: %s" % x for x in vbad],
            "known_findings": [k[3] for k in knowns],
        },
        "assumptions": P.get("assume", []) + ["allocation never fails", "clang -O1 IR and the g++ build agree (cross-checked on random inputs on this run)"],
        "wall_s": round(time.time() - T0, 1), "violations": len(alarms),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    # ---- verdict
    for gi, e, r in results:
        print("%-34s %-10s paths=%s completed=%s queries=%s wall=%.1fs" % (e["name"], r["status"], r.get("paths"), r.get("completed"), r.get("queries"), r.get("wall_s", 0)))
    seen = set()
    for k in knowns:
        if k not in seen: print("KNOWN-FINDING: property=%s %s" % (prop, k[3])); seen.add(k)
    for n, l, path, v in alarms:
        print("VIOLATION property=%s replay=%s" % (prop, path)); print("  %s: %s: %s (%s)" % (n, v["kind"], l, v["where"][:200]))
    if alarms: return 1
    for n, l, v in unconfirmed: print("UNCONFIRMED %s: %s: %s at %s (did not reproduce on the real build)" % (n, v["kind"], l, v["where"]))
    # A path or time budget that ran out is a stated limit of what was explored (evidence: exhaustive false); anything else that stops
    # the exploration, or an entry of which no path got to its end, is no answer.
    budget = lambda x: re.match("time budget exhausted|path limit reached|solver gave no answer", x)
    reached = {e["name"]: all(r["reach"].get(x) for x in e.get("reach", [])) if "reach" in r else False for _, e, r in results}
    part = [(n, x) for n, x in inc if budget(x) and reached[n]]
    inc = [y for y in inc if y not in part]
    for n, x in part: print("PARTIAL %s: %s" % (n, x))
    for n, x in inc: print("INCONCLUSIVE %s: %s" % (n, x))
    for n, x in vbad: print("TRANSLATION-MISMATCH %s: %s" % (n, x))
    if unconfirmed or inc or vbad: return 2
    print("OK property=%s: %d paths, %d queries, %.1fs solver, %d traces cross-validated, wall %.1fs" % (prop, tot("completed"), tot("queries"), tot("solver_s"), vsame, time.time() - T0))
    return 0

if __name__ == "__main__":
    sys.exit(main())
