#!/usr/bin/env python3
"""Runs the check of one property: compiles the contract driver together with /repo's current sources to LLVM IR,
generates and discharges the obligations with engine/nvc, looks for a concrete failing input for every obligation that
fails, and writes the evidence file."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
L = "/usr/lib/llvm-18/bin/"
BUILD = V + "/build"
CPUS = os.cpu_count() or 8
sys.path.insert(0, V)
BASE = ["-std=c++14", "-fno-access-control", "-O1", "-I" + SRC, "-I" + V + "/spec", "-w", "-pthread"]
IR = BASE + ["-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-include", V + "/spec/pre.hpp", "-fno-strict-aliasing", "-fno-access-control"]

def sh(cmd, timeout=None, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") + "\n[timeout]"

def engine():
    h = hashlib.sha256()
    for f in sorted(os.listdir(V + "/engine")):
        h.update(open(V + "/engine/" + f, "rb").read())
    stamp = BUILD + "/stamp"
    want = h.hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(BUILD + "/nvc") and os.path.exists(BUILD + "/nvinst"):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(sh, ["bash", V + "/engine/build.sh", tmp + "/nvc"])
        b = ex.submit(sh, ["bash", V + "/engine/build_inst.sh", tmp + "/nvinst"])
        for r in (a.result(), b.result()):
            if r[0] != 0:
                print(r[1]); raise SystemExit("engine build failed")
    os.replace(tmp + "/nvc", BUILD + "/nvc")
    os.replace(tmp + "/nvinst", BUILD + "/nvinst")
    shutil.rmtree(tmp)
    open(stamp, "w").write(want)

def baseline_files():
    return set(open(V + "/spec/known_sources.txt").read().split())

def repo_tus():
    r = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(".cpp"):
                r.append(os.path.relpath(os.path.join(d, f), SRC))
    return sorted(r)

class Build:
    def __init__(self, work):
        self.work = work
        self.ex = cf.ThreadPoolExecutor(CPUS)
        self.jobs = {}

    def ir(self, src, flags=()):
        key = ("ir", src, tuple(flags))
        if key not in self.jobs:
            out = "%s/%s.bc" % (self.work, hashlib.md5(repr(key).encode()).hexdigest()[:12])
            self.jobs[key] = self.ex.submit(lambda: (sh([L + "clang++"] + list(flags) + [src, "-o", out]), out))
        return self.jobs[key]

def extra_tus(tus):
    known = baseline_files()
    return [t for t in repo_tus() if t not in known and t not in tus]

def link_driver(b, driver, tus, harnesses, name):
    """compile + link + reduce; returns (path or None, log)"""
    tus = list(tus) + extra_tus(tus)
    files = [V + "/spec/" + driver, V + "/spec/model.cpp"] + [SRC + "/" + t for t in tus]
    futs = [b.ir(f, IR) for f in files]
    outs = []
    for f, fu in zip(files, futs):
        (rc, log), out = fu.result()
        if rc != 0:
            return None, "compiling %s failed:\n%s" % (f, log[-6000:])
        outs.append(out)
    linked = "%s/%s.l.bc" % (b.work, name)
    rc, log = sh([L + "llvm-link"] + outs + ["-o", linked])
    if rc != 0:
        return None, "link: " + log[-3000:]
    red = "%s/%s.bc" % (b.work, name)
    rc, log = sh([L + "opt", "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg),globaldce",
                  "--internalize-public-api-list=" + ",".join("vf_harness_" + h for h in harnesses), linked, "-o", red])
    if rc != 0:
        return None, "opt: " + log[-3000:]
    return red, ""

def native_exe(work, driver, tus):
    exe = work + "/native_" + driver.replace(".cpp", "")
    if os.path.exists(exe):
        return exe, ""
    tus = list(tus) + extra_tus(tus)
    files = [V + "/spec/" + driver, V + "/spec/native.cpp"] + [SRC + "/" + t for t in tus]
    outs, log = [], ""
    with cf.ThreadPoolExecutor(CPUS) as ex:
        futs = []
        for i, f in enumerate(files):
            o = "%s/n%d_%s.o" % (work, i, os.path.basename(exe))
            outs.append(o)
            futs.append(ex.submit(sh, [L + "clang++"] + BASE + ["-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-c", f, "-o", o]))
        for fu in futs:
            if fu.result()[0] != 0:
                return None, fu.result()[1][-3000:]
    rc, log = sh([L + "clang++", "-fsanitize=address", "-rdynamic", "-pthread", "-Wl,--unresolved-symbols=ignore-all"] + outs + ["-ldl", "-o", exe])
    return (exe, "") if rc == 0 else (None, log[-3000:])

def native_replay(work, driver, tus, harness, failure):
    exe, log = native_exe(work, driver, tus)
    if exe is None:
        return None, "native build failed: " + log
    vals = work + "/vals_%s.txt" % harness
    write_vals(vals, failure)
    rc, out = sh([exe, harness, vals], timeout=120, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0"))
    return (rc not in (0, 3, 5, 9, 124) or (rc == 9 and failure["name"] == "no-deadlock")), out[-4000:]

def history_exe(b, driver, tus):
    exe = b.work + "/hist_" + driver.replace(".cpp", "")
    if os.path.exists(exe):
        return exe, ""
    tus = list(tus) + extra_tus(tus)
    flags = BASE + ["-emit-llvm", "-c"]
    files = [V + "/spec/" + driver] + [SRC + "/" + t for t in tus]
    outs = []
    for f, fu in [(f, b.ir(f, flags)) for f in files]:
        (rc, log), out = fu.result()
        if rc != 0:
            return None, "compiling %s: %s" % (f, log[-3000:])
        outs.append(out)
    for cmd in ([L + "llvm-link"] + outs + ["-o", exe + ".l.bc"],
                [BUILD + "/nvinst", exe + ".l.bc", exe + ".i.bc"],
                [L + "clang++", "-O1", "-fPIE", "-c", exe + ".i.bc", "-o", exe + ".o"],
                [L + "clang++", "-std=c++17", "-O1", "-fPIE", "-w", "-fno-access-control", "-I" + V + "/spec", "-c", V + "/spec/fiber.cpp", "-o", exe + ".s.o"],
                [L + "clang++", "-rdynamic", "-static-libstdc++", "-static-libgcc", exe + ".o", exe + ".s.o", "-ldl", "-lpthread", "-Wl,--unresolved-symbols=ignore-all", "-o", exe]):
        rc, log = sh(cmd)
        if rc != 0:
            return None, log[-3000:]
    return exe, ""

def write_vals(path, failure):
    with open(path, "w") as f:
        for n in (failure or {"nondet": []})["nondet"]:
            f.write("%s %d %s\n" % (n["name"].replace(" ", "_"), n["w"], n["hex"]))

def history_search(b, unit, cases, seconds, seed, outdir, pid):
    """cases: (harness, failure). Returns (found, text)"""
    exe, log = history_exe(b, unit["driver"], unit.get("native_tus", unit.get("tus", [])))
    if exe is None:
        return None, "history build failed: " + log
    res = []
    with cf.ThreadPoolExecutor(CPUS) as ex:
        futs = []
        for i in range(CPUS):
            n, failure = cases[i % len(cases)]
            o = "%s/%s-history-%d.txt" % (outdir, pid, i)
            if os.path.exists(o):
                os.unlink(o)
            vals = "%s/hvals_%s_%d.txt" % (b.work, n, i)
            write_vals(vals, failure)
            futs.append((n, o, ex.submit(sh, [exe, n, str(seconds), o, vals], seconds + 60, None, dict(os.environ, VFS_SEED=str(1000 * seed + i * 7919 + 12345)))))
        for n, o, fu in futs:
            rc, out = fu.result()
            if rc == 7:
                return o, "history of %s: %s%s" % (n, out[-2000:], open(o).read()[:3000] if os.path.exists(o) else "")
            res.append("%s: %s" % (n, out.strip()[-200:]))
    return "", "; ".join(res)

def run_harness(bc, h, solver_ms):
    out = "%s.%s.json" % (bc, h["name"])
    cmd = [BUILD + "/nvc", bc, "-e", "vf_harness_" + h["name"], "-o", out, "-t", str(h["t"])] + h.get("flags", [])
    if solver_ms:
        cmd += ["--solver-ms", str(solver_ms)]
    t0 = time.time()
    rc, log = sh(["bash", "-c", "ulimit -v 16000000; exec \"$@\"", "x"] + cmd, timeout=h["t"] + 60, env=dict(os.environ, NVC_LOGIC=os.environ.get("NVC_LOGIC", "QF_AUFBV")))
    try:
        return json.load(open(out)), log, time.time() - t0
    except Exception as e:
        return None, "nvc rc=%d %s\n%s" % (rc, e, log[-3000:]), time.time() - t0

def main():
    pid = sys.argv[1]
    only = sys.argv[2].split(",") if len(sys.argv) > 2 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import props
    p = props.PROPS[pid]
    engine()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    work = tempfile.mkdtemp(prefix="w_%s_" % pid, dir=BUILD)
    try:
        return check(pid, p, tier, seed, t0, work, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def known_findings(pid):
    r = []
    try:
        for line in open(V + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) harness=(\S+) obligation=\"([^\"]*)\" (.*)", line)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3), m.group(4)))
    except FileNotFoundError:
        pass
    return r

def check(pid, p, tier, seed, t0, work, only):
    b = Build(work)
    units = p["units"]
    hs = []
    for u in units:
        for h in u["harnesses"]:
            if h.get("tier", "quick") == "thorough" and tier != "thorough":
                continue
            if only and h["name"] not in only:
                continue
            hs.append((u, h))
    # build
    bcs, problems = {}, []   # problems: (harness, obligation, text, failure or None, unit)
    def mk(i):
        u = units[i]
        names = [h["name"] for uu, h in hs if uu is u]
        if names:
            return link_driver(b, u["driver"], u.get("tus", []), names, "u%d" % i)
        return None, ""
    with cf.ThreadPoolExecutor(len(units)) as ex:
        rs = list(ex.map(mk, range(len(units))))
    for i, (bc, log) in enumerate(rs):
        bcs[i] = bc
        if bc is None and log:
            problems.append((units[i]["driver"], "contracts do not apply to the current source", log, None, units[i]))
    todo = [(units.index(u), u, h) for u, h in hs if bcs[units.index(u)]]
    todo.sort(key=lambda x: -x[2]["t"])
    known = known_findings(pid)
    results, reported_known = [], []
    with cf.ThreadPoolExecutor(CPUS) as ex:
        futs = [(u, h, ex.submit(run_harness, bcs[i], h, h.get("solver_ms", 0))) for i, u, h in todo]
        for u, h, fu in futs:
            j, log, wall = fu.result()
            results.append((u, h, j, log, wall))
    nob = ndis = bob = bdis = nconst = nsmt = 0
    solver = 0.0
    bounded, functions, externals, contracts, notes, loops, samples = [], set(), set(), set(), [], set(), []
    for u, h, j, log, wall in results:
        tag = h["name"]
        if j is None:
            problems.append((tag, "verifier gave no result", log, None, u)); continue
        fails = list(j["failures"])
        unknown = [o for o in j["obligations"] if o["unknown"] and not o["failed"]]
        if h.get("bounded"):
            bob += len(j["obligations"])
        else:
            nob += len(j["obligations"])
        good = [o for o in j["obligations"] if not o["failed"] and not o["unknown"]]
        if not j["timed_out"] and not j["unsupported"]:
            if h.get("bounded"):
                bdis += len(good)
            else:
                ndis += len(good)
            nconst += sum(1 for o in good if not o["smt"]); nsmt += sum(1 for o in good if o["smt"])
        solver += j["solver_time"]
        functions.update(j["functions"]); externals.update(j["externals"]); contracts.update(j["contracts_used"]); loops.update(j["cut_loops"])
        if h.get("bounded"):
            bounded.append("%s: %s" % (tag, h["bounded"]))
        samples.append("%s: %d obligations, %d paths, %.1fs" % (tag, len(j["obligations"]), j["paths"], j["wall"]))
        for f in fails:
            kf = [k for k in known if k[0] == tag and k[1] in f["name"]]
            if kf:
                reported_known.append("%s %s" % (kf[0][2], f["name"])); continue
            problems.append((tag, f["name"], json.dumps(f, indent=1)[:6000], f, u))
        if not fails:
            for o in unknown:
                problems.append((tag, o["name"], "solver gave no answer within its limit", None, u))
            if j["timed_out"]:
                problems.append((tag, "all paths explored", "time limit of %ss reached" % h["t"], None, u))
            if j["unsupported"]:
                problems.append((tag, "every construct is within the verifier's subset", "; ".join(j["unsupported"][:5]), None, u))
            miss = [c for c in j["covers_declared"] if c not in j["covers"]]
            # vacuity guard: a path the contract is about is no longer reachable
            for c in miss:
                problems.append((tag, "reachable: " + c, "no execution of the harness reaches this point", None, u))
            if j["paths"] == 0:
                problems.append((tag, "reachable: any path", "vacuous", None, u))
    for k in sorted(set(reported_known)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    viol = None
    if problems:
        viol = violation(pid, p, b, problems, seed, tier)
    hist_note = ""
    ev = {"property": pid, "tier": tier, "seed": seed, "level": p["level"],
          "coverage": {"obligations": nob, "discharged": ndis, "bounded_obligations": bob, "bounded_obligations_discharged": bdis,
                       "explanation": "obligations generated from the current source by symbolic execution of its LLVM IR and discharged by nvc and z3; those of harnesses listed under bounded_stand_ins hold within the bound given there and are counted apart",
                       "checker_cmd": "python3 check.py " + pid,
                       "trusted_base": props_trusted(p), "functions_under_contract": sorted(functions)[:400],
                       "back_ends": {"decided by nvc's exact symbolic evaluation": nconst, "z3 (QF_AUFBV) / bit-blasting": nsmt},
                       "solver_time_s": round(solver, 2), "harnesses": samples, "bounded_stand_ins": bounded,
                       "loops_cut_by_invariant": sorted(loops), "contracts_substituted": sorted(contracts),
                       "external_functions_modelled": sorted(externals)[:200],
                       "failed": [[a, c] for a, c, *_ in problems][:50], "known_findings": sorted(set(reported_known))},
          "assumptions": props_trusted(p), "violations": 1 if viol else 0, "wall_s": round(time.time() - t0, 1)}
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d/%d within bounds, in %d harnesses, %.1fs (solver %.1fs)%s" % (pid, ndis, nob, bdis, bob, len(results), time.time() - t0, solver, "".join("\n  " + s for s in samples)))
    if viol:
        print(viol)
        return 1
    return 0

GENERAL = ["nvc (engine/): translation of LLVM 18 IR to bit-vector obligations, written for this task", "clang 18 front end at -O1 without optimisation passes plus sroa/early-cse/simplifycfg",
           "z3", "sequential consistency for atomics", "spec/model.cpp: models of compiled libstdc++ internals (red-black tree rebalancing, list hooks, hash rehash policy)",
           "allocation never fails", "objects have flat addresses, alignment faults are not modelled"]
def props_trusted(p):
    return GENERAL + p.get("trusted", [])

def violation(pid, p, b, problems, seed, tier):
    out = "%s/evidence/replay/%s.txt" % (V, pid)
    confirmed, text = False, []
    budget = time.time() + 240
    tried = set()
    for tag, ob, log, f, u in problems:
        text.append("== %s: obligation \"%s\" failed\n%s\n" % (tag, ob, log))
        if f is not None and not confirmed and time.time() < budget and len(tried) < 6 and (tag, ob) not in tried:
            tried.add((tag, ob))
            ok, r = native_replay(b.work, u["driver"], u.get("native_tus", u.get("tus", [])), tag, f)
            text.append("-- replay of the counterexample against the compiled code: %s\n%s\n" % ("reproduced" if ok else "not reproduced", r))
            confirmed = confirmed or bool(ok)
    if not confirmed:
        for u in p["units"]:
            cases = [(pr[0], pr[3]) for pr in problems if pr[4] is u and pr[3] is not None]
            if "history" in u and cases:
                secs = 100 if tier == "quick" else 300
                o, r = history_search(b, u, cases, secs, seed, V + "/evidence/replay", pid)
                text.append("-- search for a failing interleaving of the real code: %s\n%s\n" % ("found" if o else "none found", r))
                if o:
                    confirmed = True
                    break
    open(out, "w").write("property %s\n%s" % (pid, "\n".join(text)))
    for tag, ob, *_ in problems[:10]:
        print("  failed: %s: %s" % (tag, ob))
    return "VIOLATION property=%s replay=%s%s" % (pid, out, "" if confirmed else " no-failing-input-found")

if __name__ == "__main__":
    sys.exit(main())
