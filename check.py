#!/usr/bin/env python3
"""Decides one property of mdds by symbolic execution of the real code.

  check.py PROPERTY            run the check (tier from VERIF_TIER, default quick)
  check.py replay FILE         rebuild the native harness and replay a reported input
  check.py build               build the engine only
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, hashlib, fcntl
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("MDDS_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
LLVM = "/usr/lib/llvm-18/bin"
CLANG = os.path.join(LLVM, "clang++")
PROCS = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 8)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg, code=2):
    print("CHECK-ERROR " + msg, flush=True)
    sys.exit(code)

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for f in sorted(glob.glob(os.path.join(HERE, "engine", "*"))):
            h.update(open(f, "rb").read())
        stamp = os.path.join(BUILD, "sx.stamp")
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest() and os.path.exists(os.path.join(BUILD, "sx")):
            return
        r = sh(["make", "-B", "-C", os.path.join(HERE, "engine"), "OUT=" + BUILD])
        if r.returncode:
            die("engine build failed\n" + r.stdout[-4000:])
        open(stamp, "w").write(h.hexdigest())

CXXFLAGS = ["-std=c++20", "-D_GLIBCXX_ASSERTIONS", "-w"]

def compile_bc(src, out, defs=()):
    io = "-DSYIO" in defs       # serialisation: run the real stream templates
    inc = ["-I" + os.path.join(HERE, "rt"), "-I" + os.path.join(REPO, "include")]
    bcs = []
    for i, s in enumerate([os.path.join(HERE, "harness", src), os.path.join(HERE, "rt", "stdlib.cpp")] + ([os.path.join(HERE, "rt", "stdio.cpp")] if io else [])):
        raw, pre = f"{out}.{i}.raw.bc", f"{out}.{i}.pre.bc"
        r = sh([CLANG, *CXXFLAGS, *defs, "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", *inc, s, "-o", raw])
        if r.returncode: return r.stdout
        r = sh([os.path.join(BUILD, "sx"), "prep", raw, pre] + (["io"] if io else []))
        if r.returncode: return r.stdout
        bcs.append(pre)
    r = sh([os.path.join(LLVM, "llvm-link"), *bcs, "-o", out + ".linked.bc"])
    if r.returncode: return r.stdout
    r = sh([os.path.join(LLVM, "opt"), "-passes=default<O2>", "--vectorize-loops=false", "--vectorize-slp=false", out + ".linked.bc", "-o", out])
    if r.returncode: return r.stdout
    return None

def native_cmd(src, out, defs=()):
    return [CLANG, *CXXFLAGS, *defs, "-O1", "-gline-tables-only", "-fsanitize=address", "-ftrivial-auto-var-init=pattern", "-rdynamic",
            "-I" + os.path.join(HERE, "rt"), "-I" + os.path.join(REPO, "include"),
            os.path.join(HERE, "harness", src), os.path.join(HERE, "rt", "native.cpp"), "-o", out, "-ldl"]

def spec():
    import props
    return props

def run_check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = spec()
    if pid not in P.CHECKS: die("unknown property " + pid)
    cases = P.CHECKS[pid]
    budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "21600"))
    build_engine()
    work = tempfile.mkdtemp(prefix="sx-%s-" % pid)
    outdir = os.path.join(HERE, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    try:
        return run_check2(pid, cases, tier, seed, budget, work, outdir, t0, P)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run_check2(pid, cases, tier, seed, budget, work, outdir, t0, P):
    # build: bitcode and native programs for every harness source, in parallel
    import concurrent.futures as cf
    units = {}
    for c in cases:
        if tier not in c.get("tiers", ("quick", "thorough")): continue
        units.setdefault((c["src"], tuple(c.get("defs", ()))), None)
    def b1(u):
        n = hashlib.sha256(repr(u).encode()).hexdigest()[:8]
        bc = os.path.join(work, n + ".bc")
        return u, bc, compile_bc(u[0], bc, u[1])
    def b2(u):
        n = hashlib.sha256(repr(u).encode()).hexdigest()[:8]
        nat = os.path.join(work, n + ".native")
        r = sh(native_cmd(u[0], nat + ".tmp", u[1]))
        if r.returncode == 0: os.rename(nat + ".tmp", nat)
        return u, nat, r.returncode, r.stdout
    ex = cf.ThreadPoolExecutor(PROCS)
    f1 = [ex.submit(b1, u) for u in units]
    f2 = [ex.submit(b2, u) for u in units]
    for f in f1:
        u, bc, err = f.result()
        if err is not None: die("bitcode build of %s failed\n%s" % (u[0], err[-4000:]))
        units[u] = [bc, None]
    for f in f2:
        u, nat, rc, err = f.result()
        if rc: die("native build of %s failed\n%s" % (u[0], err[-4000:]))
        units[u][1] = nat
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=0")
    reports, violation, errors, unconf, incomplete = [], None, [], 0, []
    todo = [c for c in cases if tier in c.get("tiers", ("quick", "thorough"))]
    def record(c, replay_file, log_file):
        dst = os.path.join(outdir, "%s.replay" % c["h"])
        body = open(replay_file).read()
        open(dst, "w").write("# property %s\n# src %s\n# defs %s\n%s" % (pid, c["src"], " ".join(c.get("defs", ())), body))
        if log_file and os.path.exists(log_file): shutil.copy(log_file, dst + ".log")
        return (dst, [l for l in body.splitlines() if l.startswith("# kind") or l.startswith("# message")])
    validated = bad = 0
    samples = []
    for ci, c in enumerate(todo):
        bc, nat = units[(c["src"], tuple(c.get("defs", ())))]
        params = dict(c.get("params", {}))
        if tier == "thorough": params.update(c.get("thorough", {}))
        od = os.path.join(work, "o-" + c["h"] + "-" + str(len(reports))); os.makedirs(od)
        left = budget - (time.time() - t0)
        rest = len(todo) - ci
        if rest > 1: left = left * 3 / (rest + 2)      # a case that runs away leaves time for the others
        cmd = [os.path.join(BUILD, "sx"), bc, "-h", "h_" + c["h"], "-o", od, "-r", nat, "-j", str(PROCS), "-t", str(max(5, left)), "-seed", str(seed), "-n", str(c.get("samples", 48)), "-s", str(c.get("steps", 3000000))] + c.get("flags", [])
        for k, v in params.items(): cmd += ["-p", "%s=%d" % (k, v)]
        r = sh(cmd, env=env)
        log = r.stdout
        rep = {}
        try: rep = json.load(open(os.path.join(od, "report.json")))
        except Exception as e: errors.append("%s: no report (%s) exit %d\n%s" % (c["h"], e, r.returncode, log[-2000:]))
        if rep:
            reports.append((c, rep))
            print("  %-34s paths %8d queries %8d (int %d, unsat %d) solver %.1fs wall %.1fs" % (c["h"], rep["paths"], rep["queries"], rep["int_queries"], rep["unsat"], rep["solver_s"], rep["wall_s"]), flush=True)
            if rep["confirmed"]:
                fs = sorted(glob.glob(os.path.join(od, "confirmed-*.replay")))
                if fs:
                    violation = record(c, fs[0], fs[0].replace(".replay", ".log"))
                    break
                errors.append("confirmed violation without a replay file")
            unconf += rep["unconfirmed"]
            if rep["unconfirmed"]: errors.append("%s: %d counterexample(s) of the encoding do not reproduce natively\n%s" % (c["h"], rep["unconfirmed"], log[-3000:]))
            if rep["errors"]: errors.append("%s: engine error\n%s" % (c["h"], log[-3000:]))
            if rep["timeout"]: incomplete.append("%s: time budget exhausted before the bound was covered (%d paths done)" % (c["h"], rep["paths"]))
            if rep["crash"]: errors.append("%s: worker died\n%s" % (c["h"], log[-2000:]))
            if rep["unknown"]: errors.append("%s: %d solver queries undecided" % (c["h"], rep["unknown"]))
            need = c.get("reach")
            opt = c.get("opt", []) + (["hit"] if params.get("Q") == 0 else []) + (["reinsert"] if params.get("MORE") == 0 else [])
            unr = [l for l in rep["unreached"] if (l in need if need is not None else not l.startswith("height") and l not in opt)]
            if need: unr += [l for l in need if l not in rep["reached"] and l not in unr]
            if unr and not rep["timeout"] and not rep["errors"]: errors.append("%s: vacuous, never reached: %s" % (c["h"], unr))
            if rep["paths"] == 0 and not rep["errors"]: errors.append("%s: no path completes" % c["h"])
            sf = sorted(glob.glob(os.path.join(od, "sample-*.replay")))
            if sf:
                v = sh([nat, "-b", *sf], env=env)
                m = re.search(r"validated (\d+) bad (\d+)", v.stdout)
                if not m: errors.append("%s: native validation failed to run\n%s" % (c["h"], v.stdout[-1500:]))
                else:
                    validated += int(m.group(1)); bad += int(m.group(2))
                    hard = [(f, int(st)) for f, st in re.findall(r"BAD (\S+) status (-?\d+)", v.stdout) if int(st) not in (3, 9, 45)]
                    if hard:
                        # the real code, run on an input of the explored set, fails an assertion, leaks or dies
                        lg = hard[0][0] + ".out"; open(lg, "w").write(v.stdout[-20000:])
                        violation = record(c, hard[0][0], lg); violation[1].append("# native execution of a solver-generated input ends with status %d" % hard[0][1])
                        break
                    if int(m.group(2)): errors.append("%s: engine and native execution disagree\n%s" % (c["h"], v.stdout[-1500:]))
                for s in sf[:2]:
                    samples.append({"harness": c["h"], "inputs": [l[3:] for l in open(s).read().splitlines() if l.startswith("in ")]})
        shutil.rmtree(od, ignore_errors=True)
        if errors and not rep: break
    tot = lambda k: sum(r[k] for _, r in reports)
    fns = sorted({f for _, r in reports for f in r["functions"]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths") + tot("forks"), "transitions": tot("steps"), "traces_validated_against_impl": validated - bad,
            "samples": samples[:12],
            "paths_completed": tot("paths"), "paths_cut_by_assumption": tot("killed"), "two_way_branches": tot("forks"),
            "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "solver_unknown": tot("unknown"),
            "solver_time_s": round(tot("solver_s"), 2), "assertions_evaluated": tot("asserts"), "assertions_needing_solver": tot("assertQ"),
            "branches_decided_by_witness": tot("poolhits"), "branches_already_implied": tot("syntactic"),
            "harnesses": [{"harness": c["h"], "bounds": r["params"], "about": c.get("about", ""), "paths": r["paths"], "queries": r["queries"], "unsat": r["unsat"], "witness_labels_reached": r["reached"], "wall_s": round(r["wall_s"], 2)} for c, r in reports],
            "functions_encoded_count": len(fns), "functions_encoded": fns[:400],
            "complete_within_bounds": not errors and not incomplete and violation is None, "incomplete": incomplete,
            "rule": "states = symbolic paths and branch points; transitions = LLVM IR instructions interpreted",
        },
        "assumptions": P.ASSUMPTIONS + [a for c, _ in reports for a in c.get("assume", [])],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1); os.rename(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    for k in P.known(pid): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violation:
        for l in violation[1]: print(l)
        print("VIOLATION property=%s replay=%s" % (pid, violation[0]), flush=True)
        return 1
    if errors:
        for e in errors: print("CHECK-ERROR " + e)
        return 2
    for e in incomplete: print("INCOMPLETE " + e)
    print("OK property=%s paths=%d queries=%d unsat=%d validated=%d wall=%.1fs" % (pid, tot("paths"), tot("queries"), tot("unsat"), validated, time.time() - t0))
    return 0

def replay(path):
    head = open(path).read().splitlines()
    src = next(l for l in head if l.startswith("# src ")).split()[2]
    d = next((l for l in head if l.startswith("# defs ")), "# defs ").split()[2:]
    work = tempfile.mkdtemp(prefix="sx-replay-")
    try:
        r = sh(native_cmd(src, work + "/n", d))
        if r.returncode: die(r.stdout)
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:handle_abort=0")
        r = subprocess.run([work + "/n", path], env=e)
        print("native exit status", r.returncode)
        return 1 if r.returncode else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    if len(sys.argv) < 2: print(__doc__); sys.exit(2)
    if sys.argv[1] == "build": build_engine(); sys.exit(0)
    if sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
    sys.exit(run_check(sys.argv[1]))
