"""Bounded model checking of C functions with CBMC (SAT/SMT), with native replay of counterexamples."""
import concurrent.futures as cf
import hashlib, json, os, re, subprocess, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
def R():
    import run
    return run
def prep(job):
    """sources rewritten for the encoding (regenerated on every run), in a directory searched before /repo/src"""
    run = R(); d = "%s/prep-%s" % (run.scratch(), job["name"])
    for rel, subs in job["prep"].items():
        try: s = open(run.REPO + "/" + rel).read()
        except OSError as e: raise run.Inconclusive(str(e))
        for a, b in subs: s = re.sub(a, b, s)
        o = d + "/" + rel[len("src/"):]; os.makedirs(os.path.dirname(o), exist_ok=True); open(o, "w").write(s)
    return ["-I" + d]
def cflags(job):
    run = R()
    return [f for f in run.DEFS] + ["-D_GNU_SOURCE"] + list(job.get("defs", [])) + run.INCS + ["-I" + VERIF + "/cbmc", "-I" + run.REPO + "/src"]
def stubbed(job, defs, unwind):
    """compile the harness together with job["src"] only; every library function outside it becomes 'must not be reached'"""
    run = R(); g = "%s/%s" % (run.scratch(), job["name"]); q = dict(stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, check=True, cwd=run.scratch())
    open(g + ".src.h", "w").write("".join('#include "%s/src/%s"\n' % (run.REPO, x) for x in job["stub"]))
    subprocess.run(["goto-cc", "-w", "-o", g + ".a", VERIF + "/cbmc/" + job["harness"], '-DSRC="%s.src.h"' % g] + [ "-D__CPROVER"] + cflags(job) + list(defs) + ["--function", "bmc_main"], **q)
    have = set(re.findall(r"^([A-Za-z_]\w*) /\*", subprocess.run(["goto-instrument", "--list-goto-functions", g + ".a"], **q).stdout, re.M))
    cut = [f for f in job.get("cut", []) if f in have]    # element kernels: reaching one is a violation, so their bodies need not be encoded
    subprocess.run(["goto-instrument"] + [y for f in cut for y in ("--remove-function-body", f)] + ["--drop-unused-functions", g + ".a", g + ".b"], **q)
    r = subprocess.run(["goto-instrument", "--generate-function-body", "(?!ND|nondet|__CPROVER|malloc|free|calloc|mem).*", "--generate-function-body-options", "assert-false-assume-false", g + ".b", g + ".c"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: os.rename(g + ".b", g + ".c")
    return ["cbmc", g + ".c", "--unwind", str(unwind), "--json-ui", "--trace", "--verbosity", "8", "--no-unwinding-assertions", "--bounds-check", "--pointer-check", "--no-malloc-may-fail", "--object-bits", str(job.get("objbits", 8))]
def one(job, tier):
    """run cbmc on one job; returns dict"""
    run = R(); t0 = time.time()
    h = VERIF + "/cbmc/" + job["harness"]
    unwind = job["unwind"][tier] if isinstance(job["unwind"], tuple) else job["unwind"]
    defs = [d for d in job.get("tdefs", ((), ()))[tier]]
    std = ["--unwinding-assertions", "--bounds-check", "--pointer-check", "--div-by-zero-check", "--pointer-primitive-check", "--signed-overflow-check", "--conversion-check" if job.get("conv") else "--undefined-shift-check", "--no-malloc-may-fail", "--object-bits", str(job.get("objbits", 8))]
    if job.get("conc"): std = ["--no-standard-checks", "--no-unwinding-assertions", "--sat-solver", "cadical"]
    cmd = ["cbmc", h] + ["-D__CPROVER"] + (prep(job) if job.get("prep") else []) + cflags(job) + defs + ["--function", "bmc_main", "--unwind", str(unwind), "--json-ui", "--trace", "--verbosity", "8", "--drop-unused-functions"] + std + job.get("flags", [])
    if job.get("stub"):
        try: cmd = stubbed(job, defs, unwind)
        except subprocess.CalledProcessError as e: return dict(job=job, status="error", wall=time.time() - t0, msg=str(e.output)[-600:])
    for f, n in job.get("loops", {}).items(): cmd += ["--unwindset", "%s:%d" % (f, n)]
    lim = job.get("limit", (120, 1200))[tier]
    try:
        def lm():
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=lim, preexec_fn=lm, cwd=run.scratch())
    except subprocess.TimeoutExpired:
        return dict(job=job, status="timeout", wall=time.time() - t0, msg="timeout after %ds" % lim)
    try: out = json.loads(p.stdout)
    except ValueError: return dict(job=job, status="error", wall=time.time() - t0, msg=(p.stdout[-500:] + p.stderr[-500:]))
    res = dict(job=job, status="error", wall=time.time() - t0, msg="", vccs=0, solver=0.0, props=0, defs=defs)
    for e in out:
        m = e.get("messageText", "")
        if e.get("messageType") == "ERROR": res["msg"] += m + "; "
        g = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if g: res["vccs"] = int(g.group(1)); res["vccs_left"] = int(g.group(2))
        g = re.search(r"Runtime Solver: ([0-9.e-]+)s", m)
        if g: res["solver"] += float(g.group(1))
        if m.startswith("no body for function") or m.startswith("**** WARNING: no body"): res.setdefault("nobody", []).append(m)
        if "result" in e: res["result"] = e["result"]
        if "trace" in e and "property" in e: res["result"] = [e]
        if "cProverStatus" in e: res["status"] = e["cProverStatus"]
    return res
def nds(trace):
    vals = {}
    for s in trace:
        if s.get("stepType") == "assignment":
            if s.get("lhs", "").startswith("goto_symex$$return_value$$ND") and s.get("sourceLocation", {}).get("function") == "ND" and "binary" in s.get("value", {}):
                b = s["value"]["binary"]; v = int(b, 2)
                if b[0] == "1" and len(b) == 64: v -= 1 << 64
                vals[len(vals)] = v
    return vals
def events(trace):
    return [int(s["value"]["data"]) for s in trace if s.get("stepType") == "assignment" and s.get("lhs") == "h_evt" and str(s.get("value", {}).get("data", "")).lstrip("-").isdigit()]
def build_native(job, defs, variant):
    run = R(); h = VERIF + "/cbmc/" + job["harness"]
    exe = "%s/run/bmc-%s-%s-%d" % (run.BUILD, job["name"], variant, os.getpid()); os.makedirs(os.path.dirname(exe), exist_ok=True)
    fl = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if variant == "asan" else ["-O2"]
    if job.get("conc"):
        r = run.sh(["gcc", "-w", "-O1", "-g", "-fsanitize=thread", "-c", "-fgnu89-inline", "-ffunction-sections"] + cflags(job) + list(defs) + [h, "-o", exe + ".o"])
        if not r.returncode: r = run.sh(["gcc", "-w", "-O1", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", exe + ".o", HERE + "/bmcthr.c", "-lm", "-o", exe])
        if r.returncode: raise run.Inconclusive("native build of %s: %s" % (job["name"], r.stdout[-1500:]))
        os.unlink(exe + ".o"); return exe
    if job.get("stub"):     # against the real library
        v = "asan" if variant == "asan" else "real"
        objs = run.ensure([lambda x=x: run.compile_real(x, v) for x in run.made_objs(("base", "blas", "lapack"))])
        r = run.sh(["gcc", "-w", "-pthread"] + fl + cflags(job) + list(defs) + [h, HERE + "/bmcrun.c"] + objs + ["-lm", "-ldl", "-Wl,--unresolved-symbols=ignore-all", "-o", exe])
        if r.returncode: raise run.Inconclusive("native build of %s: %s" % (job["name"], r.stdout[-1500:]))
        return exe
    r = run.sh(["gcc", "-w", "-pthread", "-fgnu89-inline", "-ffunction-sections", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all"] + fl + cflags(job) + list(defs) + [h, HERE + "/bmcrun.c", "-lm", "-ldl", "-o", exe])
    if r.returncode: raise run.Inconclusive("native build of %s: %s" % (job["name"], r.stdout[-1500:]))
    return exe
def native(job, defs, path):
    run = R()
    for variant in ("conc",) if job.get("conc") else ("asan", "plain"):
        exe = build_native(job, defs, variant)
        rc, out = run.run_replay(exe, path, "nan", None, 120 if job.get("conc") else 30)
        os.unlink(exe)
        if rc not in (0, 4, 5):
            l = [x for x in out.splitlines() if "REPLAY-FAIL" in x or "AddressSanitizer" in x or "runtime error" in x]
            return True, "%s build: %s" % (variant, (l or ["exit %d" % rc])[0])
    return False, "replay does not fail"
def check(pid, spec, tier, seed):
    run = R(); t0 = time.time(); jobs = spec["jobs"]; os.makedirs(VERIF + "/replays", exist_ok=True); run.scratch()
    with cf.ThreadPoolExecutor(run.NCPU) as ex: results = list(ex.map(lambda j: one(j, tier), jobs))
    viol, knowns, unconf, notes, detail = [], {}, [], [], []; vcc = 0; solver = 0.0; failed = 0; undecided = 0
    pats = run.known_patterns(pid)
    for r in results:
        j = r["job"]; vcc += r.get("vccs", 0); solver += r.get("solver", 0)
        detail.append({"job": j["name"], "status": r["status"], "verification_conditions": r.get("vccs", 0), "decided_by_solver": r.get("vccs_left", 0), "solver_s": round(r.get("solver", 0), 2), "wall_s": round(r["wall"], 2), "functions": j.get("functions", []), "bound": j.get("bound", "")})
        for nb in r.get("nobody", []): notes.append(nb)
        if r["status"] == "success": continue
        if r["status"] != "failure": undecided += 1; notes.append("%s: %s %s" % (j["name"], r["status"], r["msg"][:400])); continue
        for q in [q for q in r.get("result", []) if "trace" in q][:6]:
            vals = nds(q["trace"]); desc = q.get("description") or q.get("property", "")
            last = [s for s in q["trace"] if s.get("stepType") == "failure"]
            if last and last[-1].get("reason"): desc = last[-1]["reason"]
            loc = last[-1].get("sourceLocation", {}) if last else {}
            text = "%s :: %s :: %s" % (j["name"], q.get("property", ""), desc)
            path = "%s/replays/%s-%s.txt" % (VERIF, pid, hashlib.sha256((text + str(sorted(vals.items()))).encode()).hexdigest()[:10])
            with open(path, "w") as f:
                f.write("check %s\njob %s\nlabel %s at %s:%s\ntier %d\n" % (pid, j["name"], desc, loc.get("file"), loc.get("line"), tier))
                for k in sorted(vals): f.write("nd %d %d\n" % (k, vals[k]))
                for k, w in enumerate(events(q["trace"])): f.write("ev %d %d\n" % (k, w))
            ok, how = native(j, r["defs"], path)
            print("counterexample: %s (%s:%s) %s -> %s (%s)" % (text, os.path.basename(loc.get("file") or "?"), loc.get("line"), [vals[k] for k in sorted(vals)][:24], "confirmed" if ok else "NOT reproduced", how))
            kn = [p for p, t in pats if re.search(p, text)]
            if not ok: unconf.append((text, how))
            elif kn: knowns[kn[0]] = text
            else: viol.append((path, dict(label=desc), how))
    ev = {"property": pid, "tier": "thorough" if tier else "quick", "seed": seed, "level": "model_checking",
          "coverage": {"states": vcc, "transitions": sum(d["decided_by_solver"] for d in detail), "traces_validated_against_impl": len(viol) + len(knowns), "samples": detail,
             "explanation": "states = verification conditions generated by symbolic execution of the C source; transitions = those that needed the solver (the others were discharged by constant propagation)",
             "cases": len(jobs), "jobs_undecided": undecided, "solver_seconds": round(solver, 2), "functions_encoded": sorted({f for j in jobs for f in j.get("functions", [])}), "bounds": spec["bounds"],
             "exhaustive": undecided == 0 and not unconf, "notes": notes[:30], "unconfirmed_counterexamples": unconf},
          "assumptions": spec.get("assume", []) + ["CBMC 6.11 C semantics for x86-64 with its models of the C library; trusted"], "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    return ev, viol, knowns
def replay(path):
    import checks
    run = R(); d = {}
    for l in open(path):
        k, _, v = l.rstrip("\n").partition(" "); d.setdefault(k, v)
    job = [j for j in checks.CHECKS[d["check"]]["jobs"] if j["name"] == d["job"]][0]
    ok, how = native(job, job.get("tdefs", ((), ()))[int(d.get("tier", 0))], os.path.abspath(path)); print(how); return 1 if ok else 0
def B(name, harness, unwind, **kw): return dict(name=name, harness=harness, unwind=unwind, **kw)
