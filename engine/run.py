#!/usr/bin/env python3
"""Driver of the solver-based checks.

  run.py CHECK          run the check (tier from VERIF_TIER), write evidence/CHECK.json, exit 0/1
  run.py --replay FILE  replay a recorded counterexample against the real code
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
NCPU = os.cpu_count() or 4
sys.path.insert(0, HERE)

SYMFLAGS = ("-O1 -fno-pie -march=x86-64-v3 -fno-math-errno -ffp-contract=off -fno-vectorize -fno-slp-vectorize -w "
            "-D__thread= -D_GNU_SOURCE -fno-common").split()
DEFS = ['-DCOMPILER="x"', '-DCOMPILE_TIME="x"', '-DCONFIG_SETTINGS="x"', "-DFLOAT64", "-DHAVE_CONFIG_H"]
INCS = ["-I" + HERE + "/config", "-I" + HERE, "-I" + REPO + "/src/include"]
REALFLAGS = {
    # the flags the library is really built with
    "real": "-O3 -march=x86-64-v3 -ffast-math -fomit-frame-pointer -fPIC -pthread -w".split(),
    "asan": "-O1 -g -march=x86-64-v3 -fsanitize=address,undefined -fno-sanitize=alignment -fno-omit-frame-pointer -pthread -w".split(),
}

class Inconclusive(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]

_hdr = None
def hdrhash():
    global _hdr
    if _hdr is None:
        hs = [os.path.join(d, f) for r in (REPO + "/src", HERE) for d, _, fs in os.walk(r) for f in fs if f.endswith((".h", ".inc"))]
        hs = [h for h in hs if "/armas/" not in h]
        _hdr = fhash(hs)
    return _hdr

def hhdrs(src): return glob.glob(VERIF + "/harness/*.h") if src.startswith(VERIF + "/harness/") else []

def made_objs(dirs):
    """library sources: the *.c files in the given directories of /repo/src that the build compiles (listed in src/Makefile.am)"""
    mk = open(REPO + "/src/Makefile.am").read()
    listed = re.findall(r"([a-z0-9_]+/[A-Za-z0-9_]+\.c)\b", mk)
    seen, out = set(), []
    for f in listed:
        if f in seen or not os.path.exists(os.path.join(REPO, "src", f)): continue
        seen.add(f)
        if f.split("/")[0] in dirs and f not in ("base/version.c",): out.append(os.path.join(REPO, "src", f))
    return out

def compile_tool(kind):
    """the LLVM pass and the runtime"""
    os.makedirs(BUILD + "/tools", exist_ok=True)
    if kind == "pass":
        src = HERE + "/symfp.cpp"; out = "%s/tools/symfp-%s.so" % (BUILD, fhash([src]))
        if os.path.exists(out): return out
        cx = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        cmd = ["clang++", "-O0", "-fPIC", "-shared"] + cx + ["-fno-rtti", src, "-o", out + ".tmp%d" % os.getpid()]
    else:
        src = HERE + "/symrt.cpp"; out = "%s/tools/symrt-%s.o" % (BUILD, fhash([src, HERE + "/sym.h"]))
        if os.path.exists(out): return out
        cmd = ["g++", "-O2", "-c", "-w", "-I" + Z3 + "/include", src, "-o", out + ".tmp%d" % os.getpid()]
    r = sh(cmd)
    if r.returncode: raise SystemExit("cannot build %s:\n%s" % (src, r.stdout))
    os.rename(out + ".tmp%d" % os.getpid(), out)
    return out

def compile_sym(src, passso, extra=()):
    key = fhash([src, passso] + hhdrs(src), hdrhash() + " ".join(SYMFLAGS) + " ".join(extra))
    out = "%s/sym/%s-%s.o" % (BUILD, os.path.basename(src)[:-2], key)
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d.o" % os.getpid()
    cmd = ["clang"] + SYMFLAGS + DEFS + list(extra) + INCS + ["-I" + VERIF + "/harness", "-I" + REPO + "/src", "-include", HERE + "/sympre.h", "-fpass-plugin=" + passso, "-c", src, "-o", tmp]
    r = sh(cmd)
    if r.returncode: raise Inconclusive("cannot compile %s symbolically:\n%s" % (src, r.stdout))
    r = sh(["objcopy", "--rename-section", ".data=symdata", "--rename-section", ".bss=symdata,alloc,load,data,contents",
            "--set-section-flags", "symdata=alloc,load,data,contents", tmp])
    if r.returncode: raise Inconclusive("objcopy: " + r.stdout)
    os.rename(tmp, out)
    return out

def compile_real(src, variant, extra=(), harness=False):
    fl = REALFLAGS[variant]
    if harness: fl = [f for f in fl if f not in ("-ffast-math", "-O3")] + ["-O1"]
    key = fhash([src] + hhdrs(src), hdrhash() + " ".join(fl) + " ".join(extra))
    out = "%s/%s/%s-%s.o" % (BUILD, variant, os.path.basename(src)[:-2], key)
    if os.path.exists(out): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d.o" % os.getpid()
    r = sh(["gcc"] + fl + ["-D_GNU_SOURCE"] + DEFS + list(extra) + INCS + ["-I" + VERIF + "/harness", "-I" + REPO + "/src", "-c", src, "-o", tmp])
    if r.returncode: raise Inconclusive("cannot compile %s: %s" % (src, r.stdout))
    os.rename(tmp, out)
    return out

def ensure(jobs):
    with cf.ThreadPoolExecutor(NCPU) as ex: return list(ex.map(lambda j: j(), jobs))

BENIGN_UNDEF = {"armas_ac_threaded_init", "armas_ac_workers_init"}
ALLDIRS = ("base", "io", "blas", "eblas", "threaded", "workers", "lapack", "sparse", "compat")
def build_sym(unit, passso, rt):
    h = os.path.join(VERIF, "harness", unit["harness"]); extra = unit.get("defs", [])
    exe = "%s/run/%s-%d" % (BUILD, unit["name"], os.getpid()); os.makedirs(os.path.dirname(exe), exist_ok=True)
    while True:
        objs = ensure([lambda s=s: compile_sym(s, passso) for s in made_objs(unit["dirs"])] + [lambda: compile_sym(h, passso, extra)])
        r = sh(["clang++", "-no-pie"] + objs + [rt, Z3 + "/lib/libz3.so", "-Wl,-rpath," + Z3 + "/lib", "-lgmpxx", "-lgmp", "-lpthread", "-ldl", "-Wl,--warn-unresolved-symbols", "-o", exe])
        if r.returncode: raise Inconclusive("link: " + r.stdout[-2000:])
        und = set(re.findall(r"undefined reference to `([^']+)'", r.stdout)) - BENIGN_UNDEF
        if not und or tuple(unit["dirs"]) == ALLDIRS: break
        unit["dirs"] = ALLDIRS      # a helper lives in another directory of the library
    if und: raise Inconclusive("undefined symbols: " + " ".join(sorted(und)))
    return exe

def build_real(unit, variant):
    srcs = made_objs(unit["dirs"]); h = os.path.join(VERIF, "harness", unit["harness"]); extra = unit.get("defs", [])
    objs = ensure([lambda s=s: compile_real(s, variant) for s in srcs] + [lambda: compile_real(h, variant, extra, True), lambda: compile_real(HERE + "/conc.c", variant, (), True)])
    exe = "%s/run/%s-%s-%d" % (BUILD, unit["name"], variant, os.getpid()); os.makedirs(os.path.dirname(exe), exist_ok=True)
    r = sh(["gcc", "-no-pie", "-pthread"] + (["-fsanitize=address,undefined"] if variant == "asan" else []) + objs + ["-lm", "-ldl", "-Wl,--unresolved-symbols=ignore-all", "-o", exe])
    if r.returncode: raise Inconclusive("link: " + r.stdout[-2000:])
    return exe

def write_replay(path, pid, unit, rec, tier):
    with open(path, "w") as f:
        f.write("check %s\nunit %s\nkind %s\nlabel %s\ncase %s\ntier %d\n" % (pid, unit["name"], rec.get("fail", "sample"), rec.get("label", ""), rec.get("case", ""), tier))
        for c in rec["choices"]: f.write("choice %d\n" % c)
        for k, v in rec["inputs"].items(): f.write("in %s %s\n" % (k, repr(v)))

def run_replay(exe, path, poison="nan", perturb=None, limit=60):
    env = dict(os.environ, SYM_POISON=poison, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=1:print_stacktrace=0", LC_ALL="C")
    for k in list(env):
        if k.startswith("ARMAS") or k.startswith("OMP"): del env[k]
    if perturb: env["MALLOC_PERTURB_"] = perturb
    try:
        r = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=limit, cwd=scratch())
        return r.returncode, r.stdout.decode("latin1")
    except subprocess.TimeoutExpired:
        return 1, "REPLAY-FAIL does not terminate\n"

_scr = None
def scratch():
    global _scr
    if _scr is None:
        _scr = "%s/scratch-%d" % (BUILD, os.getpid()); os.makedirs(_scr, exist_ok=True)
    return _scr

def replay_confirm(unit, path):
    """does the recorded counterexample fail on the real code?"""
    tried = []
    for variant, poison, perturb in (("real", "nan", None), ("real", "fin", None), ("real", "nan", "165"), ("asan", "nan", None), ("asan", "fin", None)):
        exe = build_real(unit, variant)
        rc, out = run_replay(exe, path, poison, perturb)
        tried.append((variant, poison, rc))
        if rc != 0 and rc != 5 and rc != 4:
            lines = [l for l in out.splitlines() if "REPLAY-FAIL" in l or "ERROR: AddressSanitizer" in l or "runtime error" in l]
            return True, "%s build: %s" % (variant, (lines or ["exit %d" % rc])[0])
    return False, str(tried)

def known_patterns(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("finding: "):   # finding: property=<id> /<regex>/ text
                m = re.match(r"finding: property=(\S+) /(.*)/ (.*)$", l)
                if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def limit_mem():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))

def run_units(pid, units, tier, budget):
    t0 = time.time()
    tot = dict(cases=0, paths=0, infeasible=0, branch_queries=0, goal_queries=0, goals=0, goals_syntactic=0, goals_concrete=0, unknown=0, witnesses=0, truncated=0, dead=0, ops=0, lemmas=0, eq_cut=0, polyproved=0, poly_giveup=0, solver_s=0.0)
    fails, knowns, samples, funcs, notes, unk, unsupported = [], {}, [], set(), [], "", {}
    dead_workers = 0
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(compile_tool, "pass"); b = ex.submit(compile_tool, "rt")
        passso, rt = a.result(), b.result()
    pats = known_patterns(pid)
    os.makedirs(BUILD + "/run", exist_ok=True)
    kf = "%s/run/known-%d.txt" % (BUILD, os.getpid()); open(kf, "w").write("".join(p + "\n" for p, _ in pats))
    per = []
    for u in units:
        exe = build_sym(u, passso, rt)
        ub = budget * u.get("share", 1.0 / len(units))
        nw = NCPU; procs = []
        ts = time.time()
        for w in range(nw):
            of = "%s/run/%s-%d.%d.jsonl" % (BUILD, u["name"], os.getpid(), w)
            procs.append((subprocess.Popen([exe, "--worker", str(w), "--nworkers", str(nw), "--tier", str(tier), "--budget", str(ub), "--out", of, "--known", kf,
                                            "--samples", "2" if tier == 0 else "6"], stdout=subprocess.DEVNULL, stderr=open(of + ".err", "w"), cwd=scratch(), preexec_fn=limit_mem), of))
        for p, of in procs:
            try: rc = p.wait(timeout=ub + 120)
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = -9
            got = False
            for line in (open(of, errors="replace") if os.path.exists(of) else []):
                try: r = json.loads(line)
                except ValueError: continue
                if "fail" in r: fails.append((u, r))
                elif "known" in r: knowns.setdefault(r["known"], r["what"])
                elif "sample" in r: samples.append((u, r))
                elif "functions" in r: funcs.update(r["functions"])
                elif "unsupported" in r: unsupported[r["unsupported"]] = r["case"]
                elif "error" in r: notes.append("worker error: " + r["error"])
                elif "stats" in r:
                    got = True
                    for k in tot: tot[k] += r.get(k, 0)
                    for n in r["notes"]:
                        if n not in notes: notes.append(n)
                    unk += r["unk"]
            if not got:
                dead_workers += 1; notes.append("worker of %s ended early (status %s) %s" % (u["name"], rc, open(of + ".err").read()[-300:]))
            for x in (of, of + ".err"):
                if os.path.exists(x): os.unlink(x)
        os.unlink(exe)
        per.append("%s: %.1fs" % (u["name"], time.time() - ts))
        if fails: break
    os.unlink(kf)
    return dict(tot=tot, fails=fails, knowns=knowns, samples=samples, funcs=funcs, notes=notes, unk=unk, unsupported=unsupported, dead_workers=dead_workers, per=per, wall=time.time() - t0)

def sym_check(pid, spec, tier, seed):
    t0 = time.time()
    budget = spec.get("budget", (60, 600))[tier]
    units = spec["units"]
    R = run_units(pid, units, tier, budget)
    violations = []; unconfirmed = []
    os.makedirs(VERIF + "/replays", exist_ok=True)
    done = set()
    for u, r in R["fails"]:
        key = (u["name"], r["label"].split("[")[0], r["fail"])
        if key in done and (violations or len(done) > 6): continue
        done.add(key)
        path = "%s/replays/%s-%s.txt" % (VERIF, pid, hashlib.sha256(json.dumps(r, sort_keys=True).encode()).hexdigest()[:10])
        write_replay(path, pid, u, r, tier)
        ok, how = replay_confirm(u, path)
        print("counterexample: case [%s] %s: %s -> %s (%s)" % (r["case"], r["fail"], r["label"], "confirmed on the real build" if ok else "NOT reproduced on the real build", how))
        if ok: violations.append((path, r, how))
        else: unconfirmed.append((r["case"], r["label"], how))
        if len(violations) >= 3: break
    validated = 0; mismatch = []; samp = []
    if not violations:
        sm = R["samples"]
        step = max(1, len(sm) // (16 if tier == 0 else 48)); sm = sm[seed % step::step]
        exes = {}
        for i, (u, r) in enumerate(sm):
            if u["name"] not in exes: exes[u["name"]] = build_real(u, "real")
            path = "%s/sample-%d.txt" % (scratch(), i)
            write_replay(path, pid, u, r, tier)
            rc, out = run_replay(exes[u["name"]], path, "fin", None, 30)
            if rc == 0: validated += 1
            elif rc != 5: mismatch.append("[%s] %s" % (r["case"], [l for l in out.splitlines() if "FAIL" in l][:1]))
            if len(samp) < 4: samp.append({"case": r["case"], "inputs": dict(list(r["inputs"].items())[:12]), "real_build": "agrees" if rc == 0 else "skipped" if rc == 5 else "differs"})
        for e in exes.values(): os.unlink(e)
    T = R["tot"]
    ev = {"property": pid, "tier": "thorough" if tier else "quick", "seed": seed, "level": "model_checking",
          "coverage": {
              "states": T["paths"], "transitions": T["branch_queries"] + T["goal_queries"],
              "traces_validated_against_impl": validated, "samples": samp or [{"case": r["case"]} for _, r in R["samples"][:2]],
              "explanation": "states = symbolic execution paths explored (each covers all real input values satisfying its path condition); transitions = solver queries deciding branches and goals",
              "cases": T["cases"], "paths": T["paths"], "infeasible_paths": T["infeasible"], "branch_queries": T["branch_queries"], "goal_queries": T["goal_queries"],
              "assertions": T["goals"], "assertions_decided_by_hash_consing": T["goals_syntactic"], "assertions_on_concrete_control_data": T["goals_concrete"],
              "unknown_goals": T["unknown"], "truncated_explorations": T["truncated"], "unsupported": R["unsupported"],
              "cases_with_satisfiable_path": T["witnesses"], "fp_operations_encoded": T["ops"], "definition_instances_certified": T["lemmas"], "goals_proved_modulo_definitions": T["polyproved"], "normalisations_given_up": T["poly_giveup"], "coincidences_beyond_bound_not_explored": T["eq_cut"], "solver_seconds": round(T["solver_s"], 2),
              "functions_encoded": sorted(f for f in R["funcs"] if "/repo/" in f or REPO in f), "bounds": spec["bounds"], "per_unit": R["per"],
              "exhaustive": T["truncated"] == 0 and T["unknown"] == 0 and not R["unsupported"] and not R["dead_workers"],
              "notes": R["notes"][:40], "unknown_detail": R["unk"][:2000], "unconfirmed_counterexamples": unconfirmed, "real_build_differences": mismatch[:10], "known_findings_seen": R["knowns"]},
          "assumptions": ASSUME + spec.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    return ev, violations, R["knowns"]

ASSUME = ["floating point arithmetic is interpreted over the exact reals; rounding, overflow and underflow are outside the claim (magnitudes in (0,1e-150) are compared as 0)",
          "the encoding is the LLVM 18 -O1 IR of /repo/src compiled for x86-64-v3, float64 build configuration; the LLVM pass, the runtime and Z3 are trusted"]

def main():
    if sys.argv[1] == "--replay":
        import checks
        d = {}; 
        for l in open(sys.argv[2]):
            k, _, v = l.rstrip("\n").partition(" ")
            d.setdefault(k, v)
        spec = checks.CHECKS[d["check"]]
        if spec.get("kind", "sym") != "sym":
            sys.exit(spec["replay"](sys.argv[2]))
        u = [x for x in spec["units"] if x["name"] == d["unit"]][0]
        ok, how = replay_confirm(u, os.path.abspath(sys.argv[2]))
        print(how); sys.exit(1 if ok else 0)
    import checks
    pid = sys.argv[1]
    tier = 1 if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = checks.CHECKS[pid]
    os.makedirs(BUILD, exist_ok=True); os.makedirs(VERIF + "/evidence", exist_ok=True)
    t0 = time.time()
    try:
        if spec.get("kind", "sym") == "sym": ev, viol, knowns = sym_check(pid, spec, tier, seed)
        else: ev, viol, knowns = spec["run"](pid, spec, tier, seed)
    except Inconclusive as e:
        ev = {"property": pid, "tier": "thorough" if tier else "quick", "seed": seed, "level": "other", "coverage": {"explanation": "INCONCLUSIVE: " + str(e)[-3000:]}, "wall_s": round(time.time() - t0, 2), "violations": 0}
        viol, knowns = [], {}
        print("inconclusive: " + str(e)[-1500:])
    ev["wall_s"] = round(time.time() - t0, 2)
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, pid), "w"), indent=1)
    if _scr: shutil.rmtree(_scr, ignore_errors=True)
    for p in glob.glob("%s/run/*-%d" % (BUILD, os.getpid())): os.unlink(p)
    texts = dict(known_patterns(pid))
    for k in knowns: print("KNOWN-FINDING: property=%s %s" % (pid, texts.get(k, knowns[k])))
    c = ev["coverage"]
    print("%s %s: cases=%s paths=%s queries=%s unknown=%s truncated=%s unsupported=%s validated=%s diffs=%s unconfirmed=%s solver=%ss wall=%ss" % (pid, ev["tier"], c.get("cases"), c.get("paths"), c.get("transitions"), c.get("unknown_goals"), c.get("truncated_explorations"), len(c.get("unsupported", {}) or {}), c.get("traces_validated_against_impl"), len(c.get("real_build_differences", [])), len(c.get("unconfirmed_counterexamples", [])), c.get("solver_seconds"), ev["wall_s"]))
    for n in c.get("notes", []): print("note:", n)
    for path, r, how in viol: print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)))
    sys.exit(1 if viol else 0)
if __name__ == "__main__": main()
