"""check.py <property> : decides one property on the current /repo.

exit 0  every harness of the property was decided and held
exit 1  a counterexample was found by the solver and reproduced on the native build (VIOLATION line)
exit 2  no answer (does not build, engine cannot encode, nothing completed, counterexample not reproducible)
"""
import collections, concurrent.futures as cf, hashlib, json, multiprocessing as mp, os, re, signal, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from build import Build, CorpusBroken, RepoBroken, VERIF, REPO

T0 = time.time()
NPROC = min(8, os.cpu_count() or 1)
CLS = {1: "Ok", 2: "Incomplete", 3: "Error", 4: "Failure"}

def say(*a):
    print(*a, flush=True)

# ---------------------------------------------------------------- native execution
class Native:
    """a running replay binary"""
    def __init__(self, path):
        self.path, self.p, self.limit = path, None, None
    def start(self):
        def lim():
            import resource
            if self.limit:
                resource.setrlimit(resource.RLIMIT_AS, (self.limit, self.limit))
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                  text=True, env={"RUST_BACKTRACE": "0", "PATH": "/usr/bin:/bin"}, preexec_fn=lim if self.limit else None)
    def run(self, h, inp, timeout=20):
        """('ret', digest) | ('panic', message) | ('hang', '') | ('nomem', '')"""
        if self.p is None:
            self.start()
        line = "%s %d %d %s %d %d\n" % (h, inp["base"], inp["n"], inp["data"] or "-", inp["a"], inp["b"])
        try:
            self.p.stdin.write(line)
            self.p.stdin.flush()
        except OSError:
            self.stop()
            self.start()
            self.p.stdin.write(line)
            self.p.stdin.flush()
        import select
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.stop()
            return "hang", ""
        out = self.p.stdout.readline()
        if out.startswith("RET "):
            return "ret", int(out[4:])
        if out.startswith("NOMEM"):
            return "nomem", ""
        err = self.p.stderr.read()
        self.stop()
        return "panic", err.strip()
    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.p.stderr):
                try:
                    f.close()
                except OSError:
                    pass
            self.p = None

# ---------------------------------------------------------------- worker
CTX = {}

def winit():
    import resource
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

def explore_one(key, fnname, maxlen, deadline, hname):
    """explore one harness function; returns a plain dict"""
    import llsym
    s = llsym.Sym(CTX["prog"], maxlen=maxlen, deadline=deadline, max_steps=CTX["max_steps"], max_paths=CTX["max_paths"])
    nat = Native(CTX["bin"])
    r = dict(key=key, paths=0, kinds=collections.Counter(), bad=[], validated=0, skipped=0, samples=[], error=None,
             maxlen=maxlen, engine=[])
    t = time.time()
    try:
        for p in s.explore(fnname):
            r["paths"] += 1
            if p.kind == "ret":
                d = p.digest
                r["kinds"][CLS.get(d & 255, "other")] += 1
                if len(r["samples"]) < 2:
                    r["samples"].append(dict(harness=hname, input=p.inp, outcome=CLS.get(d & 255, "other"), at=d >> 16))
                if p.inp["n"] > 1 << 40 or len(p.inp["data"]) > 1 << 17:
                    r["skipped"] += 1
                    continue
                k, v = nat.run(hname, p.inp)
                if k == "nomem":
                    r["skipped"] += 1
                elif k == "ret" and v == d:
                    r["validated"] += 1
                else:
                    r["engine"].append("path of %s predicted digest %x, native %s %s on %s" % (hname, d, k, v if isinstance(v, str) else hex(v), p.inp))
                    if len(r["engine"]) > 3:
                        break
            else:
                r["kinds"][p.kind] += 1
                r["bad"].append(dict(harness=hname, kind=p.kind, info=str(p.info), input=p.inp))
                if len(r["bad"]) >= 3:
                    r["error"] = "stopped at three counterexamples"
                    break
    except llsym.Budget as e:
        r["error"] = "budget: %s" % e
    except llsym.Unsupported as e:
        r["error"] = "unsupported: %s" % e
    except MemoryError:
        r["error"] = "budget: memory"
    except Exception as e:
        if "memory" in str(e).lower():
            r["error"] = "budget: memory"
        else:
            r["error"] = "internal: " + traceback.format_exc()[-1500:]
    nat.stop()
    r.update(steps=s.steps, queries=s.queries, solver_s=s.solver_s, branches=s.branches, wall=time.time() - t,
             fns=sorted(s.fns_used), stubs=sorted(s.stubs_used))
    return r

def work(task):
    key, fnname, maxlen, hname, bounded = task
    tend = CTX["end"]
    per = CTX["per"]
    now = time.time()
    if now > tend:
        return dict(key=key, paths=0, kinds={}, bad=[], validated=0, skipped=0, samples=[], error="budget: not started", maxlen=maxlen,
                    engine=[], steps=0, queries=0, solver_s=0, branches=0, wall=0, fns=[], stubs=[], tried=[])
    lens = [maxlen]
    for k in (48, 24, 12, 6):
        if maxlen is None or k < maxlen:
            lens.append(k)
    tried = []
    tot = None
    for k in lens:
        r = explore_one(key, fnname, k, min(time.time() + per, tend), hname)
        if tot:
            for f in ("steps", "queries", "solver_s", "branches", "wall"):
                r[f] += tot[f]
        tot = r
        if r["error"] is None or r["bad"] or r["engine"] or r["error"].startswith("internal") or time.time() > tend:
            break
        tried.append([k, r["error"]])
    tot["tried"] = tried
    return tot

# ---------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) harness=(\S+) kind=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    except OSError:
        pass
    return out

def badkind(b):
    m = re.search(r"MISMATCH (\d+)|code (\d+)", b["info"])
    return b["kind"] + (":" + (m.group(1) or m.group(2)) if m else "")

# ---------------------------------------------------------------- main
CODES = {1: "different outcome class (Ok / Incomplete / Error / Failure)", 2: "different value", 3: "different position",
         4: "different error kind", 5: "different missing byte count", 9: "remaining input is not a suffix of the input"}

def main():
    prop = sys.argv[1].upper()
    tier = "thorough" if ("--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough") else "quick"
    os.environ["VERIF_TIER"] = tier
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("VERIF_BUDGET", "560" if tier == "quick" else "3000"))
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)

    configs = [("std", "")]
    if os.path.exists(os.path.join(VERIF, "harness", "src", prop.lower() + "_nostd.rs")):
        configs.append(("none", "-nostd"))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage={}, assumptions=ASSUMPTIONS, wall_s=0.0, violations=0)
    cov = ev["coverage"]
    cov.update(states=0, transitions=0, traces_validated_against_impl=0, samples=[], harnesses=0, harnesses_aliased=0, solver_queries=0,
               solver_seconds=0.0, paths=0, outcomes=collections.Counter(), functions_encoded=set(), stubs=set(), bounds={}, incomplete=[],
               bounds_reduced=[], traces_not_replayed=0, exhaustive=True)
    violations, problems, known_hit = [], [], []
    reps = []
    known = known_findings(prop)
    done_total = 0
    for ci, (feat, tag) in enumerate(configs):
        b = Build(prop, feat, tag)
        try:
            b.prepare()
            b.compile_ir()
        except CorpusBroken as x:
            p = os.path.join(VERIF, "evidence", "replay", "%s-compile%s.txt" % (prop, tag))
            with open(p, "w") as f:
                f.write("a definition that nom-derive accepts no longer compiles (features: %s)\n" % feat + "\n".join(x.msgs))
            say("\n".join(m.splitlines()[0] for m in x.msgs[:5]))
            violations.append(("compile", p, "a valid definition is rejected or expands to code that does not compile"))
            continue
        except RepoBroken as x:
            say("nom-derive does not build:", str(x)[-3000:])
            return 2
        t_build = time.time() - T0
        gone, why = b.lost()
        if gone:
            cov["exhaustive"] = False
            cov["not_compiled"] = cov.get("not_compiled", []) + [m + tag for m in gone]
            p = os.path.join(VERIF, "evidence", "replay", "%s-compile%s.txt" % (prop, tag))
            with open(p, "w") as f:
                f.write("definitions of the corpus that no longer compile (features: %s): %s\n" % (feat, " ".join(gone)) + "\n".join(b.drop_msgs))
            say("NOT-COMPILED: %d of %d definitions have no parser to check, see %s" % (len(gone), len({m for m, _ in b.all_harnesses}), os.path.relpath(p, VERIF)))
            if why:
                violations.append(("compile", p, why))
        import llsym
        prog = llsym.Program(b.lls)
        CTX.update(prog=prog, bin=b.bin, end=T0 + budget, per=float(os.environ.get("VERIF_PER", "150" if tier == "quick" else "900")),
                   max_steps=400000, max_paths=60000 if tier == "thorough" else 20000)
        seen, tasks = {}, []
        for mod, fn in b.harnesses:
            if only and not any(re.fullmatch(o, mod) for o in only):
                continue
            cov["harnesses"] += 1
            name = prog.resolve(prog.find("harness", b.prop, mod, fn))
            m = re.search(r"_n(\d+)$", mod)
            k = int(m.group(1)) if m else None
            if k is not None and tier == "thorough":
                k = k + (k + 1) // 2
            if (name, k) in seen:
                cov["harnesses_aliased"] += 1
                continue
            seen[(name, k)] = 1
            tasks.append(((mod, fn), name, k, mod + "::" + fn, k is not None))
        # costly-looking (bounded) ones first
        tasks.sort(key=lambda t: (t[2] is None, -(t[2] or 0)))
        results = []
        with cf.ProcessPoolExecutor(NPROC, mp_context=mp.get_context("fork"), initializer=winit) as ex:
            futs = {ex.submit(work, t): t for t in tasks}
            for f in cf.as_completed(futs):
                try:
                    results.append(f.result())
                except Exception as x:      # a worker was killed
                    problems.append("worker for %s died: %r" % (futs[f][3], x))
        for r in sorted(results, key=lambda r: r["key"]):
            h = "::".join(r["key"])
            if os.environ.get("VERIF_VERBOSE"):
                say(h + tag, dict(r["kinds"]), "maxlen", r["maxlen"], "%.1fs" % r["wall"], "q", r["queries"], r["error"] or "")
            cov["paths"] += r["paths"]
            cov["states"] += r["branches"] + r["paths"]
            cov["transitions"] += r["steps"]
            cov["solver_queries"] += r["queries"]
            cov["solver_seconds"] += r["solver_s"]
            cov["traces_validated_against_impl"] += r["validated"]
            cov["traces_not_replayed"] += r["skipped"]
            cov["functions_encoded"].update(r["fns"])
            cov["stubs"].update(r["stubs"])
            for k, v in r["kinds"].items():
                cov["outcomes"][k] += v
            cov["bounds"].setdefault("input of any length below 2^47 bytes" if r["maxlen"] is None else "inputs of at most %d bytes" % r["maxlen"], []).append(h + tag)
            if r["samples"] and len(cov["samples"]) < 8:
                cov["samples"] += r["samples"][:1]
            if r["tried"]:
                cov["bounds_reduced"].append([h + tag, r["tried"], r["maxlen"]])
            if r["engine"]:
                problems.append("symbolic and native execution disagree: " + r["engine"][0])
            if r["bad"]:
                for bad in r["bad"]:
                    reps.append((b, bad))
            elif r["error"]:
                cov["incomplete"].append([h + tag, r["error"]])
                cov["exhaustive"] = False
                if r["error"].startswith("internal"):
                    say(r["error"])
            else:
                done_total += 1
                if not r["kinds"].get("Ok") and not r["tried"] and not r["key"][0].startswith("x_"):
                    problems.append("vacuous: %s has no Ok path" % h)
    # ------------------------------------------------------------ counterexamples
    natives = {}
    confirmed = 0
    for b, bad in reps:
        if confirmed >= 5:
            break
        kn = [k for k in known if re.fullmatch(k[0], bad["harness"]) and k[1] == badkind(bad)]
        if b.dir not in natives:
            natives[b.dir] = dict(ir=Native(b.bin))
            for prof in ("dev", "release"):
                try:
                    natives[b.dir][prof] = Native(b.compile_native(prof))
                except RepoBroken as x:
                    problems.append("native %s build failed" % prof)
        obs = {}
        for prof, nat in natives[b.dir].items():
            nat.limit = bad["input"]["n"] + (8 << 30)     # an endless loop that allocates must not take the machine's memory
            k, v = nat.run(bad["harness"], bad["input"], timeout=20)
            obs[prof] = [k, v]
            nat.stop()
        rep = any(o[0] in ("panic", "hang") for o in obs.values())
        name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(bad, sort_keys=True).encode()).hexdigest()[:12])
        path = os.path.join(VERIF, "evidence", "replay", name)
        with open(path, "w") as f:
            json.dump(dict(property=prop, features=b.features, **bad, observed=obs,
                           how="echo '%s %d %d %s %d %d' | %s" % (bad["harness"], bad["input"]["base"], bad["input"]["n"], bad["input"]["data"] or "-",
                                                                  bad["input"]["a"], bad["input"]["b"], b.bin)), f, indent=1)
        if not rep:
            problems.append("counterexample of %s does not reproduce natively: %s" % (bad["harness"], path))
            continue
        if kn:
            known_hit.append("%s %s" % (bad["harness"], kn[0][2]))
            continue
        confirmed += 1
        m = re.search(r"(\d+)$", badkind(bad)) if bad["kind"] == "mismatch" else None
        violations.append((bad["harness"], path, "%s %s%s" % (bad["kind"], bad["info"], " (%s)" % CODES.get(int(m.group(1)), "") if m else "")))
    for k in sorted(set(known_hit)):
        say("KNOWN-FINDING: property=%s %s" % (prop, k))
    violations.sort(key=lambda v: v[0] == "compile")        # counterexamples of the solver first
    for v in violations:
        say("  %s: %s" % (v[0], v[2]))
        say("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(v[1], VERIF)))
    for p in problems:
        say("PROBLEM:", p)
    for h, e in cov["incomplete"]:
        say("INCOMPLETE:", h, e[:300])
    cov["functions_encoded_count"] = len(cov["functions_encoded"])
    import llsym
    fe = sorted({llsym.demangle(f) for f in cov["functions_encoded"]})
    cov["functions_encoded"] = fe[:400]
    cov["stubs"] = sorted(cov["stubs"])
    cov["outcomes"] = dict(cov["outcomes"])
    cov["solver_seconds"] = round(cov["solver_seconds"], 2)
    cov["harnesses_decided"] = done_total
    cov["technique"] = ("symbolic execution of the LLVM IR rustc emits for the derived parsers, /repo's provided parsers and nom, path conditions "
                        "and assertions decided by z3; every finished path replayed on the native build")
    ev["violations"] = len(violations)
    ev["wall_s"] = round(time.time() - T0, 2)
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1, default=list)
    say("%s: %d harness functions (%d identical after codegen), %d decided, %d paths, %d queries, %.1f s solver, %d paths replayed, %d violations, %.1f s"
        % (prop, cov["harnesses"], cov["harnesses_aliased"], done_total, cov["paths"], cov["solver_queries"], cov["solver_seconds"],
           cov["traces_validated_against_impl"], len(violations), ev["wall_s"]))
    if violations:
        return 1
    if problems or done_total == 0:
        return 2
    return 0

ASSUMPTIONS = [
    "rustc 1.88 and LLVM (opt-level 2, overflow checks on) lower the source faithfully; the same IR is linked into the replay binary",
    "z3's verdicts are correct",
    "stubs: the allocator always succeeds and returns fresh memory; core::str::from_utf8 is replaced by an exact predicate; printing is a no-op",
    "input length below 2^47 bytes at any address, or the smaller bound stated per harness",
    "the quantifier over definitions is the corpus of the property (harness/src, harness/gen_*.py); the quantifier over inputs is complete within the bounds",
]

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
