#!/usr/bin/env python3
"""Decide one property: check.py ID [quick|thorough] [--entry NAME]...

1. copy /repo's current source, compile it with the harness to wasm64 and build the
   native replay binary against /repo itself;
2. run the symbolic executor on every harness entry of the property;
3. replay every counterexample natively (dev and release profile) before reporting it;
4. replay a sample of the explored paths natively and compare observations; re-decide
   a sample of the solver queries with z3-new and cvc5;
5. write evidence/ID.json.
Exit 0 held / 1 violation / 2 error (not decided).
"""
import fcntl, glob, json, os, re, resource, select, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
W = os.environ.get("VERIF_WORK", V + "/.work")
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from plan import PLAN, ASSUMPTIONS

T0 = time.time()
LIMIT = float(os.environ.get("VERIF_LIMIT", "840"))
WASM = W + "/target-wasm/wasm64-unknown-unknown/release/%s.wasm"
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = W + "/target-engine/release/symwasm"


class Fail(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=900):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", **(env or {}))
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def native(profile):
    env = {"CARGO_TARGET_DIR": W + "/target-replay", "RUSTUP_TOOLCHAIN": "stable"}
    rc, out = sh(["cargo", "build", "--offline", "-q"] + (["--release"] if profile == "release" else []), env, V + "/replay")
    if rc:
        raise Fail("native replay build failed:\n" + out[-3000:])
    return W + "/target-replay/" + ("release" if profile == "release" else "debug") + "/replay"


def tool():
    """the command line tool itself, for replays"""
    env = {"CARGO_TARGET_DIR": W + "/target-tool", "RUSTUP_TOOLCHAIN": "stable"}
    rc, out = sh(["cargo", "build", "--offline", "--locked", "-q", "--bin", "avdl", "--manifest-path", REPO + "/Cargo.toml"], env, V)
    if rc:
        raise Fail("native build of the tool failed:\n" + out[-3000:])
    os.environ["VP_AVDL"] = W + "/target-tool/debug/avdl"


def build(crate):
    rc, out = sh([sys.executable, V + "/env/prepare.py"])
    if rc:
        raise Fail("prepare failed:\n" + out[-3000:])
    errs = []
    def go(f):
        try:
            f()
        except Exception as e:
            errs.append(str(e))
    def wasm():
        rc, out = sh([V + "/env/wasm.sh", crate])
        if rc:
            raise Fail("symbolic build failed:\n" + out[-3000:])
    def engine():
        rc, out = sh([V + "/env/engine.sh"])
        if rc:
            raise Fail("engine build failed:\n" + out[-3000:])
    ts = [threading.Thread(target=go, args=(f,)) for f in (wasm, engine, lambda: native("release")) + ((tool,) if crate == "cli" else ())]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise Fail("\n".join(errs))


NO_ANSWER = "no answer within the step bound"


def died(what):
    return {"failed": None, "panic": what, "infeasible": False, "obs": [], "reached": [], "inputs": [], "hash": False}


def replay(binary, jobs, each=60):
    """jobs: [(entry, hex, repeat)] -> results; a job gets `each` seconds and 8 GB"""
    d = tempfile.mkdtemp(prefix="vp-replay-")
    res = []
    try:
        env = {k: v for k, v in os.environ.items() if not k.startswith("RUST_")}
        limit = lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        while len(res) < len(jobs):
            with open(d + ".in", "w") as f:
                f.write("".join("%s %s %d\n" % j for j in jobs[len(res):]))
            with open(d + ".in") as i, open(d + ".err", "w+") as err:
                p = subprocess.Popen([binary, d], stdin=i, stdout=subprocess.PIPE, stderr=err, env=env, preexec_fn=limit)
                buf, hung = b"", False
                while True:
                    if not select.select([p.stdout], [], [], each * max(1, jobs[min(len(res), len(jobs) - 1)][2] / 20))[0]:
                        hung = True
                        p.kill()
                        break
                    got = os.read(p.stdout.fileno(), 1 << 16)
                    if not got:
                        break
                    *lines, buf = (buf + got).split(b"\n")
                    res += [json.loads(l) for l in lines if l.startswith(b"{")]
                p.stdout.close()
                rc = p.wait()
                if len(res) < len(jobs):
                    # it hung or died (stack overflow, abort): attribute that to the next job, go on
                    err.seek(0)
                    why = err.read()[-300:]
                    res.append(died("no answer within %d s" % each if hung else "stack overflow" if "has overflowed its stack" in why else "process died: rc=%s %s" % (rc, why)))
        return res
    finally:
        shutil.rmtree(d)
        for x in (d + ".in", d + ".err"):
            if os.path.exists(x):
                os.remove(x)


def run_engine(crate, entry, opt, tier, left, known):
    secs = min(opt.get("secs", 300 if tier == "quick" else 800), left)
    if secs < 5:
        raise Fail("no time left for entry " + entry)
    d = tempfile.mkdtemp(prefix="vp-smt-")
    try:
        cmd = [ENGINE, "--wasm", WASM % crate, "--entry", entry, "--secs", str(int(secs)), "--threads", str(os.cpu_count() or 8),
               "--solver-ms", str(opt.get("solver_ms", 30000)), "--samples", d, "--keep", str(opt.get("keep", 40)),
               "--max-cex", str(60 if known else 12)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 120)
        if p.returncode != 0:
            raise Fail("engine failed on %s (rc %s): %s" % (entry, p.returncode, p.stderr[-1500:]))
        r = json.loads(p.stdout.strip("\n").split("\n")[-1])
        r["_smt"] = []
        for f in sorted(glob.glob(d + "/*.smt2"))[:6]:
            r["_smt"].append((open(f).read(), "unsat" if f.endswith(".unsat.smt2") else "sat"))
        return r
    finally:
        shutil.rmtree(d)


def cross_check(samples):
    """re-decide sampled queries with two other solvers"""
    done, bad = 0, []
    for text, want in samples:
        for cmd in (["z3-new", "-in", "-T:10"], ["cvc5", "--lang=smt2", "--tlimit=10000"]):
            logic = "" if cmd[0] != "cvc5" else "(set-logic ALL)\n"
            try:
                out = subprocess.run(cmd, input=logic + text + "\n(check-sat)\n", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=20).stdout
            except subprocess.TimeoutExpired:
                continue
            ans = [l for l in out.split() if l in ("sat", "unsat")]
            if "(error" in out or not ans:
                continue
            done += 1
            if ans[0] != want:
                bad.append((cmd[0], want, ans[0]))
    return done, bad


def demangle(names):
    try:
        out = subprocess.run(["c++filt", "-s", "rust"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    except Exception:
        out = names
    keep = set()
    for n in out:
        n = re.sub(r"\[[0-9a-f]{16}\]", "", n)
        n = re.sub(r"\.llvm\.\d+$", "", n)
        n = re.sub(r"^cli::", "avdl(main.rs)::", n)
        if n.startswith("avdl") and "::vp::" not in n and "::generated::" not in n:
            keep.add(n)
    return sorted(keep)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    rest = sys.argv[2:]
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest.pop(0)
    only = [rest[i + 1] for i, a in enumerate(rest) if a == "--entry"]
    if tier == "thorough":
        global LIMIT
        LIMIT = float(os.environ.get("VERIF_LIMIT", "7200"))
    plan = PLAN[pid]
    os.makedirs(W, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    lock = open(W + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    crate = plan.get("crate", "harness")
    build(crate)
    t_build = time.time() - T0
    known = [k for k in json.load(open(V + "/known_findings.json"))["findings"] if k["property"] == pid]
    entries = [(e, o) for e, o in plan["entries"].items() if (not only and (tier == "thorough" or not o.get("thorough"))) or e in only]
    errors, violations, findings, cov, allsamples, smt = [], [], [], [], [], []
    validated = 0
    funcs = set()
    seen = set()
    for entry, opt in entries:
        r = run_engine(crate, entry, opt, tier, LIMIT - (time.time() - T0), known)
        funcs.update(r.pop("functions"))
        smt += r.pop("_smt")
        cex, samples = r.pop("cex"), r.pop("samples")
        if cex:
            jobs = [(entry, c["bytes"], opt.get("repeat", 1)) for c in cex]
            # what never answers in the engine is given less time natively, and only that may time out
            slow = [c["msg"] == NO_ANSWER for c in cex]
            if any(slow):
                i = slow.index(True)
                cex = [c for k, c in enumerate(cex) if not slow[k] or k == i]
                jobs = [(entry, c["bytes"], opt.get("repeat", 1)) for c in cex]
            rel = replay(native("release"), jobs, 20 if any(slow) else 60)
            dev = replay(native("dev"), jobs, 40 if any(slow) else 60)
            for c, a, b in zip(cex, rel, dev):
                hit = [x for x in (a, b) if not x["infeasible"] and (x["failed"] is not None or x["panic"] is not None) and ((x["panic"] or "")[:9] != "no answer" or c["msg"] == NO_ANSWER)]
                if not hit:
                    errors.append("%s: counterexample %s (%s) does not reproduce natively" % (entry, c["bytes"], c["msg"]))
                    continue
                x = hit[0]
                msg = x["failed"] if x["failed"] is not None else "panic: " + x["panic"]
                k = [f for f in known if f["entry"] == entry and f["msg"] == msg]
                if k:
                    if k[0]["id"] not in seen:
                        seen.add(k[0]["id"])
                        findings.append(k[0])
                    continue
                if (entry, msg) in seen:
                    continue
                seen.add((entry, msg))
                path = "%s/evidence/replay-%s-%d.json" % (V, pid, len(violations))
                json.dump({"property": pid, "entry": entry, "bytes": c["bytes"], "message": msg, "engine_message": c["msg"],
                           "inputs": x.get("inputs"), "reproduces_in": [n for n, y in (("release", a), ("dev", b)) if y in hit],
                           "how": "echo '%s %s %d' | %s/target-replay/release/replay <scratch dir named vp-replay-*>" % (entry, c["bytes"], opt.get("repeat", 1), W)},
                          open(path, "w"), indent=1)
                violations.append((path, entry, msg, x.get("inputs")))
        if r["incomplete"]:
            errors.append("%s: not exhausted: %s" % (entry, "; ".join(r["incomplete"][:3])))
        if not r["paths"]:
            errors.append("%s: no path completed" % entry)
        if not cex:
            for tag in opt.get("reach", []):
                if tag not in r["reach"]:
                    errors.append("%s: vacuous: `%s` is never reached" % (entry, tag))
            if not r["checks"] and not opt.get("nocheck"):
                errors.append("%s: vacuous: no assertion was reached" % entry)
        # encoding validation on sampled paths
        jobs = [(entry, s["bytes"], 1) for s in samples]
        for s, x in zip(samples, replay(native("release"), jobs) if jobs else []):
            if x["panic"] or x["failed"] or x["infeasible"]:
                if not (x["failed"] and any(f["msg"] == x["failed"] for f in known)) and not x["hash"]:
                    errors.append("%s: engine and native disagree on %s: %s" % (entry, s["bytes"], x))
            elif not x["hash"] and (x["obs"] != s["obs"] or sorted(set(x["reached"])) != sorted(set(s["reached"]))):
                errors.append("%s: engine and native observe differently on %s: %s vs %s" % (entry, s["bytes"], s, x))
            else:
                validated += 1
                if len([1 for a in allsamples if a["entry"] == entry]) < 2:
                    allsamples.append({"entry": entry, "bytes": s["bytes"], "reached": s["reached"], "inputs": x.get("inputs")})
        r["reach"] = {k: v["paths"] for k, v in r["reach"].items()}
        r["bound"] = opt.get("bound", "")
        cov.append(r)
    n_cross, bad = cross_check(smt[::max(1, len(smt) // 10)][:10])
    if bad:
        errors.append("solver cross-check disagreement: %s" % bad)
    tot = lambda k: sum(r[k] for r in cov)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("forks"), "traces_validated_against_impl": validated,
            "samples": allsamples[:20],
            "technique": "symbolic execution of the compiled crate (wasm64) with z3 deciding every branch and assertion",
            "bounds": plan["bounds"], "outside": plan.get("outside", ""),
            "assertions_evaluated": tot("checks"), "assertions_decided_symbolically": tot("checks_symbolic"),
            "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "solver_unknown": tot("unknown"),
            "solver_cache_hits": tot("cache_hits"), "witness_decided_sat": tot("fast_sat"), "domain_decided_unsat": tot("domain_unsat"),
            "solver_seconds": round(tot("solver_s"), 3), "solver": cov[0]["solver"] if cov else "",
            "queries_rechecked_by_other_solvers": n_cross,
            "instructions_interpreted": tot("instructions"),
            "functions_encoded": demangle(sorted(funcs)),
            "entries": cov, "build_seconds": round(t_build, 1),
            "complete_within_bounds": not errors,
            "known_findings": [f["id"] for f in findings], "errors": errors,
        },
        "assumptions": ASSUMPTIONS + plan.get("assumptions", []),
        "wall_s": round(time.time() - T0, 2), "violations": len(violations),
    }
    if not only:
        json.dump(ev, open("%s/evidence/%s.json" % (V, pid), "w"), indent=1)
    for r in cov:
        print("%-28s paths %7d  checks %8d  queries %6d  solver %7.2fs  wall %6.1fs" % (r["entry"], r["paths"], r["checks"], r["queries"], r["solver_s"], r["wall_s"]))
    print("%s %s: %d paths, %d assertions, %d solver queries, %d traces validated, %d queries rechecked, %.0fs (build %.0fs)" % (
        pid, tier, tot("paths"), tot("checks"), tot("queries"), validated, n_cross, time.time() - T0, t_build))
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for path, entry, msg, inputs in violations[:6]:
        print("  %s: %s" % (entry, msg))
        for i in (inputs or [])[:3]:
            print("    input: %s" % json.dumps(i)[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if violations:
        return 1
    for e in errors[:20]:
        print("ERROR " + e[:1500])
    return 2 if errors else 0


if __name__ == "__main__":
    try:
        rc = main()
    except (Fail, subprocess.TimeoutExpired) as e:
        print("ERROR " + str(e))
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
