#!/usr/bin/env python3
"""developer helper: confirm planted changes in a scratch copy and keep them under /verif/seeded.

seed.py SPEC.py [ID...]: SPEC defines SEEDS = {id: dict(property, edits=[(file, old, new)], demo, needs, breaks)}
seed.py --verify [ID...]: confirm kept changes again on /repo's HEAD.
seed.py --catch ID...: apply each kept change to /repo, run its property's check, undo."""
import json, os, re, subprocess, sys
S = "/tmp/seedrepo"; V = "/verif"; OUT = V + "/seeded"
def run(cmd, cwd=S, **k): return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def build():
    t = open("/opt/vp/build.sh").read().replace("/repo", S)
    return run(["bash", "-c", t])
def tests():
    t = open("/opt/vp/test.sh").read().replace("/repo", S)
    open("/tmp/seedtest.sh", "w").write(t)
    run(["bash", "/tmp/seedtest.sh", "/tmp/seedout.json"])
    p = set(json.load(open("/tmp/seedout.json"))["passed"])
    return [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in p]
def sync():
    if not os.path.isdir(S): run(["cp", "-a", "/repo", S], cwd="/")
    run(["git", "fetch", "-q", "/repo", "HEAD"]); run(["git", "checkout", "-q", "-f", "FETCH_HEAD"]); run(["git", "checkout", "--", "."])
def plant(id, s):
    sync()
    d = f"{OUT}/{id}"; os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n" + s["demo"].strip() + "\n"); os.chmod(d + "/demo.sh", 0o755)
    for n, t in s.get("files", {}).items(): open(f"{d}/{n}", "w").write(t)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r = build()
    if r.returncode: return "base does not build"
    r = run(["bash", d + "/demo.sh"])
    if r.returncode: return "demo fails on the unchanged tree:\n" + r.stdout[-1500:]
    for f, o, n in s["edits"]:
        t = open(f"{S}/{f}").read()
        if t.count(o) != 1: return f"{f}: {t.count(o)} occurrences of {o[:60]!r}"
        open(f"{S}/{f}", "w").write(t.replace(o, n))
    open(d + "/patch.diff", "w").write(run(["git", "diff"]).stdout)
    r = build()
    if r.returncode: return "does not build:\n" + r.stdout[-1500:]
    r = run(["bash", d + "/demo.sh"])
    if r.returncode == 0: return "demo passes with the change"
    m = tests()
    if m: return f"tests fail: {m[:5]}"
    return None
def verify(ids):
    sync()
    if build().returncode: sys.exit("base does not build")
    for id in ids:
        r = run(["bash", f"{OUT}/{id}/demo.sh"])
        if r.returncode: print(f"{id:28} demo fails on the unchanged tree {r.stdout[-300:]}", flush=True)
    for id in ids:
        run(["git", "checkout", "--", "."])
        e = None
        if run(["git", "apply", f"{OUT}/{id}/patch.diff"]).returncode: e = "does not apply"
        elif build().returncode: e = "does not build"
        elif run(["bash", f"{OUT}/{id}/demo.sh"]).returncode == 0: e = "demo passes with the change"
        elif tests(): e = "tests fail"
        print(f"{id:28} {e or 'good'}", flush=True)
    sync()
def catch(ids):
    for id in ids:
        p = json.load(open(f"{OUT}/{id}/meta.json"))["property"]
        if run(["git", "status", "--porcelain", "-uno"], cwd="/repo").stdout: sys.exit("/repo is not clean")
        r = run(["git", "apply", f"{OUT}/{id}/patch.diff"], cwd="/repo")
        if r.returncode: print(id, "does not apply"); continue
        try: r = run(["python3", "/verif/check.py", p, "quick"], cwd="/verif")
        finally: run(["git", "checkout", "--", "."], cwd="/repo")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if v:
            c = f"{V}/tools/catches.json"; k = json.load(open(c)) if os.path.exists(c) else {}
            m = [l for l in r.stdout.splitlines() if re.match(r"  \w+: ", l)]
            k[id] = f"{p} {m[0].strip() if m else ''}"[:140]; json.dump(dict(sorted(k.items())), open(c, "w"), indent=1)
        print(f"{id:28} {p} exit {r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {r.stdout.splitlines()[-1][:150]}", flush=True)
if sys.argv[1] == "--verify": verify(sys.argv[2:] or sorted(os.listdir(OUT)))
elif sys.argv[1] == "--catch": catch(sys.argv[2:] or sorted(os.listdir(OUT)))
else:
    g = {}; exec(open(sys.argv[1]).read(), g)
    for id, s in g["SEEDS"].items():
        if sys.argv[2:] and id not in sys.argv[2:]: continue
        e = plant(id, s)
        print(f"{id:28} {'kept' if e is None else e}", flush=True)
        if e: run(["rm", "-rf", f"{OUT}/{id}"])
    sync()
