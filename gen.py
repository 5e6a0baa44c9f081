#!/usr/bin/env python3
"""plan_text.py -> properties.jsonl, MANIFEST.json, DESIGN.md (DESIGN.head + per property + DESIGN.tail)."""
import json, os
from plan import PROPS, NOT_APPLICABLE, ASSUMPTIONS
V = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the compiled crate (wasm64), z3 deciding every branch and assertion within bounds"
NOTE = "Bounded: holds for every value within the stated bounds, nothing claimed outside them. "

def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS + NOT_APPLICABLE:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                     "technique": p["technique"] or TECH, "level": "model_checking",
                     "level_note": (NOTE + "Bounds: " + p["bounds"] + ". Outside: " + p["outside"] + ".")} for p in PROPS],
         "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
         "notes": "One symbolic executor (engine/) runs the real crate compiled to wasm64; harness/ holds the assertions, replay/ the native re-execution. See DESIGN.md."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    with open(V + "/DESIGN.md", "w") as f:
        f.write(open(V + "/DESIGN.head.md").read())
        for p in PROPS:
            f.write("\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"]))
            f.write("- harness entries: %s\n- quantified over: %s\n- bounds: %s\n- outside: %s\n- tests: %s\n" % (
                ", ".join("`%s`%s" % (k, " (thorough only)" if o.get("thorough") else "") for k, o in p["entries"].items()), p["text"], p["bounds"], p["outside"], p["why"]))
            if p["note"]:
                f.write("- note: %s\n" % p["note"])
            for a in p["assumptions"]:
                f.write("- assumption: %s\n" % a)
        for p in NOT_APPLICABLE:
            f.write("\n### %s %s (not applicable)\n\n%s\n\n%s\n" % (p["id"], p["title"], p["statement"], p["reason"]))
        f.write(open(V + "/DESIGN.tail.md").read())
        for k, c in sorted(json.load(open(V + "/tools/catches.json")).items()):
            f.write("- `%s`: %s\n" % (k, c))
main()
