"""Single source for what is claimed: properties, harness entries, bounds.

gen.py turns this into properties.jsonl, MANIFEST.json and the per-property part of
DESIGN.md; check.py reads PLAN.
"""
import json, os

V = os.path.dirname(os.path.abspath(__file__))
TEXT = {}
exec(open(V + "/plan_text.py").read(), TEXT)
PROPS, ASSUMPTIONS, NOT_APPLICABLE = TEXT["PROPS"], TEXT["ASSUMPTIONS"], TEXT["NOT_APPLICABLE"]
PLAN = {p["id"]: p for p in PROPS}
