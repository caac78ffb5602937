#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list (run by hand when it changes)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS
from proptext import TEXT, NOT_APPLICABLE, NOTES
V = os.path.dirname(HERE)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid in sorted(TEXT):
        t = TEXT[pid]
        f.write(json.dumps({
            "id": pid, "title": t["title"], "statement": t["statement"],
            "quantifier": {"over": t["over"], "text": t["all"]},
            "why_tests_cant": t["why"],
            "anchors": {"files": t["files"], "mechanism": [{"name": n, "where": w} for n, w in t["mech"]], "observe_at": t.get("observe", [])},
        }) + "\n")
checks = []
for pid in sorted(PROPS):
    if pid not in TEXT:
        continue
    b = PROPS[pid]["bounds"]
    checks.append({
        "property": pid, "quick_cmd": "python3 vp/check.py %s quick" % pid, "thorough_cmd": "python3 vp/check.py %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "bounded symbolic execution of the LLVM IR compiled from /repo's sources, decided by SMT (z3, cvc5), counterexamples replayed natively",
        "level": "model_checking", "level_note": "Bounds: " + b + ". Outside the bounds nothing is claimed." + (" Real arithmetic stands for floating point." if PROPS[pid].get("reals") or any(e.get("reals") for e in PROPS[pid]["entries"]) else ""),
    })
m = {"version": 1, "setup_cmd": "python3 vp/setup.py", "hooks": {"guard": "none: no hook is compiled into /repo; the harnesses are added to a copy of the sources", "enable": "nothing to enable", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())], "notes": NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
except ImportError:
    print("not validated (run with python3-vt)")
