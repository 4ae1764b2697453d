#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from meta import META
from props import PROPS
import jsonschema
with open(V + "/properties.jsonl", "w") as f:
    for i, m in META.items():
        j = {"id": i, "title": m["title"], "statement": m["statement"], "quantifier": {"over": m["over"], "text": m["text"]}, "why_tests_cant": m["why"],
             "anchors": {"files": m["files"], "mechanism": [{"name": a, "where": b} for a, b in m["mech"]]}}
        jsonschema.validate(j, json.load(open("/root/.vp/PROPERTIES.schema.json"))); f.write(json.dumps(j) + "\n")
        assert all(os.path.exists("/repo/" + x) for x in m["files"]), (i, m["files"])
assert set(PROPS) <= set(META), set(PROPS) - set(META)
checks = [{"property": i, "quick_cmd": "python3 /verif/check.py %s --tier quick" % i, "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
           "technique": "bounded symbolic execution of the compiled LLVM IR with Z3" + (", symbolic thread schedules" if p.get("conc") else ""), "level": "model_checking",
           "level_note": ("Holds for every input" + (" and schedule" if p.get("conc") else "") + " within the bounds: " + p.get("bounds", "") + ". Trusts clang's -O1 lowering, the engine (cross-validated against the native build on sampled paths of every run) and Z3." +
                          (" Assumes: " + "; ".join(p["assumptions"]) if p.get("assumptions") else ""))} for i, p in PROPS.items() if not META[i]["reason"]]
na = [{"property": i, "reason": m["reason"] or "check not built yet"} for i, m in META.items() if i not in PROPS or m["reason"]]
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "Engine, run-time models and harnesses are compiled from /verif; the code under check is compiled to LLVM bitcode from /repo's working tree on every run (outputs cached by content hash in /verif/build)."}
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks,", len(na), "not applicable")
