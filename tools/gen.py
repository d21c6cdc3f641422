#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
D = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, os.path.join(D, "tools")); sys.path.insert(0, os.path.join(D, "engine"))
import props, checks
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
m = dict(version=1, setup_cmd="python3 engine/ff.py setup", checks=[], not_applicable=[])
for p in props.PROPS:
    if p.get("na"): m["not_applicable"].append(dict(property=p["id"], reason=p["na"])); continue
    assert p["id"] in checks.CHECKS, p["id"]
    m["checks"].append(dict(property=p["id"], quick_cmd="python3 engine/ff.py %s --quick" % p["id"], thorough_cmd="python3 engine/ff.py %s --thorough" % p["id"],
        technique=p.get("technique", "symbolic execution of the compiled LLVM IR of the real code, SMT (z3) + finite-field theory"), level="model_checking", level_note=p["note"]))
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "n/a")
