#!/usr/bin/env python3
"""fills the generated tables of DESIGN.md (between markers)"""
import json, os, sys, re, glob
D = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, os.path.join(D, "tools")); sys.path.insert(0, os.path.join(D, "engine"))
import props, checks
def block(name, text):
    global t
    if "@@%s@@" % name in t: t = t.replace("@@%s@@" % name, "<!-- %s -->\n<!-- /%s -->" % (name, name))
    t = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (name, name), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (name, text, name), t, flags=re.S)
f = os.path.join(D, "DESIGN.md"); t = open(f).read()
rows = []
for p in props.PROPS:
    if p.get("na"): continue
    hs = checks.CHECKS[p["id"]]["harnesses"]
    rows.append("### %s %s\n\nHarnesses: %s (%d runs quick, %d thorough). Code: %s.\n\nWhat is symbolic, oracle and bounds: %s%s\n" % (p["id"], p["title"], ", ".join(sorted({h["src"] for h in hs})), len([h for h in hs if not h.get("thorough_only")]), len(hs), ", ".join(p["anchors"]["files"]), p["note"], ("\n\n" + p["design"]) if p.get("design") else ""))
block("TABLE", "\n".join(rows))
k = json.load(open(os.path.join(D, "known_findings.json")))
block("FIXED", "\n".join("* " + x for x in k["fixed"]) + ("\n\nKnown findings (not repaired):\n" + "\n".join("* %s %s" % (x["property"], x["what"]) for x in k["known"]) if k["known"] else ""))
na = [p for p in props.PROPS if p.get("na")]
block("NA", "\n".join("* %s %s: %s" % (p["id"], p["title"], p["na"]) for p in na) or "none so far")
r = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(D, "seeded/*/meta.json"))):
    j = json.load(open(m)); r.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"].replace("|", "/"), j.get("caught", j["property"])))
block("SEEDS", "\n".join(r))
open(f, "w").write(t)
