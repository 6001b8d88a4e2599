"""Writes /verif/MANIFEST.json from the check modules that exist."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.path.insert(0, os.path.join(ROOT, "checks"))
TECH = "symbolic execution of the compiled LLVM IR, decided by SMT (z3 QF_BV)"
NA = {}
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if not os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
        continue
    m = importlib.import_module(i.lower())
    checks.append(dict(
        property=i, quick_cmd="python3-vt check.py " + i, thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + i,
        evidence_file="evidence/%s.json" % i, technique=getattr(m, "TECHNIQUE", TECH), level="model_checking",
        level_note="Exhaustive within bounds, by SMT over symbolic inputs: " + m.BOUNDS + ". Nothing is claimed outside. Trusted: rustc/LLVM "
        "(the IR executed is that of the executable the models are replayed on), the symbolic executor (its outputs are compared with "
        "native runs on every path's witnesses), z3 (cvc5 confirms in the thorough tier)."))
json.dump(dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
               notes="One entry script, check.py; checks/cNN.py holds the declarations and assertions of each property. No hooks in /repo."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])

# DESIGN.md
import glob
rows = ["| planted bug | property (caught by its check) | needs |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s%s | %s |" % (f.split("/")[-2], m["property"], "" if m.get("caught", True) else " (missed)", m["needs"].replace("|", "/")))
t = open(os.path.join(ROOT, "tools", "design.md.in")).read()
t = t.replace("BOUNDSTABLE", "\n".join("- %s: %s" % (c["property"], importlib.import_module(c["property"].lower()).BOUNDS) for c in checks))
t = t.replace("SEEDTABLE", "\n".join(rows))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
