"""Writes MANIFEST.json from the rule modules present and the table of
properties that are not claimed."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_CLAIMED = {
    "C31": "a statistical statement about long random simulations compared "
           "with an input climatology; no construct in the source decides it",
    "C32": "numerical accuracy, monotonicity and ordering of values returned "
           "by an iterative optimiser and by resampling quantify over run-time "
           "quantities; static analysis cannot decide them (the structural "
           "part, which cell and which name a value is stored under, is C18, "
           "and missing fits are C19)",
}
TECHNIQUE = {}
exec(open(os.path.join(HERE, "tools", "techniques.py")).read())

ids = [json.loads(l)["id"] for l in
       open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        tech, note = TECHNIQUE[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 run_check.py %s" % i,
            "thorough_cmd": "python3 run_check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": tech, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_CLAIMED.get(
            i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; sys.exit(0)'",
     "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of /repo's current sources, "
     "written in plain Python (sa/: program model, gated value-flow builder, "
     "term normal form, Fortran reader; checks/: one rule module per "
     "property). Nothing of /repo is imported or run."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
