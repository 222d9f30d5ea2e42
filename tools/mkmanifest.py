"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(HERE, "..")
TECH = {
    "P01": ("TLA+ machine of macro replacement (MacroExpand.tla) run by TLC on generated programs; its behaviours replayed through slimcc -E",
            "Every generated case (thousands per run) is executed by TLC on the specification, its invariants checked, and compared token by token with slimcc -E. Assumes the generator's grammar covers the constructs; white space inside stringized pre-expanded arguments is not compared."),
}
exec(open(os.path.join(HERE, "tech.py")).read()) if os.path.exists(os.path.join(HERE, "tech.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"checks/{i.lower()}.py"
    if os.path.exists(os.path.join(V, f)) and i in TECH:
        checks.append({"property": i, "quick_cmd": f"python3 {f} quick", "thorough_cmd": f"python3 {f} thorough",
                       "technique": TECH[i][0], "level": "model_checking", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet built: check under construction") if "NA" in globals() else "not yet built: check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "TLA+ checked with TLC; no hooks in /repo: the specification is bound through the compiler's command line."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
