"""Write MANIFEST.json from the scenario modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = ("Symbolic execution of the library's own source (rewritten from /repo's working tree at "
        "the start of every run) with Z3: all inputs within the stated bounds, counterexamples "
        "replayed on the unmodified code.")

props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "scen", pid.lower() + ".py")):
        checks.append({
            "property": pid,
            "quick_cmd": "python3-vt vp/check.py " + pid,
            "thorough_cmd": "python3-vt vp/check.py " + pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "solver-based checking: symbolic execution of the real source with Z3",
            "level": "model_checking",
            "level_note": NOTE,
        })
    elif pid in NA:
        na.append({"property": pid, "reason": NA[pid]})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3'", "checks": checks,
     "not_applicable": na,
     "notes": "Bounds, stubs and assumptions per property are in DESIGN.md and in each evidence "
              "file. Known findings: known_findings.json."}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
