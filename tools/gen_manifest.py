"""author helper: writes MANIFEST.json from check.py's registry"""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
import check
props = [json.loads(l) for l in open(os.path.join(os.path.dirname(__file__), "../properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.SPECS:
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py " + i,
                       "technique": "contract-based deductive verification of the MIR of the real code (VC generation, z3)",
                       "level": "proof",
                       "level_note": check.NOTES.get(i, "Every obligation generated from the current source is discharged for all inputs. Trusted: rustc's MIR, the VC generator in vc/, its contracts for std and the dependencies, z3.")})
    else:
        na.append({"property": i, "reason": check.NA.get(i, "no specification yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "../MANIFEST.json"), "w"), indent=1)
