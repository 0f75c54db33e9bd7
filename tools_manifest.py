"""Regenerates MANIFEST.json (run by hand after adding a check)."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
NOTES = json.load(open(D + "/manifest_notes.json"))
checks, na = [], []
for l in open(D + "/properties.jsonl"):
    p = json.loads(l)["id"]
    n = NOTES.get(p)
    if n and os.path.exists(D + "/checks/%s.py" % p):
        checks.append({"property": p, "quick_cmd": "python3 checks/%s.py" % p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p,
                       "technique": n["technique"], "level": n["level"], "level_note": n["note"]})
    else:
        na.append({"property": p, "reason": (n or {}).get("na", "check not built yet in this revision")})
m = {"version": 1, "setup_cmd": "bash symx/build.sh", "checks": checks, "not_applicable": na,
     "notes": "Solver-based checking of the real C sources: CBMC 6.11 (bit-blasting) for byte kernels, symx (own LLVM-IR symbolic executor over SAT/Z3, sources in symx/) for state machines. See DESIGN.md."}
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
open(D + "/MANIFEST.json", "a").write("\n")
