"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = ("Bounded: behaviours are drawn at random (seeded) from the transitions of the TLA+ specification and every one is replayed on the "
          "real package, whose results are compared with the exact values the specification computes; nothing is claimed beyond the "
          "explored widths, operands and histories. Trusts TLC, g++, and double evaluation of the exact ring values (tolerance 1e-9).")
NOTE = {
    "C03": "Exhaustive over targets, control sets, polarities and offsets up to 4 qubits, sampled up to 128 qubits; matrices, angles sampled per position. The table of positions is computed by TLC. Trusts TLC and g++.",
    "C04": "Exhaustive over target pairs, control sets, polarities and offsets up to 4 qubits, sampled up to 128 qubits; angles sampled (corners and random). Named matrices are exponential sums in the specification. Trusts TLC and g++.",
}
TECH = {
    "C03": "TLA+ specification of controlled gate operators (Gates.tla), enumerated by TLC, every record evaluated on the real gate construction",
    "C04": "TLA+ specification of two-qubit gate operators (Gates.tla), enumerated by TLC, every record evaluated on the real gate construction",
}
NOTE.update(getattr(check, "NOTES", {}))
TECH.update(getattr(check, "TECHS", {}))
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + i,
                       "technique": TECH.get(i, "TLA+ specification (DDPackage.tla), behaviours generated and checked by TLC, replayed on the real package"),
                       "level": "model_checking", "level_note": NOTE.get(i, REPLAY)})
    else:
        na.append({"property": i, "reason": NA.get(i, "the check for this property is not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "VERIF_HOOKS", "enable": "not needed: the checks use only the public interface; no guarded code was added to /repo", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/, instances in spec/mc/ (written by tools/mkmc.py), harnesses in harness/, driver tools/check.py."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
