#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property with contracts/<id>.py is claimed with level proof."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(here, "properties.jsonl"))]


def lists(path):
    """assumptions and bounded parts declared by a contract module"""
    out = {"ASSUMED": [], "BOUNDED": []}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in out:
            out[n.targets[0].id] = list(ast.literal_eval(n.value))
    return out


checks = []
for p in props:
    pid = p["id"]
    path = os.path.join(here, "contracts", pid + ".py")
    proof = os.path.exists(path)
    note = "bounded: the contracts are evaluated on the real code over generated inputs, no obligation is counted as proved"
    if proof:
        x = lists(path)
        note = "every obligation of the contracts is discharged for all inputs (real arithmetic, models of numpy/scipy trusted)"
        if x["ASSUMED"]:
            note += "; assumed: " + "; ".join(x["ASSUMED"])
        if x["BOUNDED"]:
            note += "; bounded, not proved: " + "; ".join(x["BOUNDED"])
        note += "; the run-time evaluation of the same contracts is a bounded complement"
    checks.append({
        "property": pid,
        "quick_cmd": "./check.py %s" % pid,
        "thorough_cmd": "VERIF_TIER=thorough ./check.py %s" % pid,
        "technique": "deductive verification of contracts on the re-extracted source (VC generator + z3/cvc5/algebra)" if proof else "contracts evaluated at run time on the real code (bounded stand-in)",
        "level": "proof" if proof else "exploration",
        "level_note": note,
    })
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
