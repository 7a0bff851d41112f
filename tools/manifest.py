import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contracts on the real functions, obligations generated by symbolic "
        "execution of the repository source and discharged by z3/cvc5; "
        "callees by contract where stated")
PROOF = set()
NOTE = {}
NOT_YET = {}


def claimed():
    out = set()
    d = os.path.join(HERE, "contracts")
    for f in os.listdir(d):
        if f.endswith(".py"):
            out |= set(re.findall(r'@case\(\s*"([A-Z]\d+)"',
                                  open(os.path.join(d, f)).read()))
    return out


def write(props):
    have = claimed()
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i not in have:
            na.append({"property": i, "reason": NOT_YET.get(
                i, "contracts not written yet")})
            continue
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": TECH,
            "level": "proof" if i in PROOF else "other",
            "level_note": NOTE.get(
                i, "Every obligation is discharged for all real inputs of "
                "each contract instance; instances fix the tensor "
                "dimensions (stated per instance in the evidence). Trusts "
                "the obligation generator in engine/, the solvers and the "
                "gurobipy stand-in; machine arithmetic is treated as exact."),
        })
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
         "not_applicable": na,
         "notes": "See DESIGN.md. check.py runs the contracts in contracts/ "
         "with the deductive back end (engine/symrun.py) and, as "
         "cross-check and replay, on the real torch (engine/conrun.py)."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
