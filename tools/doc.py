"""tools/doc.py: regenerate contracts/INDEX.json (function -> properties) and
CONTRACTS.md (every contract: property, functions, instances, bound)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIST = """
import sys, json
sys.path.insert(0, %r)
from engine import loader
loader.setup(True)
import importlib
from engine import symrun, cases
for n in symrun.contract_modules():
    importlib.import_module("contracts." + n)
print("<<<" + json.dumps([(c.prop, c.name, list(c.functions), c.id, c.scope,
    c.kind, c.tier, (c.fn.__doc__ or "").strip(), c.fn.__module__)
    for c in cases.CASES]))
""" % HERE
t = subprocess.check_output(["python3-vt", "-c", LIST], text=True)
cases = json.loads(t[t.index("<<<") + 3:])
index = {}
for c in cases:
    for f in c[2]:
        index.setdefault(f, set()).add(c[0])
with open(os.path.join(HERE, "contracts", "INDEX.json"), "w") as fh:
    json.dump({f: sorted(p) for f, p in sorted(index.items())}, fh, indent=0)
    fh.write("\n")
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
out = ["# Contracts", "",
       "Generated by tools/doc.py from the registry in `contracts/`. A "
       "contract is a function of the file named; its instances fix tensor "
       "dimensions and options, all numbers are symbolic. *thorough* "
       "instances run in that tier only.", ""]
for p in props:
    i = p["id"]
    mine = [c for c in cases if c[0] == i]
    if not mine:
        continue
    n = len(set(f for c in mine for f in c[2]))
    out += [f"## {i} {p['title']}", "",
            f"{len(set(c[1] for c in mine))} contracts on {n} functions, "
            f"{sum(c[6] == 'quick' for c in mine)} instances "
            f"({sum(c[6] != 'quick' for c in mine)} more in the thorough "
            "tier).", ""]
    for name in dict.fromkeys(c[1] for c in mine):
        cs = [c for c in mine if c[1] == name]
        c = cs[0]
        q = [x[3] for x in cs if x[6] == "quick"]
        kind = {"con": "; **bounded stand-in, not proved**",
                "sym": "; deductive only"}.get(c[5], "")
        out.append(f"* `{c[8].split('.')[-1]}.{name}` ({len(q)} instance"
                   f"{'s' * (len(q) != 1)}{kind}; "
                   f"{'all inputs' if c[4] == 'full' else c[4]})"
                   + (f": {' '.join(c[7].split())}" if c[7] else ""))
        out.append("  on " + ", ".join(f"`{f}`" for f in c[2]))
    out.append("")
with open(os.path.join(HERE, "CONTRACTS.md"), "w") as fh:
    fh.write("\n".join(out))
print(len(index), "functions under contract,", len(cases), "instances,",
      len(set((c[0], c[1]) for c in cases)), "contracts")
