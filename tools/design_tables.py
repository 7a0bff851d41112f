"""Regenerate the tables of DESIGN.md between the markers."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kf = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
out = ["| property | commit | what failed |", "|---|---|---|"]
for e in kf:
    if e["status"] == "fixed":
        out.append(f"| {e['property']} | `{e['commit']}` | {e['what']} |")
fixed = "\n".join(out)
out = ["| property | what fails |", "|---|---|"]
for e in kf:
    if e["status"] == "known":
        out.append(f"| {e['property']} | {e['what']} |")
known = "\n".join(out)
caught = {}
f = os.path.join(HERE, "tools", "caught.json")
if os.path.exists(f):
    caught = json.load(open(f))
out = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    out.append(f"| {d} | {m['property']} | {m['needs']} | "
               f"{caught.get(d, '')} |")
seeds = "\n".join(out).replace("\n\n", "\n")
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
for k, t in (("fixed", fixed), ("known", known), ("seeds", seeds)):
    s = re.sub(rf"(<!-- {k} -->\n).*?(<!-- /{k} -->)",
               lambda m: m.group(1) + t + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
