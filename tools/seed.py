"""Plant a bug: build seeded/<id>/ from an edit and a demonstration.

  python3 tools/seed.py DEF.py      (DEF defines SEEDS = [dict(...)])

Each entry: id, property, file (under neural_network_lyapunov/), edits
[(old, new)], demo (python text), needs, breaks, stub (copy the gurobipy
stand-in beside the demo). The patch is made in a scratch copy under /tmp, the
demo is run with and without it, and the directory is written only when the
demo tells the two apart."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec env PYTHONPATH="$D:$PWD" /opt/venv/bin/python "$D/demo.py"
"""


def stub():
    t = open(os.path.join(HERE, "engine/gurobi_core.py")).read()
    t = t[:t.index("def build(symbolic)")]
    return t + ("def quicksum(xs):\n    r = LinExpr()\n    for x in xs:\n"
                "        r = r + x\n    return r\n\n\ntuplelist = list\n")


def main(path):
    for s in runpy.run_path(path)["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        one(s)


def one(s):
    tmp = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/repo"])
        r = tmp + "/repo"
        d = tmp + "/d"
        os.makedirs(d)
        open(d + "/demo.sh", "w").write(DEMO)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        if s.get("stub", True):
            open(d + "/gurobipy.py", "w").write(stub())
        a = subprocess.run(["bash", d + "/demo.sh"], cwd=r,
                           capture_output=True, text=True, timeout=300)
        edits = s["edits"] if isinstance(s["edits"], dict) else \
            {s["file"]: s["edits"]}
        for fn, ed in edits.items():
            f = r + "/neural_network_lyapunov/" + fn
            t = open(f).read()
            for old, new in ed:
                if t.count(old) != 1:
                    print(s["id"], "edit matches", t.count(old), "times:",
                          old[:60])
                    return
                t = t.replace(old, new)
            open(f, "w").write(t)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=r,
                           capture_output=True, text=True, timeout=300)
        diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
        if a.returncode != 0 or b.returncode == 0:
            print(s["id"], "REJECTED: clean", a.returncode, "patched",
                  b.returncode)
            print((a.stdout + a.stderr)[-1500:])
            print("---patched:", (b.stdout + b.stderr)[-800:])
            return
        out = os.path.join(HERE, "seeded", s["id"])
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(d, out)
        p = out + "/__pycache__"
        if os.path.isdir(p):
            shutil.rmtree(p)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        print(s["id"], "ok:", b.stderr.strip().splitlines()[-1][:100]
              if b.stderr.strip() else b.stdout[-100:])
    finally:
        shutil.rmtree(tmp)


main(sys.argv[1])
