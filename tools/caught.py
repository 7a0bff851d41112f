"""tools/caught.py: run every planted bug's check on a scratch copy and note
the first failing obligation in tools/caught.json."""
import json
import os
import re
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
f = os.path.join(HERE, "tools", "caught.json")
out = json.load(open(f)) if os.path.exists(f) else {}
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
for d in ids:
    sd = os.path.join(HERE, "seeded", d)
    prop = json.load(open(os.path.join(sd, "meta.json")))["property"]
    with tempfile.TemporaryDirectory(prefix="caught_") as t:
        subprocess.check_call(["git", "clone", "-q", REPO, t + "/repo"])
        subprocess.check_call(["git", "-C", t + "/repo", "apply",
                               os.path.join(sd, "patch.diff")])
        e = dict(os.environ, VERIF_REPO=t + "/repo", VERIF_EV=t + "/ev")
        r = subprocess.run(["python3", "check.py", prop], cwd=HERE, env=e,
                           capture_output=True, text=True)
    m = re.search(r"^  case (.+?): obligation (.+?): ", r.stdout, re.M)
    out[d] = f"{prop} `{m.group(1)}`: {m.group(2)}" if r.returncode == 1 \
        and m else "missed"
    print(d, r.returncode, out[d], flush=True)
    json.dump(out, open(f, "w"), indent=1, sort_keys=True)
