"""Lines of the repository that no contract case runs (sampled runs).
linecov.py OUT.json PROP: adds the lines run by this property's cases."""
import ast, glob, json, os, sys
sys.path.insert(0, "/verif")
R = os.environ.get("VERIF_REPO", "/repo") + "/neural_network_lyapunov/"


def collect(out, prop):
    from engine import conrun, cases
    seen = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "linecov")

    def line(code, n):
        f = code.co_filename
        if "/neural_network_lyapunov/" in f:
            seen.add((f.split("/neural_network_lyapunov/", 1)[1], n))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    conrun._load(prop)
    for c in cases.select(prop, "quick"):
        if c.kind in ("both", "con"):
            conrun.run_case(c, 1, 4., 25)
    json.dump(sorted(seen), open(out, "w"))


def report(files):
    seen = set()
    for f in files:
        seen |= {tuple(x) for x in json.load(open(f))}
    for f in sorted(glob.glob(R + "**/*.py", recursive=True)):
        rel = f[len(R):]
        if "/test/" in rel or rel.startswith("test/"):
            continue
        src = open(f).read().split("\n")
        t = ast.parse(open(f).read())
        for n in ast.walk(t):
            if not isinstance(n, ast.FunctionDef):
                continue
            ls = sorted({s.lineno for s in ast.walk(n) if isinstance(
                s, ast.stmt) and s is not n and not (isinstance(
                    s, ast.Expr) and isinstance(s.value, ast.Constant))})
            miss = [i for i in ls if (rel, i) not in seen and not
                    src[i - 1].strip().startswith(("pass", "def "))]
            if miss and len(miss) == len(ls):
                print(f"{rel}:{n.lineno} {n.name}: none of {len(ls)}")
            elif miss:
                print(f"{rel}:{n.lineno} {n.name}: {len(miss)} of {len(ls)}")
                for i in miss:
                    print(f"      {i}: {src[i - 1].strip()[:90]}")


if __name__ == "__main__":
    if sys.argv[1] == "report":
        report(sys.argv[2:])
    else:
        collect(*sys.argv[1:3])
