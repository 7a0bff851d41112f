"""Functions of the core library named by no contract case."""
import ast, glob, os, re
R = os.environ.get("VERIF_REPO", "/repo") + "/neural_network_lyapunov/"
names = set()
for f in glob.glob("/verif/contracts/*.py"):
    src = open(f).read()
    names |= set(re.findall(r"[A-Za-z_]\w*", src))
for f in sorted(glob.glob(R + "*.py")):
    t = ast.parse(open(f).read())
    out = []
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.name not in names:
            out.append(n.name)
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name not in names:
                    out.append(n.name + "." + m.name)
            if n.name not in names:
                out.append("class " + n.name)
    if out:
        print(os.path.basename(f), " ".join(out))
