"""Mutation campaign: small edits of the functions under contract, each run
against the contracts that name the function.

  python3 tools/mutate.py OUT.jsonl [--per N] [--jobs N] [--match TEXT]
                          [--seed N]

Works in scratch copies under /tmp; survivors are listed in OUT (equivalent
mutants among them are for a human to judge)."""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "neural_network_lyapunov"
LIST = """
import sys, json
sys.path.insert(0, %r)
from engine import loader
loader.setup(True)
import importlib
from engine import symrun, cases
for n in symrun.contract_modules():
    importlib.import_module("contracts." + n)
json.dump([(c.prop, c.name, c.functions) for c in cases.CASES], sys.stdout)
""" % HERE


def registry():
    t = subprocess.check_output(["python3-vt", "-c", LIST], text=True)
    out = {}
    for prop, name, fns in json.loads(t[t.index("[["):]):
        for f in fns:
            out.setdefault(f, {}).setdefault(prop, set()).add(name)
    return out


def locate(fn):
    """(file, path of names) of a function under contract."""
    parts = fn.split(".")
    for k in range(len(parts) - 1, 0, -1):
        f = os.path.join(REPO, PKG, *parts[:k]) + ".py"
        if os.path.isfile(f):
            return f, parts[k:]
    return None, None


def find(tree, path):
    node = tree
    for n in path:
        node = next((b for b in node.body if isinstance(
            b, (ast.FunctionDef, ast.ClassDef)) and b.name == n), None)
        if node is None:
            return None
    return node if isinstance(node, ast.FunctionDef) else None


SIZES = False  # --sizes: only loops cut short
DEFAULTS = False  # --defaults: only the default values of parameters
SWAP = {"lo": "up", "up": "lo", "min": "max", "max": "min", "floor": "ceil",
        "lb": "ub", "ub": "lb", "sin": "cos", "cos": "sin",
        "zeros": "ones", "ones": "zeros", "zeros_like": "ones_like",
        "minimum": "maximum", "maximum": "minimum", "LESS_EQUAL":
        "GREATER_EQUAL", "GREATER_EQUAL": "LESS_EQUAL", "ExpLower":
        "ExpUpper", "ExpUpper": "ExpLower", "BINARY": "CONTINUOUS",
        "CONTINUOUS": "BINARY", "append": "extend"}


def swap_name(n):
    if n in SWAP:
        return SWAP[n]
    for a, b in (("lo", "up"), ("up", "lo"), ("min", "max"),
                 ("max", "min")):
        m = re.sub(f"(^|_){a}($|_)", rf"\1{b}\2", n)
        if m != n:
            return m
    return None


def truncations(fn):
    """Loops that stop after two rounds: do the contracts ever need three?"""
    out = []
    for i, n in enumerate(ast.walk(fn)):
        if isinstance(n, ast.For):
            it = n.iter
        elif isinstance(n, ast.comprehension):
            it = n.iter
        else:
            continue
        t = ast.unparse(it)

        def cut(m):
            m.iter = ast.parse(f"list({ast.unparse(m.iter)})[:2]",
                               mode="eval").body

        out.append((f"{it.lineno}: two rounds: {t[:60]}", i, cut))
    return out


def mutants(fn):
    """[(description, function on the node at that index)]"""
    if SIZES:
        return truncations(fn)
    out = []
    skip = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assert, ast.Raise)) or (
                isinstance(n, ast.Expr) and (isinstance(
                    n.value, ast.Constant) or (isinstance(
                        n.value, ast.Call) and ast.unparse(
                            n.value.func) in ("print", "warnings.warn")))):
            for m in ast.walk(n):
                skip.add(id(m))
    in_defaults = {id(m) for d in fn.args.defaults + fn.args.kw_defaults
                   if d is not None for m in ast.walk(d)}
    nodes = list(ast.walk(fn))
    names = set()
    for i, n in enumerate(nodes):
        if id(n) in skip or (DEFAULTS and id(n) not in in_defaults):
            continue
        L = getattr(n, "lineno", 0)

        def add(what, f):
            out.append((f"{L}: {what}", i, f))

        if isinstance(n, ast.BinOp):
            t = ast.unparse(n)[:60]
            if isinstance(n.op, ast.Add):
                add(f"+ to -: {t}", lambda m: setattr(m, "op", ast.Sub()))
            elif isinstance(n.op, ast.Sub):
                add(f"- to +: {t}", lambda m: setattr(m, "op", ast.Add()))
            elif isinstance(n.op, ast.Mult):
                add(f"drop right factor: {t}", lambda m: (
                    setattr(m, "op", ast.Add()),
                    setattr(m, "right", ast.Constant(0))))
                add(f"drop left factor: {t}", lambda m: (
                    setattr(m, "op", ast.Add()),
                    setattr(m, "left", ast.Constant(0))))
            elif isinstance(n.op, ast.Div):
                add(f"drop divisor: {t}", lambda m: setattr(
                    m, "right", ast.Constant(1)))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = ast.unparse(n)[:60]
            P = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE],
                 ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
                 ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                 ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for o in P.get(type(n.ops[0]), []):
                add(f"{o.__name__}: {t}",
                    lambda m, o=o: setattr(m, "ops", [o()]))
        elif isinstance(n, ast.BoolOp):
            add("and/or: " + ast.unparse(n)[:60], lambda m: setattr(
                m, "op", ast.Or() if isinstance(m.op, ast.And)
                else ast.And()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and \
                not isinstance(n.operand, ast.Constant):
            add("drop minus: " + ast.unparse(n)[:60], lambda m: setattr(
                m, "op", ast.UAdd()))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(f"{v} flipped", lambda m: setattr(
                    m, "value", not m.value))
            elif isinstance(v, str) and DEFAULTS and v == "mean":
                add("mean to max", lambda m: setattr(m, "value", "max"))
            elif isinstance(v, int):
                add(f"{v}+1", lambda m: setattr(m, "value", m.value + 1))
                if v >= 1:
                    add(f"{v}-1", lambda m: setattr(m, "value",
                                                    m.value - 1))
            elif isinstance(v, float):
                add(f"{v} changed", lambda m: setattr(
                    m, "value", m.value * 2 if m.value else 1.))
        elif isinstance(n, (ast.Attribute, ast.Name)):
            k = "attr" if isinstance(n, ast.Attribute) else "id"
            s = swap_name(getattr(n, k))
            if s and isinstance(n.ctx, ast.Load):
                add(f"{getattr(n, k)} to {s}", lambda m, k=k, s=s: setattr(
                    m, k, s))
        elif isinstance(n, ast.Call):
            t = ast.unparse(n)[:60]
            if len(n.args) >= 2 and "assert" not in t and "range" not in t:
                add(f"swap arguments: {t}", lambda m: setattr(
                    m, "args", [m.args[1], m.args[0]] + m.args[2:]))
            for j, kw in enumerate(n.keywords):
                if kw.arg not in ("dtype", "device", None):
                    add(f"drop {kw.arg}=: {t}", lambda m, j=j: m.keywords.
                        pop(j))
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in (
                    "clone", "detach", "copy", "squeeze", "abs",
                    "transpose", "flatten"):
                add(f"drop {f.attr}(): {t}", lambda m: (
                    setattr(m, "args", []), setattr(m, "keywords", []),
                    setattr(m, "func", ast.Lambda(
                        ast.arguments([], [], None, [], [], None, []),
                        m.func.value))))
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            pass
        elif isinstance(n, ast.If):
            t = ast.unparse(n.test)[:60]
            add(f"if True: {t}", lambda m: setattr(
                m, "test", ast.Constant(True)))
            add(f"if False: {t}", lambda m: setattr(
                m, "test", ast.Constant(False)))
        elif isinstance(n, ast.Expr):
            add("drop: " + ast.unparse(n)[:60].replace("\n", " "),
                lambda m: setattr(m, "value", ast.Constant(None)))
        elif isinstance(n, ast.AugAssign):
            t = ast.unparse(n)[:60]
            if isinstance(n.op, ast.Add):
                add("+= to -=: " + t, lambda m: setattr(m, "op", ast.Sub()))
        elif isinstance(n, ast.Slice):
            pass
        elif isinstance(n, ast.Return) and n.value is not None and \
                isinstance(n.value, ast.Tuple) and len(n.value.elts) >= 2:
            add("swap returned: " + ast.unparse(n)[:60], lambda m: setattr(
                m.value, "elts", [m.value.elts[1], m.value.elts[0]] +
                m.value.elts[2:]))
    return out


def work(args):
    fn, props, what, src, f, wid = args
    name = mp.current_process().name.replace(":", "")
    root = f"/tmp/mut_{os.getpid()}"
    if not os.path.isdir(root):
        shutil.copytree(REPO, root, ignore=shutil.ignore_patterns(
            ".git", "__pycache__"))
    g = os.path.join(root, os.path.relpath(f, REPO))
    keep = open(f).read()
    open(g, "w").write(src)
    r = dict(function=fn, mutant=what, result="survived", props={})
    ev = tempfile.mkdtemp(prefix="mutev_", dir="/tmp")
    t0 = time.time()
    try:
        for prop in sorted(props):
            a = ["python3", os.path.join(HERE, "check.py"), prop, "--jobs",
                 "2"]
            for n in sorted(props[prop]):
                a += ["--only", n]
            try:
                p = subprocess.run(a, env=dict(
                    os.environ, VERIF_REPO=root, VERIF_EV=ev),
                    capture_output=True, text=True, timeout=900)
                rc, o = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, o = "timeout", ""
            v = [ln for ln in o.splitlines() if ln.startswith("VIOLATION")]
            r["props"][prop] = [rc, "nofail" if v and all(
                "no-failing" in ln for ln in v) else "",
                [ln[:200] for ln in o.splitlines() if
                 "not applicable" in ln or "Undischarged" in ln][:2]]
            if rc == 1:
                r["result"] = "killed"
                break
    finally:
        open(g, "w").write(keep)
        shutil.rmtree(ev, ignore_errors=True)
    r["secs"] = round(time.time() - t0, 1)
    return r


def main():
    a = argparse.ArgumentParser()
    a.add_argument("out")
    a.add_argument("--per", type=int, default=6)
    a.add_argument("--jobs", type=int, default=4)
    a.add_argument("--match", action="append", default=[])
    a.add_argument("--seed", type=int, default=0)
    a.add_argument("--rerun", help="only the survivors of this result file")
    a.add_argument("--skip", help="leave out what this result file has")
    a.add_argument("--defaults", action="store_true")
    a.add_argument("--sizes", action="store_true")
    a = a.parse_args()
    global DEFAULTS, SIZES
    SIZES = a.sizes
    DEFAULTS = a.defaults
    again = None
    if a.rerun:
        rs = [json.loads(x) for x in open(a.rerun)]
        again = {(r["function"], r["mutant"]) for r in rs
                 if r["result"] == "survived"}
    had = {(r["function"], r["mutant"]) for r in map(
        json.loads, open(a.skip))} if a.skip else set()
    rng = random.Random(a.seed)
    todo = []
    for fn, props in sorted(registry().items()):
        if fn.startswith("examples"):
            continue
        if a.match and not any(m in fn or m in props for m in a.match):
            continue
        f, path = locate(fn)
        if f is None:
            print("not found", fn)
            continue
        text = open(f).read()
        tree = ast.parse(text)
        node = find(tree, path)
        if node is None:
            if path[-1][:1].isupper() is False:
                print("not a function", fn)
            continue
        ms = mutants(node)
        rng.shuffle(ms)
        ms = [m for m in ms if (fn, m[0]) not in had]
        if again is not None:
            ms = [m for m in ms if (fn, m[0]) in again]
        for what, i, change in ms[:a.per]:
            t2 = copy.deepcopy(tree)
            n2 = find(t2, path)
            try:
                change(list(ast.walk(n2))[i])
                src = ast.unparse(ast.fix_missing_locations(t2))
                # a dropped method call: (lambda: x)() is x
                compile(src, f, "exec")
            except Exception as e:
                continue
            todo.append((fn, {k: sorted(v) for k, v in props.items()}, what,
                         src, f, len(todo)))
    rng.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    n = k = 0
    with open(a.out, "a") as fh, mp.Pool(a.jobs) as pool:
        for r in pool.imap_unordered(work, todo):
            n += 1
            k += r["result"] == "killed"
            fh.write(json.dumps(r) + "\n")
            fh.flush()
            if n % 25 == 0:
                print(n, k, flush=True)
    for d in os.listdir("/tmp"):
        if d.startswith("mut_"):
            shutil.rmtree("/tmp/" + d, ignore_errors=True)


if __name__ == "__main__":
    main()
