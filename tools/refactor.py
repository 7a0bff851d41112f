"""tools/refactor.py KIND DEST: write a copy of the package with every
function rewritten by one behaviour-preserving transformation, to see that the
checks stay quiet (run check.py with VERIF_REPO=DEST).

kinds: keyword positional invert while wrap hoist rename swap return split
"""
import ast
import builtins
import copy
import os
import shutil
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "neural_network_lyapunov"


def files(root):
    d = os.path.join(root, PKG)
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            yield os.path.join(d, f)


def signatures():
    sig = {}

    def add(name, fn, method):
        a = fn.args
        if a.vararg or a.kwarg or a.posonlyargs or any(
                ast.unparse(d) == "property" for d in fn.decorator_list):
            sig.setdefault(name, set()).add(None)
            return
        static = any(ast.unparse(d) == "staticmethod"
                     for d in fn.decorator_list)
        ns = [x.arg for x in a.args]
        if method and not static:
            ns = ns[1:]
        sig.setdefault(name, set()).add(tuple(ns))

    for base, _, fs in os.walk(os.path.join(REPO, PKG)):
        for f in fs:
            if not f.endswith(".py") or "test" in base:
                continue
            t = ast.parse(open(os.path.join(base, f)).read())
            for n in t.body:
                if isinstance(n, ast.FunctionDef):
                    add(n.name, n, False)
                elif isinstance(n, ast.ClassDef):
                    init = [b for b in n.body if isinstance(
                        b, ast.FunctionDef) and b.name == "__init__"]
                    if init:
                        add(n.name, init[0], True)
                    else:
                        sig.setdefault(n.name, set()).add(None)
                    for b in n.body:
                        if isinstance(b, ast.FunctionDef):
                            add(b.name, b, True)
                for m in ast.walk(n):
                    # nested functions have other scopes
                    if isinstance(m, ast.FunctionDef) and m is not n and not \
                            isinstance(n, ast.ClassDef):
                        sig.setdefault(m.name, set()).add(None)
    own = {}
    for k, v in sig.items():
        if len(v) == 1 and None not in v and k not in NATIVE:
            own[k] = next(iter(v))
    return own


NATIVE = {"step", "forward", "addVars", "addLConstr", "addVar", "setObjective",
          "optimize", "update", "clone", "clear", "log", "f", "G", "R", "save",
          "load", "value", "train", "zero_grad", "setup", "mode", "rollout",
          "dynamics", "__init__"}


def callee(n):
    f = n.func
    return f.attr if isinstance(f, ast.Attribute) else \
        f.id if isinstance(f, ast.Name) else None


class Keyword(ast.NodeTransformer):
    def __init__(self):
        self.sig = signatures()

    def visit_Call(self, n):
        self.generic_visit(n)
        s = self.sig.get(callee(n))
        if s is None or any(isinstance(a, ast.Starred) for a in n.args) or \
                len(n.args) > len(s) or len(n.args) < 2 or \
                not set(k.arg for k in n.keywords) <= set(s):
            return n
        new = [ast.keyword(s[i], a) for i, a in enumerate(n.args)][1:]
        n.args, n.keywords = n.args[:1], new + n.keywords
        return n


class Positional(ast.NodeTransformer):
    def __init__(self):
        self.sig = signatures()

    def visit_Call(self, n):
        self.generic_visit(n)
        s = self.sig.get(callee(n))
        if s is None or any(isinstance(a, ast.Starred) for a in n.args) or \
                any(k.arg is None for k in n.keywords):
            return n
        kws = {k.arg: k for k in n.keywords}
        while len(n.args) < len(s) and s[len(n.args)] in kws:
            k = kws.pop(s[len(n.args)])
            n.keywords.remove(k)
            n.args.append(k.value)
        return n


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(
                n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n


class While(ast.NodeTransformer):
    """for i in range(...) as a while loop (no break, continue or else)"""
    k = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or not isinstance(n.target, ast.Name) or not (
                isinstance(n.iter, ast.Call) and
                isinstance(n.iter.func, ast.Name) and
                n.iter.func.id == "range" and len(n.iter.args) == 1):
            return n
        if any(isinstance(m, (ast.Break, ast.Continue, ast.Yield))
               for m in ast.walk(n)):
            return n
        While.k += 1
        c, e = f"index_{While.k}", f"stop_{While.k}"
        return [
            ast.parse(f"{c} = 0").body[0],
            ast.Assign([ast.Name(e, ast.Store())], n.iter.args[0]),
            ast.While(ast.parse(f"{c} < {e}", mode="eval").body,
                      [ast.Assign([n.target], ast.Name(c, ast.Load()))] +
                      n.body + ast.parse(f"{c} = {c} + 1").body, [])]


class Wrap(ast.NodeTransformer):
    """The body of every function and method goes to a helper"""

    def one(self, n, method):
        if n.decorator_list or n.args.vararg or n.args.kwarg or \
                n.args.kwonlyargs or \
                n.name.startswith("__") or any(
                    isinstance(m, (ast.Yield, ast.Nonlocal)) or (isinstance(
                        m, ast.Call) and callee(m) in ("super", "locals"))
                    for m in ast.walk(n)):
            return [n]
        h = copy.deepcopy(n)
        h.name = f"_{n.name.strip('_')}_body"
        h.args.defaults, h.args.kw_defaults = [], [
            None for _ in h.args.kw_defaults]
        ns = [a.arg for a in n.args.args]
        call = ("self." if method else "") + h.name
        args = ns[1:] if method else ns
        if method and (not ns or ns[0] != "self"):
            return [n]
        n.body = ast.parse(f"return {call}({', '.join(args)})").body
        return [h, n]

    def visit_Module(self, n):
        out = []
        for b in n.body:
            if isinstance(b, ast.FunctionDef):
                out += self.one(b, False)
            elif isinstance(b, ast.ClassDef):
                body = []
                for m in b.body:
                    body += self.one(m, True) if isinstance(
                        m, ast.FunctionDef) else [m]
                # a helper per class, so that overriding stays right
                for m in body:
                    for c in ast.walk(m):
                        if isinstance(c, ast.Attribute) and \
                                c.attr.endswith("_body"):
                            c.attr = f"_{b.name.lower()}{c.attr}"
                    if isinstance(m, ast.FunctionDef) and \
                            m.name.endswith("_body"):
                        m.name = f"_{b.name.lower()}{m.name}"
                b.body = body
                out.append(b)
            else:
                out.append(b)
        n.body = out
        return n


class Hoist(ast.NodeTransformer):
    """f(a, g(x)) as t1 = a; t2 = g(x); f(t1, t2), for whole statements"""
    k = 0

    def stmt(self, n):
        v = getattr(n, "value", None)
        if not isinstance(v, ast.Call) or not isinstance(
                n, (ast.Assign, ast.Return, ast.Expr)):
            return [n]
        if any(isinstance(a, ast.Starred) for a in v.args) or any(
                k.arg is None for k in v.keywords) or callee(v) == "super":
            return [n]
        # the object of a method call comes first
        if isinstance(v.func, ast.Attribute) and any(
                isinstance(m, ast.Call) for m in ast.walk(v.func)):
            return [n]
        pre = []

        def out(e):
            if isinstance(e, (ast.Constant, ast.Name)):
                return e
            Hoist.k += 1
            t = f"part_{Hoist.k}"
            pre.append(ast.Assign([ast.Name(t, ast.Store())], e))
            return ast.Name(t, ast.Load())

        v.args = [out(a) for a in v.args]
        for k in v.keywords:
            k.value = out(k.value)
        return pre + [n]

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(
                    n, (ast.Module, ast.ClassDef)):
                setattr(n, f, [x for s in b for x in self.stmt(s)])
        return n


class Rename(ast.NodeTransformer):
    """Local variables get other names"""

    def visit_FunctionDef(self, n):
        if any(isinstance(m, (ast.FunctionDef, ast.Lambda, ast.Global,
                              ast.Nonlocal, ast.ClassDef))
               for b in n.body for m in ast.walk(b)):
            return n
        args = {a.arg for a in n.args.args + n.args.kwonlyargs}
        loc = {m.id for m in ast.walk(n) if isinstance(m, ast.Name) and
               isinstance(m.ctx, ast.Store)} - args
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and m.id in loc:
                m.id = "my_" + m.id
        return n


PURE = (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.UnaryOp,
        ast.Compare, ast.Tuple, ast.List, ast.Load, ast.operator,
        ast.unaryop, ast.cmpop)


class Swap(ast.NodeTransformer):
    """Adjacent assignments to different names, without calls"""

    def ok(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and \
            isinstance(s.targets[0], ast.Name) and all(
                isinstance(m, PURE) for m in ast.walk(s.value))

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if not isinstance(b, list) or isinstance(
                    n, (ast.Module, ast.ClassDef)):
                continue
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if self.ok(s) and self.ok(t):
                    a, c = s.targets[0].id, t.targets[0].id
                    ra = {m.id for m in ast.walk(s.value)
                          if isinstance(m, ast.Name)}
                    rc = {m.id for m in ast.walk(t.value)
                          if isinstance(m, ast.Name)}
                    if a != c and a not in rc and c not in ra:
                        b[i], b[i + 1] = t, s
                        i += 1
                i += 1
        return n


class Return(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value),
                ast.Return(ast.Name("result_", ast.Load()))]


class Split(ast.NodeTransformer):
    """x += e as x = x + e only for plain numbers (names ending in count);
    a and b in a test as nested ifs without else"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(
                n.test.op, ast.And):
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


KINDS = dict(keyword=Keyword, positional=Positional, invert=Invert,
             rename=Rename, hoist=Hoist, wrap=Wrap, swap=Swap, split=Split)
KINDS["while"], KINDS["return"] = While, Return


def main():
    kind, dest = sys.argv[1:3]
    if os.path.exists(dest):
        shutil.rmtree(dest)
    shutil.copytree(REPO, dest, ignore=shutil.ignore_patterns(
        ".git", "__pycache__"))
    n = 0
    for f in files(dest):
        s = open(f).read()
        t = KINDS[kind]().visit(ast.parse(s))
        ast.fix_missing_locations(t)
        r = ast.unparse(t)
        compile(r, f, "exec")
        n += sum(a != b for a, b in zip(r.split("\n"), ast.unparse(
            ast.parse(s)).split("\n")))
        open(f, "w").write(r + "\n")
    print(kind, "lines that differ:", n)


if __name__ == "__main__":
    main()
