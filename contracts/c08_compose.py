"""Joining, copying, re-parametrising and adding sets of mixed-integer
constraints."""
import torch
import gurobipy
from engine.cases import case
from contracts import mip
import neural_network_lyapunov.gurobi_torch_mip as gtm

G = gurobipy.GRB
PARTS = ("input", "slack", "binary")


def cnstr(H, tag, dims, rows, present, rhs_present=None):
    """An arbitrary set of constraints with the given parts.

    dims: (num_input, num_slack, num_binary); rows: {"in","eq","out": n};
    present: set of (row kind, part)."""
    c = gtm.MixedIntegerConstraintsReturn()
    for kind, n in rows.items():
        for part, d in zip(PARTS, dims):
            if (kind, part) in present and n is not None:
                setattr(c, f"A{kind}_{part}",
                        H.tensor(f"{tag}.A{kind}_{part}", n, d))
    for kind, attr in (("in", "rhs_in"), ("eq", "rhs_eq"), ("out", "Cout")):
        if rows.get(kind) is not None and (kind, "rhs") in present:
            setattr(c, attr, H.tensor(f"{tag}.{attr}", rows[kind]))
    return c


def row_gaps(H, c, kind, x, s, z):
    """Values of A x + A s + A z - rhs (or + Cout)."""
    rhs = c.Cout if kind == "out" else getattr(c, f"rhs_{kind}")
    mats = [(getattr(c, f"A{kind}_{p}"), v)
            for p, v in zip(PARTS, (x, s, z))]
    n = None
    for M, _ in mats:
        if M is not None:
            n = M.shape[0]
    if rhs is not None:
        n = rhs.shape[0] if n is None else n
    if n is None:
        return []
    out = [H.num(0.) for _ in range(n)]
    if rhs is not None:
        r = H.vecl(rhs)
        H.true(f"{kind}.rows", len(r) == n)
        out = [(a if kind == "out" else -a) for a in r]
    for M, v in mats:
        if M is None:
            continue
        H.true(f"{kind}.matrix", tuple(M.shape) == (n, len(v)))
        mv = H.mv(M, v)
        out = [a + b for a, b in zip(out, mv)]
    return out


def vals(H, tag, n):
    return [H.real(f"{tag}{i}") for i in range(n)]


ALL = {(k, p) for k in ("in", "eq", "out") for p in PARTS + ("rhs", )}


def bits(H, tag, kind):
    """Which parts of the rows of this kind are there: every subset; without
    any matrix there are no rows (the documented invariant)."""
    p = {(kind, q) for q in PARTS if H.bit(f"{tag}.{q}")}
    if kind == "out":
        if H.bit(f"{tag}.C"):
            p.add((kind, "rhs"))
    elif H.bit(f"{tag}.rhs") or p:
        p.add((kind, "rhs"))
    return p


@case("C08", ["gurobi_torch_mip.concatenate_mixed_integer_constraints"],
      params=[(k, a, b) for k in ("in", "eq", "out") for a in (0, 1)
              for b in (0, 1)],
      scope="two inputs; 1 and 2 slacks and binaries (2 and 2 if shared); 1 "
      "and 2 rows; every combination of missing parts")
def concatenate(H, kind, same_s, same_z):
    d1 = (2, 2 if same_s else 1, 2 if same_z else 1)
    d2 = (2, 2, 2)
    others = {(k, p) for (k, p) in ALL if k != kind}
    p1 = bits(H, "1", kind) | others
    p2 = bits(H, "2", kind) | others
    c1 = cnstr(H, "1", d1, {"in": 1, "eq": 2, "out": 2}, p1)
    c2 = cnstr(H, "2", d2, {"in": 2, "eq": 1, "out": 1}, p2)
    H.cover()
    stack = bool(H.bit("stack")) if kind != "out" else True
    keep = [dict(c.__dict__) for c in (c1, c2)]
    ret = gtm.concatenate_mixed_integer_constraints(
        c1, c2, bool(same_s), bool(same_z), stack)
    x = vals(H, "x", 2)
    s1, z1 = vals(H, "s", d1[1]), vals(H, "z", d1[2])
    s2 = s1 if same_s else vals(H, "t", d2[1])
    z2 = z1 if same_z else vals(H, "w", d2[2])
    s = s1 if same_s else s1 + s2
    z = z1 if same_z else z1 + z2
    for k in ("in", "eq", "out"):
        got = row_gaps(H, ret, k, x, s, z)
        if k == "out" and not stack:
            H.true("no output", got == [])
            continue
        want = row_gaps(H, c1, k, x, s1, z1) + row_gaps(H, c2, k, x, s2, z2)
        H.eqv(k, got, want)
    H.true("arguments", all(
        a.__dict__[n] is v for a, d in zip((c1, c2), keep)
        for n, v in d.items()))


def bnd(H, tag, n, k):
    """A bound with an infinite entry possible, or none."""
    t = H.choice(tag, ["none", "finite", "inf"])
    if t == "none":
        return None
    v = H.tensor(tag, n)
    if t == "inf":
        v = v.clone()
        v[0] = -mip.INF if k == "lo" else mip.INF
    return v


def blist(H, b, n, k):
    """Entries of a bound; None where there is none."""
    if b is None:
        return [None] * n
    out = []
    for i in range(n):
        e = b[i]
        inf = H.isinf(e)
        out.append(None if inf else H.scalar(e))
    return out


def joined(H, a, b, k):
    """The tighter bound."""
    if a is None:
        return b
    if b is None:
        return a
    return H.max(a, b) if k == "lo" else H.min(a, b)


@case("C08", ["gurobi_torch_mip.concatenate_mixed_integer_constraints"],
      params=[(q, a) for q in PARTS for a in (0, 1)],
      scope="two inputs; 1 and 2 slacks and binaries (2 and 2 if shared); "
      "finite, infinite and missing bounds")
def concatenate_bounds(H, part, same):
    ix = PARTS.index(part)
    d1, d2 = [2, 2, 2], [2, 2, 2]
    if not same and ix:
        d1[ix] = 1
        if H.bit("swap"):
            d1, d2 = d2, d1
    c1 = cnstr(H, "1", d1, {"in": 1}, ALL)
    c2 = cnstr(H, "2", d2, {"in": 1}, ALL)
    for c, t, d in ((c1, "1", d1), (c2, "2", d2)):
        for k in ("lo", "up"):
            setattr(c, f"{part}_{k}", bnd(H, f"{t}.{k}", d[ix], k))
    H.cover()
    ret = gtm.concatenate_mixed_integer_constraints(
        c1, c2, part == "slack" and bool(same),
        part == "binary" and bool(same), bool(H.bit("stack")))
    for k in ("lo", "up"):
        a = blist(H, getattr(c1, f"{part}_{k}"), d1[ix], k)
        b = blist(H, getattr(c2, f"{part}_{k}"), d2[ix], k)
        if part == "input" or same:
            want = [joined(H, p, q, k) for p, q in zip(a, b)]
        else:
            want = a + b
        got = getattr(ret, f"{part}_{k}")
        if got is not None:
            H.shape(f"{k}.shape", got, (len(want), ))
        got = blist(H, got, len(want), k)
        for i, (g, w) in enumerate(zip(got, want)):
            if w is None or g is None:
                H.true(f"{k}{i}", g is None and w is None)
            else:
                H.eq(f"{k}{i}", g, w)
    for q in PARTS:
        if q != part:
            H.true(f"{q} has no bounds",
                   getattr(ret, q + "_lo") is None
                   and getattr(ret, q + "_up") is None)


@case("C08", ["gurobi_torch_mip.MixedIntegerConstraintsReturn."
              "transform_input"], params=["in", "eq", "out"],
      scope="2 inputs from 2 or 3 new ones, 2 rows, every combination of "
      "missing parts")
def transform_input(H, kind):
    p = bits(H, "p", kind) | {q for q in ALL if q[0] != kind}
    c = cnstr(H, "c", (2, 2, 1), {"in": 2, "eq": 2, "out": 2}, p)
    c.slack_lo, c.binary_up = H.tensor("sl", 2), H.tensor("bu", 1)
    n = H.choice("new", [2, 3])
    A, b = H.tensor("A", 2, n), H.tensor("b", 2)
    H.cover()
    before = c.clone() if not H.sym else None
    old = gtm.MixedIntegerConstraintsReturn()
    old.__dict__.update(c.__dict__)
    if not H.sym:
        # the values before the call
        old.__dict__.update({
            k: None if v is None else v.detach().clone()
            for k, v in c.__dict__.items()})
    else:
        old.__dict__.update({
            k: None if v is None else torch.clone(v)
            for k, v in c.__dict__.items()})
    handles = dict(c.__dict__)
    del before
    c.transform_input(A, b)
    x = vals(H, "x", n)
    s, z = vals(H, "s", 2), vals(H, "z", 1)
    y = [u + v for u, v in zip(H.mv(A, x), H.vecl(b))]
    for k in ("in", "eq", "out"):
        if k == "out" and not any(q[0] == "out" for q in p):
            H.true("out", c.Cout is None and c.Aout_input is None)
            continue
        H.eqv(k, row_gaps(H, c, k, x, s, z), row_gaps(H, old, k, y, s, z))
    H.same_tensor("slack_lo", c.slack_lo, old.slack_lo)
    H.same_tensor("binary_up", c.binary_up, old.binary_up)
    for k, v in handles.items():
        if v is not None:
            H.same_tensor("argument " + k, v, getattr(old, k))


@case("C08", ["gurobi_torch_mip.MixedIntegerConstraintsReturn."
              "transform_input"], scope="2 inputs, one row")
def transform_rejects(H):
    c = cnstr(H, "c", (2, 1, 1), {"in": 1}, ALL)
    setattr(c, "input_" + H.choice("side", ["lo", "up"]), H.tensor("lo", 2))
    H.cover()
    H.raises("input bounds", lambda: c.transform_input(
        H.tensor("A", 2, 2), H.tensor("b", 2)))


@case("C08", ["gurobi_torch_mip.MixedIntegerConstraintsReturn.clone"],
      scope="2 inputs, 1 slack, 2 binaries; every attribute present or "
      "missing in turn")
def clone(H):
    c = cnstr(H, "c", (2, 1, 2), {"in": 1, "eq": 2, "out": 1}, ALL)
    for p, d in zip(PARTS, (2, 1, 2)):
        setattr(c, p + "_lo", H.tensor(p + "_lo", d))
        setattr(c, p + "_up", H.tensor(p + "_up", d))
    names = sorted(c.__dict__)
    drop = H.choice("missing", ["-"] + names)
    if drop != "-":
        setattr(c, drop, None)
    H.cover()
    o = c.clone()
    H.true("type", isinstance(o, gtm.MixedIntegerConstraintsReturn)
           and o is not c)
    for n in names:
        a, b = getattr(c, n), getattr(o, n)
        if a is None:
            H.true(n, b is None)
            continue
        H.same_tensor(n, b, a)
        was = H.vecl(a)
        b += 1.
        H.eqv(n + " independent", a, was)
    c.rhs_in = "text"
    H.raises("unknown type", c.clone)


@case("C08", ["gurobi_torch_mip.GurobiTorchMIP."
              "add_mixed_integer_linear_constraints"],
      params=[(k, m) for k in ("in", "eq", "out")
              for m in ("B", "BR", "list")],
      scope="2 inputs, 2 slacks, 3 binaries, 2 outputs, 1 or 2 rows; every "
      "combination of missing parts")
def add_constraints(H, kind, how):
    p = bits(H, "p", kind)
    if kind != "out" and p == {(kind, "rhs")}:
        return
    p = p | {q for q in ALL if q[0] != kind}
    c = cnstr(H, "c", (2, 2, 3), {"in": 2, "eq": 1, "out": 2}, p)
    prog = mip.program(H, "MIP", 5, 3, 1, 1, zfirst=bool(H.bit("zfirst")))
    xs, ys = prog.r[1:3], prog.r[:0:-1][:2]
    if H.bit("no output"):
        ys = None
    H.cover()
    val, rec0 = mip.invariant(H, "before", prog)
    old = list(prog.gurobi_model.getVars())
    n0 = len(prog.gurobi_model.getConstrs())
    kw = {"BR": {"binary_var_type": gtm.BINARYRELAX}}.get(how, {})
    s, z = prog.add_mixed_integer_linear_constraints(
        c, xs, ys, "s", list(prog.zeta) if how == "list" else "z", "i", "e",
        "o", **kw)
    H.true("slacks", len(s) == 2 and mip.ids(prog.r[5:]) == mip.ids(s) and all(
        v.vtype == "C" and H.unbounded(v) for v in s))
    if how == "list":
        H.true("binaries", mip.ids(z) == mip.ids(prog.zeta) and len(prog.zeta) == 3)
    else:
        H.true("binaries", len(z) == 3 and mip.ids(prog.zeta[3:]) == mip.ids(z) and all(
            v.vtype == ("B" if how == "B" else "C") and
            mip.zero(H, H.scalar(v.lb)) and mip.zero(H, H.scalar(v.ub) - 1)
            for v in z))
    H.true("no other variable", mip.ids(
        prog.gurobi_model.getVars()) == mip.ids(old, s) + (
            mip.ids(z) if how != "list" else []))
    full = dict(mip.ghosts(H, prog))
    full.update(val)
    X, S, Z = [[full[v] for v in q] for q in (xs, s, z)]
    want = [("<", g) for g in row_gaps(H, c, "in", X, S, Z)]
    want += [("=", g) for g in row_gaps(H, c, "eq", X, S, Z)]
    if ys is not None:
        o = row_gaps(H, c, "out", X, S, Z)
        if not o:
            o = [0. for _ in ys]
        want += [("=", g - full[v]) for g, v in zip(o, ys)]
    cs = prog.gurobi_model.getConstrs()[n0:]
    mip.same_rows(H, "rows", [
        (k.Sense, mip.gaps(H, k.coef.c, k.RHS, full)) for k in cs], want)
    mip.invariant(H, "after", prog)


@case("C08", ["gurobi_torch_mip.GurobiTorchMIP."
              "add_mixed_integer_linear_constraints"],
      params=list(PARTS) + [(p, 3) for p in PARTS],
      scope="2 or 3 variables of each kind; finite, infinite and "
      "missing bounds on any prior bounds")
def add_bounds(H, part, n=2):
    c = cnstr(H, "c", (n, n, n), {"in": 1, "out": 1},
              {("in", q) for q in PARTS + ("rhs", )} | {("out", "input")})
    if H.bit("only bounds") and part != "input":
        setattr(c, "Ain_" + part, None)
        H.assume(True)
    prog = mip.program(H, "MIP", n, 0, 0, 0)
    lo, up = H.interval("prior", n)
    if part == "input":
        for v, a, b in zip(prog.r, H.vecl(lo), H.vecl(up)):
            v.lb, v.ub = a, b
        prog.gurobi_model.update()
    prior = {"input": [(a, b) for a, b in zip(H.vecl(lo), H.vecl(up))],
             "slack": [(None, None)] * n, "binary": [(0., 1.)] * n}[part]
    cl, cu = bnd(H, "lo", n, "lo"), bnd(H, "up", n, "up")
    setattr(c, part + "_lo", cl)
    setattr(c, part + "_up", cu)
    if getattr(c, "Ain_" + part) is None and cl is None and cu is None:
        return
    H.cover()
    s, z = prog.add_mixed_integer_linear_constraints(
        c, prog.r[:n], None, "s", "z", "i", "e", "o")
    vs = {"input": prog.r[:n], "slack": list(s), "binary": list(z)}[part]
    H.true("number", len(vs) == n)
    for i, v in enumerate(vs):
        for k, b, w, x in (("lo", cl, prior[i][0], v.lb),
                           ("up", cu, prior[i][1], v.ub)):
            want = joined(H, w, blist(H, b, n, k)[i], k)
            if want is None:
                H.true(f"{k}{i}", H.no_lower(x) if k == "lo"
                       else H.no_upper(x))
            else:
                H.eq(f"{k}{i}", x, want)
    mine = mip.ids(vs)
    for o in prog.r:
        if id(o) not in mine:
            H.true("other continuous", H.unbounded(o)
                   or (part != "input" and id(o) in mip.ids(prog.r[n:])))
    for o in prog.zeta:
        if id(o) not in mine:
            H.true("other binary", mip.zero(H, H.scalar(o.lb))
                   and mip.zero(H, H.scalar(o.ub) - 1))
