"""The record of a program agrees with the program: every operation keeps
the representation invariant from an arbitrary state that satisfies it, so
every history does."""
import torch
import gurobipy
from engine.cases import case
from contracts import mip
import neural_network_lyapunov.gurobi_torch_mip as gtm

G = gurobipy.GRB
STATES = [(0, 0, 0, 0), (1, 1, 1, 1), (2, 1, 0, 2), (1, 2, 2, 0)]


def state(H, kind="MIP", sizes=STATES):
    k = H.choice("state", sizes)
    return mip.program(H, kind, *k, zfirst=bool(H.bit("zfirst")))


def kept(H, name, rec0, rec, val):
    """The rows there were are still there, in the same places."""
    for s in "<=":
        a = [g for t, g in rec0 if t == s]
        b = [g for t, g in rec if t == s]
        for i, g in enumerate(a):
            H.eq(f"{name}.kept{s}{i}", b[i], g)


def bound(H, name, k):
    """A bound: finite, or missing on the side k."""
    if H.bit(name + ".inf"):
        return -mip.INF if k == 0 else mip.INF
    return H.real(name)


@case("C07", ["gurobi_torch_mip.GurobiTorchMIP.addVars"],
      params=[("C", "tensor"), ("C", "scalar"), ("C", "default"),
              ("BR", "tensor"), ("B", "01"), ("BR", "01"),
              ("C", "finite"), ("BR", "finite")],
      scope="2 or 3 new variables on any state of at most 2 continuous, 2 binary "
      "variables and 2 rows of each kind")
def add_vars(H, vt, how):
    prog = state(H, sizes=STATES[:2] if how in ("tensor", "finite") else STATES)
    n = 2 if how == "tensor" else 3
    kw = {}
    if how == "tensor":
        lo = [bound(H, f"lo{i}", 0) for i in range(n)]
        up = [bound(H, f"up{i}", 1) for i in range(n)]
        if not H.sym and H.bit("eq"):
            up[0] = lo[0] if abs(lo[0]) != mip.INF else up[0]
        for a, b in zip(lo, up):
            if a != -mip.INF and b != mip.INF:
                if not H.sym:
                    H.assume(a <= b)
                else:
                    H.assume(a <= b)
        kw = dict(lb=vec(H, lo), ub=vec(H, up))
    elif how == "finite":
        lo = [H.real(f"lo{i}") for i in range(n)]
        up = [v + H.real(f"width{i}", 0.) for i, v in enumerate(lo)]
        kw = dict(lb=vec(H, lo), ub=vec(H, up))
    elif how == "scalar":
        a, b = [(0., 5.), (2., 2.), (-mip.INF, 3.), (-3, mip.INF)][
            H.choice("box", [0, 1, 2, 3])]
        lo, up = [a] * n, [b] * n
        kw = dict(lb=a, ub=b)
    elif how == "default":
        lo, up = [0.] * n, [mip.INF] * n
    else:
        lo, up = [0.] * n, [1.] * n
        kw = dict(lb=0., ub=1.)
    H.cover()
    val0, rec0 = mip.invariant(H, "before", prog)
    nr, nz = len(prog.r), len(prog.zeta)
    old = list(prog.gurobi_model.getVars())
    obounds = [(v.lb, v.ub, v.vtype) for v in old]
    gv = {"C": G.CONTINUOUS, "B": G.BINARY, "BR": gtm.BINARYRELAX}[vt]
    if how != "default":
        kw["vtype"] = gv    # a caller who names no type gets continuous ones
    new = prog.addVars(n, name="q", **kw)
    H.true("number", len(new) == n and
           mip.ids(prog.gurobi_model.getVars()) == mip.ids(old, new))
    if vt == "C":
        H.true("position", mip.ids(prog.r[nr:]) == mip.ids(new) and len(prog.zeta) == nz)
    else:
        H.true("position", mip.ids(prog.zeta[nz:]) == mip.ids(new) and
               len(prog.r) == nr)
    H.true("type", all(v.vtype == ("B" if vt == "B" else "C") for v in new))
    for i, v in enumerate(new):
        a, b = lo[i], up[i]
        if vt != "C":
            a = 0. if a == -mip.INF else H.max(a, 0.)
            b = 1. if b == mip.INF else H.min(b, 1.)
        for nm, w, x in (("lb", a, v.lb), ("ub", b, v.ub)):
            if isinstance(w, float) and abs(w) == mip.INF:
                H.true(f"{nm}{i}", H.isinf(x) and
                       H.sign_of_inf(x) == (1 if w > 0 else -1))
            else:
                H.eq(f"{nm}{i}", x, w)
    H.true("old variables", all(
        v.vtype == t and same(H, v.lb, a) and same(H, v.ub, b)
        for v, (a, b, t) in zip(old, obounds)))
    val = dict(mip.ghosts(H, prog))
    val.update(val0)
    rec = mip.recorded_rows(H, prog, val)
    mip.same_rows(H, "after", rec, mip.model_rows(H, prog, val))
    kept(H, "rows", rec0, rec, val)
    mip.invariant(H, "invariant", prog)


def same(H, a, b):
    if H.isinf(a) or H.isinf(b):
        return H.isinf(a) and H.isinf(b) and \
            H.sign_of_inf(a) == H.sign_of_inf(b)
    return mip.zero(H, H.scalar(a) - H.scalar(b))


def vec(H, xs):
    return torch.stack([torch.tensor(x, dtype=torch.float64) for x in xs])


SENSES = ["<", "=", ">"]
LC = [G.LESS_EQUAL, G.EQUAL, G.GREATER_EQUAL]


def pick(H, prog, lists):
    """Lists of variables without repetition, r and zeta mixed."""
    r, z = prog.r, prog.zeta
    opts = [[r[:1], z[:1]], [z + r], [r[::-1]], [z], [[], r + z],
            [r[1:] + z[1:], z[:1], r[:1]]]
    o = opts[H.choice("vars", range(len(opts)) if lists else [0, 1, 3])]
    return o


@case("C07", ["gurobi_torch_mip.GurobiTorchMIP.addLConstr"],
      params=["tensor", "float"],
      scope="any state of at most 2 continuous, 2 binary variables and 2 "
      "rows of each kind")
def add_lconstr(H, rk):
    prog = state(H)
    vs = pick(H, prog, True)
    sense = H.choice("sense", [0, 1, 2])
    co = [H.tensor(f"c{i}", len(v)) if v else
          torch.zeros((0, ), dtype=torch.float64) for i, v in enumerate(vs)]
    rhs = H.tensor("rhs", 1)[0] if rk == "tensor" else H.real("rhs")
    H.cover()
    val0, rec0 = mip.invariant(H, "before", prog)
    n0 = len(prog.gurobi_model.getConstrs())
    if sum(map(len, vs)) == 0:
        return
    c = prog.addLConstr(co, vs, LC[sense], rhs, name="c")
    cs = prog.gurobi_model.getConstrs()
    H.true("one constraint", len(cs) == n0 + 1 and cs[n0] is c)
    row(H, prog, cs[n0:], [(SENSES[sense], [
        (v, k) for t, l in zip(co, vs) for v, k in zip(l, H.vecl(t))], rhs)],
        val0)
    rec = mip.recorded_rows(H, prog, val0)
    kept(H, "rows", rec0, rec, val0)
    mip.invariant(H, "after", prog)


def row(H, prog, cs, want, val):
    """The constraints of the solver are the requested ones."""
    got = [(c.Sense, mip.gaps(H, c.coef.c, c.RHS, val)) for c in cs]
    exp = []
    for s, co, rhs in want:
        g = -H.scalar(rhs)
        for v, k in co:
            g = g + H.scalar(k) * val[v]
        exp.append((s, g))
    mip.same_rows(H, "constraint", got, exp)


@case("C07", ["gurobi_torch_mip.GurobiTorchMIP.addLConstr",
              "gurobi_torch_mip.GurobiTorchMILP.setObjective"],
      scope="a repeated continuous or binary variable")
def duplicates(H):
    prog = mip.program(H, "MILP", 2, 2, 1, 1)
    a = prog.r[0] if H.bit("which") else prog.zeta[1]
    H.cover()
    c = H.tensor("c", 1)
    H.raises("row", lambda: prog.addLConstr([c, c], [[a], [a]], G.LESS_EQUAL,
                                            1.))
    H.raises("objective", lambda: prog.setObjective(
        [c, c], [[a], [a]], 0., G.MINIMIZE))


@case("C07", ["gurobi_torch_mip.GurobiTorchMIP.addMConstr"], params=[1, 2, 3],
      scope="at most 3 new rows, any state of at most 2 continuous, 2 binary "
      "variables and 2 rows of each kind")
def add_mconstr(H, m):
    prog = state(H)
    vs = pick(H, prog, True)
    vs = [v for v in vs if v]
    sense = H.choice("sense", [0, 1, 2])
    A = [H.tensor(f"A{i}", m, len(v)) for i, v in enumerate(vs)]
    b = H.tensor("b", m)
    H.cover()
    val0, rec0 = mip.invariant(H, "before", prog)
    n0 = len(prog.gurobi_model.getConstrs())
    if not vs:
        return
    prog.addMConstr(A, vs, LC[sense], b, name="c")
    cs = prog.gurobi_model.getConstrs()
    row(H, prog, cs[n0:], [(SENSES[sense], [
        (v, H.el(t, i, j)) for t, l in zip(A, vs) for j, v in enumerate(l)],
        b[i]) for i in range(m)], val0)
    rec = mip.recorded_rows(H, prog, val0)
    kept(H, "rows", rec0, rec, val0)
    mip.invariant(H, "after", prog)


def constant(H, kind):
    if kind != "tensor":
        return H.real("k")
    k = H.tensor("k", 1)[0]
    if not H.sym:
        k.requires_grad_()
    return k


def through(H, prog, k, kind):
    """The recorded constant depends on the tensor given (torch only)."""
    if kind != "tensor" or H.sym:
        return
    H.true("constant keeps its graph", prog.c_constant.requires_grad)
    g, = torch.autograd.grad(prog.c_constant, k)
    H.eq("derivative of the constant", g, 1.)


@case("C07", ["gurobi_torch_mip.GurobiTorchMILP.setObjective"],
      params=["tensor", "float"],
      scope="any state of at most 2 continuous and 2 binary variables")
def milp_objective(H, ck):
    prog = state(H, "MILP")
    if H.bit("set before"):
        vs0 = [prog.r + prog.zeta]
        prog.setObjective([H.tensor("old", len(vs0[0])) if vs0[0] else
                           torch.zeros((0, ), dtype=torch.float64)], vs0,
                          1., G.MAXIMIZE)
    vs = pick(H, prog, True)
    co = [H.tensor(f"c{i}", len(v)) if v else
          torch.zeros((0, ), dtype=torch.float64) for i, v in enumerate(vs)]
    k = constant(H, ck)
    sense = H.choice("sense", [G.MINIMIZE, G.MAXIMIZE])
    H.cover()
    prog.setObjective(co, vs, k, sense)
    through(H, prog, k, ck)
    val, _ = mip.invariant(H, "rows", prog)
    want = H.scalar(k)
    for t, l in zip(co, vs):
        for v, q in zip(l, H.vecl(t)):
            want = want + q * val[v]
    H.eq("solver", mip.objective_at(H, prog, val), want)
    H.true("sense", prog.gurobi_model.ModelSense == sense and
           prog.sense == sense)
    r, z = [val[v] for v in prog.r], [val[v] for v in prog.zeta]
    H.true("shapes", tuple(prog.c_r.shape) == (len(r), ) and
           tuple(prog.c_zeta.shape) == (len(z), ))
    H.eq("record", H.dot(prog.c_r, r) + H.dot(prog.c_zeta, z) +
         H.scalar(prog.c_constant), want)


@case("C07", ["gurobi_torch_mip.GurobiTorchMIQP.setObjective"],
      params=["rr", "zz", "rz", "zr", "all", "constant"] +
      [(k, 3) for k in ("rr", "zz", "rz", "zr")], budget=100,
      scope="2 or 3 continuous and as many binary variables")
def miqp_objective(H, which, n=2):
    prog = mip.program(H, "MIQP", n, n, 1, 0, zfirst=bool(H.bit("zfirst")))
    r, z = prog.r, prog.zeta
    pairs = {"rr": [(r, r)], "zz": [(z[::-1], z)], "rz": [(r, z[1:])],
             "zr": [(z, r[::-1])],
             "constant": [(r, r)],
             "all": [(r[:1], r[1:]), (z[:1], z[:1]), (r[1:], z[:1])]}[which]
    Q = [H.tensor(f"Q{i}", len(a), len(b)) for i, (a, b) in enumerate(pairs)]
    vs = [z[:1], r[:1], r[1:]] if H.bit("lin") else []
    co = [H.tensor(f"c{i}", len(v)) for i, v in enumerate(vs)]
    ck = "tensor" if which == "constant" else "float"
    k = constant(H, ck)
    sense = H.choice("sense", [G.MINIMIZE, G.MAXIMIZE])
    H.cover()
    prog.setObjective(Q, pairs, co, vs, k, sense)
    through(H, prog, k, ck)
    val, _ = mip.invariant(H, "rows", prog)
    want = H.scalar(k)
    for t, l in zip(co, vs):
        for v, q in zip(l, H.vecl(t)):
            want = want + q * val[v]
    for t, (a, b) in zip(Q, pairs):
        for i in range(len(a)):
            for j in range(len(b)):
                want = want + H.el(t, i, j) * val[a[i]] * val[b[j]]
    H.eq("solver", mip.objective_at(H, prog, val), want)
    H.true("sense", prog.gurobi_model.ModelSense == sense)
    rv, zv = [val[v] for v in r], [val[v] for v in z]
    rec = H.dot(prog.c_r, rv) + H.dot(prog.c_zeta, zv) + H.scalar(
        prog.c_constant)
    rec = rec + H.dot(rv, H.mv(prog.Q_r, rv)) + H.dot(
        zv, H.mv(prog.Q_zeta, zv)) + H.dot(rv, H.mv(prog.Q_rzeta, zv))
    H.eq("record", rec, want)


@case("C07", ["gurobi_torch_mip.GurobiTorchMIP.remove_binary_relaxation"],
      scope="at most 2 continuous and 3 binary variables, 2 rows of each "
      "kind")
def remove_relaxation(H):
    k = H.choice("state", STATES + [(0, 3, 0, 0)])
    prog = mip.program(H, "MILP", *k, relaxed=bool(H.bit("relaxed")))
    if H.bit("mixed") and prog.zeta:
        prog.zeta[0].vtype = "B"
    if prog.zeta and H.bit("fixed"):  # a bound tightened since
        prog.zeta[-1].lb = 1.
        prog.zeta[0].ub = H.real("upper", lo=0., up=1.) if \
            len(prog.zeta) > 1 else 1.
        prog.gurobi_model.update()
    H.cover()
    val0, rec0 = mip.invariant(H, "before", prog)
    m = prog.gurobi_model
    old = [(v, v.lb, v.ub) for v in m.getVars()]
    cons = list(m.getConstrs())
    prog.remove_binary_relaxation()
    H.true("binary", all(v.vtype == "B" for v in prog.zeta))
    H.true("continuous", all(v.vtype == "C" for v in prog.r))
    H.true("variables", mip.ids([v for v, _, _ in old]) == mip.ids(m.getVars()) and all(
        same(H, v.lb, a) and same(H, v.ub, b) for v, a, b in old))
    H.true("constraints", m.getConstrs() == cons)
    rec = mip.recorded_rows(H, prog, val0)
    kept(H, "rows", rec0, rec, val0)
    mip.invariant(H, "after", prog)
