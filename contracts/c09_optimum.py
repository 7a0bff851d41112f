"""The optimal cost as a function of the data of the program."""
import torch
import gurobipy
from engine.cases import case
from contracts import mip
import neural_network_lyapunov.gurobi_torch_mip as gtm

G = gurobipy.GRB


def grad(H, t):
    if t.grad is None and H.sym:
        # the symbolic value does not depend on it
        return torch.zeros(tuple(t.shape), dtype=torch.float64)
    return t.grad


class Data:
    """A program given row by row; every number is a leaf tensor."""

    def __init__(self, H, kind, nr, nz, nin, neq, rhs=None, grad=False,
                 nonneg=()):
        cls = {"MILP": gtm.GurobiTorchMILP, "MIQP": gtm.GurobiTorchMIQP}[kind]
        self.H = H
        self.p = p = cls(torch.float64)
        self.leaves = {}
        self.grad = grad
        m = p.gurobi_model
        for i in range(nr):
            v = m.addVar(lb=-G.INFINITY, name=f"r{i}")
            p.r_indices[v] = i
            p.r.append(v)
        for i in range(nz):
            v = m.addVar(vtype="B", name=f"z{i}")
            p.zeta_indices[v] = i
            p.zeta.append(v)
        m.update()
        self.rows = []
        for pre, n in (("in", nin), ("eq", neq)):
            for i in range(n):
                a = self.leaf(f"A{pre}_r{i}", H.tensor(f"A{pre}_r{i}", nr))
                z = self.leaf(f"A{pre}_z{i}", H.tensor(f"A{pre}_z{i}", nz)) \
                    if nz else None
                av = H.vecl(a)
                zv = H.vecl(z) if nz else []
                bv = rhs(pre, i, av, zv) if rhs else H.real(f"b{pre}{i}")
                b = self.leaf(f"b{pre}{i}", torch.tensor(
                    bv, dtype=torch.float64))
                for w, k, t in (("r", nr, a), ("zeta", nz, z)):
                    for j in range(k):
                        getattr(p, f"A{pre}_{w}_row").append(i)
                        getattr(p, f"A{pre}_{w}_col").append(j)
                        getattr(p, f"A{pre}_{w}_val").append(t[j])
                getattr(p, f"rhs_{pre}").append(b)
                self.rows.append((pre, i, av, zv, bv, a, z, b))

    def leaf(self, name, t):
        t = t.detach().clone()
        if self.grad:
            t.requires_grad_(True)
        self.leaves[name] = t
        return t

    def row(self, pre, i):
        return [r for r in self.rows if r[0] == pre and r[1] == i][0]


def zvec(H, nz):
    return [float(H.bit(f"zeta{i}")) for i in range(nz)]


def tens(xs):
    if not xs:
        return torch.zeros((0, ), dtype=torch.float64)
    return torch.stack([torch.tensor(x, dtype=torch.float64) for x in xs])


@case("C09", ["gurobi_torch_mip.GurobiTorchMIP.get_inequality_constraints",
              "gurobi_torch_mip.GurobiTorchMIP.get_active_constraints"],
      params=[(2, 2, 2, 1), (1, 0, 3, 0), (2, 1, 0, 2), (1, 2, 1, 0),
              (1, 1, 1, 3)],
      scope="at most 2 continuous, 2 binary variables, 3 inequalities and 2 "
      "equalities; every set of active rows; every binary point")
def active_constraints(H, nr, nz, nin, neq):
    d = Data(H, "MILP", nr, nz, nin, neq)
    act = {i for i in range(nin) if H.bit(f"active{i}")}
    z = zvec(H, nz)
    H.cover()
    Ar, Az, b = d.p.get_inequality_constraints()
    H.true("shapes", tuple(Ar.shape) == (nin, nr) and tuple(Az.shape) ==
           (nin, nz) and tuple(b.shape) == (nin, ))
    for i in range(nin):
        r = d.row("in", i)
        H.eqv(f"Ar{i}", [H.el(Ar, i, j) for j in range(nr)], r[2])
        H.eqv(f"Az{i}", [H.el(Az, i, j) for j in range(nz)], r[3])
        H.eq(f"b{i}", b[i], r[4])
    A, bb = d.p.get_active_constraints(set(act), tens(z))
    n = neq + len(act)
    H.true("active.shapes", tuple(A.shape) == (n, nr) and tuple(bb.shape) ==
           (n, ))
    got = [[H.el(A, i, j) for j in range(nr)] + [H.el1(bb, i)]
           for i in range(n)]
    want = [d.row("eq", i) for i in range(neq)] + [
        d.row("in", i) for i in sorted(act)]
    want = [r[2] + [r[4] - H.dot(r[3], z)] for r in want]
    # equalities first; the active inequalities in any order
    left = list(want)
    for i, g in enumerate(got):
        hit = [w for w in left if all(
            mip.zero(H, H.scalar(p) - H.scalar(q)) for p, q in zip(g, w))]
        H.true(f"row{i}", bool(hit) and (i >= neq or hit[0] is want[i]))
        if hit:
            left.remove(hit[0])


def gram(H, rows, nr):
    return [[H.dot([r[2][i] for r in rows], [r[2][j] for r in rows])
             for j in range(nr)] for i in range(nr)]


def det(M):
    if len(M) == 0:
        return 1.
    if len(M) == 1:
        return M[0][0]
    t = 0.
    for j in range(len(M)):
        t = t + (-1)**j * M[0][j] * det(
            [r[:j] + r[j + 1:] for r in M[1:]])
    return t


def well_conditioned(H):
    H.contract(gtm.np.linalg, "cond", lambda M: H.num(1.))
    if H.sym:
        H.assumed.add("precondition: the active constraints are well "
                      "conditioned (np.linalg.cond at most 1e15)")


MILP = [(1, 1, 1, 0), (1, 1, 2, 0), (1, 0, 1, 1), (2, 1, 2, 0),
        (2, 1, 1, 1), (2, 0, 2, 1), (2, 2, 0, 2)]


@case("C09", ["gurobi_torch_mip.GurobiTorchMILP."
              "compute_objective_from_mip_data"], params=MILP, budget=60,
      scope="at most 2 continuous and 2 binary variables, at most 3 active "
      "rows of full column rank")
def milp_value(H, nr, nz, nin, neq):
    """At an optimal vertex (active rows satisfied with equality) the value
    is the cost there and its derivatives are those of the optimal cost."""
    r = [H.real(f"r*{i}") for i in range(nr)]
    z = zvec(H, nz)
    d = Data(H, "MILP", nr, nz, nin, neq, grad=True,
             rhs=lambda pre, i, a, w: H.dot(a, r) + H.dot(w, z))
    extra = None
    if H.bit("inactive row"):
        # one more row that is not active
        extra = len(d.p.rhs_in)
        t = H.tensor("extra", nr)
        for j in range(nr):
            d.p.Ain_r_row.append(extra)
            d.p.Ain_r_col.append(j)
            d.p.Ain_r_val.append(t[j])
        d.p.rhs_in.append(H.tensor("extra.b", 1)[0])
    p = d.p
    p.c_r = d.leaf("c_r", H.tensor("c_r", nr))
    p.c_zeta = d.leaf("c_zeta", H.tensor("c_zeta", nz)) if nz else \
        torch.zeros((0, ), dtype=torch.float64)
    p.c_constant = d.leaf("const", H.tensor("const", 1)[0])
    c, cz = H.vecl(p.c_r), H.vecl(p.c_zeta) if nz else []
    k = H.scalar(p.c_constant)
    dt = det(gram(H, d.rows, nr))
    H.assume(H.not_(dt == 0) if H.sym else dt > 1e-2)
    H.cover()
    well_conditioned(H)
    v = p.compute_objective_from_mip_data(set(range(nin)), tens(z))
    H.eq("value", v, H.dot(c, r) + H.dot(cz, z) + k)
    v.backward()
    H.eqv("d c_r", grad(H, p.c_r), r)
    if nz:
        H.eqv("d c_zeta", grad(H, p.c_zeta), z)
    H.eq("d const", grad(H, p.c_constant), 1.)
    lam = []
    for row in d.rows:
        lam.append(H.scalar(grad(H, row[7])))
    for j in range(nr):
        H.eq(f"multipliers{j}", H.dot([q[2][j] for q in d.rows], lam), c[j],
             tol=1e-5)
    for row, l in zip(d.rows, lam):
        for j in range(nr):
            H.eq(f"d A{row[0]}{row[1]}.{j}", grad(H, row[5])[j], -l * r[j],
                 tol=1e-5)
        for j in range(nz):
            H.eq(f"d Az{row[0]}{row[1]}.{j}", grad(H, row[6])[j], -l * z[j],
                 tol=1e-5)


@case("C09", ["gurobi_torch_mip.GurobiTorchMILP."
              "compute_objective_from_mip_data"],
      params=[(1, 1), (2, 2), (1, 2)], budget=60,
      scope="one or two continuous variables and active rows; any penalty")
def milp_penalty(H, nr, na):
    """With a penalty: the documented regularised least-squares solution"""
    d = Data(H, "MILP", nr, 0, na, 0)
    p = d.p
    p.c_r = H.tensor("c_r", nr)
    p.c_zeta = torch.zeros((0, ), dtype=torch.float64)
    p.c_constant = H.tensor("const", 1)[0]
    e = H.real("penalty", lo=0.01)
    g = gram(H, d.rows, nr)
    M = [[g[i][j] + (e if i == j else 0.) for j in range(nr)]
         for i in range(nr)]
    dt = det(M)
    H.assume(H.not_(dt == 0) if H.sym else det(g) > 1e-2)
    H.cover()
    well_conditioned(H)
    v = p.compute_objective_from_mip_data(
        set(range(na)), torch.zeros((0, ), dtype=torch.float64), penalty=e)
    y = [H.dot([q[2][j] for q in d.rows], [q[4] for q in d.rows])
         for j in range(nr)]
    # Cramer's rule
    want = H.scalar(p.c_constant) * dt
    for j in range(nr):
        Mj = [[y[i] if q == j else M[i][q] for q in range(nr)]
              for i in range(nr)]
        want = want + H.scalar(p.c_r[j]) * det(Mj)
    H.eq("value", H.scalar(v) * dt, want, tol=1e-5)


MIQP = [(1, 1, 0, 0), (1, 1, 1, 0), (1, 0, 0, 1), (2, 1, 0, 0), (2, 1, 1, 0),
        (2, 1, 0, 1)]


@case("C09", ["gurobi_torch_mip.GurobiTorchMIQP."
              "compute_objective_from_mip_data"],
      params=[(s, e) for s in MIQP for e in (0, 1)], budget=100,
      scope="at most 2 continuous and 1 binary variables, at most one active "
      "row; nonsingular optimality conditions")
def miqp_value(H, size, pen):
    """At a point satisfying the optimality conditions with multipliers, the
    value is the cost there; without penalty its derivatives are those of
    the optimal cost."""
    nr, nz, nin, neq = size
    r = [H.real(f"r*{i}") for i in range(nr)]
    lam = [H.real(f"lam{i}") for i in range(nin + neq)]
    z = zvec(H, nz)
    default = pen == "default"
    e = H.real("penalty", lo=0.01) if pen == 1 else 0.
    order = [("eq", i) for i in range(neq)] + [("in", i) for i in range(nin)]
    d = Data(H, "MIQP", nr, nz, nin, neq, grad=not pen,
             rhs=lambda pre, i, a, w: H.dot(a, r) + H.dot(w, z) +
             e * lam[order.index((pre, i))])
    p = d.p
    p.Q_r = d.leaf("Q_r", H.tensor("Q_r", nr, nr))
    p.Q_zeta = d.leaf("Q_zeta", H.tensor("Q_zeta", nz, nz)) if nz else \
        torch.zeros((0, 0), dtype=torch.float64)
    p.Q_rzeta = d.leaf("Q_rzeta", H.tensor("Q_rzeta", nr, nz)) if nz else \
        torch.zeros((nr, 0), dtype=torch.float64)
    Q = H.matl(p.Q_r)
    Qz = H.matl(p.Q_zeta) if nz else []
    Qrz = H.matl(p.Q_rzeta) if nz else [[] for _ in range(nr)]
    rows = [d.row(*o) for o in order]
    c = []
    for j in range(nr):
        t = -e * r[j] - H.dot(Qrz[j], z)
        for i in range(nr):
            t = t - (Q[i][j] + Q[j][i]) * r[i]
        for q, l in zip(rows, lam):
            t = t - q[2][j] * l
        c.append(t)
    p.c_r = d.leaf("c_r", tens(c))
    p.c_zeta = d.leaf("c_zeta", H.tensor("c_zeta", nz)) if nz else \
        torch.zeros((0, ), dtype=torch.float64)
    p.c_constant = d.leaf("const", H.tensor("const", 1)[0])
    n = nr + len(rows)
    K = [[0.] * n for _ in range(n)]
    for i in range(nr):
        for j in range(nr):
            K[i][j] = Q[i][j] + Q[j][i]
        K[i][i] = K[i][i] + e
        for q, row in enumerate(rows):
            K[i][nr + q] = row[2][i]
            K[nr + q][i] = row[2][i]
    for q in range(len(rows)):
        K[nr + q][nr + q] = e
    dt = det(K)
    H.assume(H.not_(dt == 0) if H.sym else abs(dt) > 1e-1)
    H.cover()
    v = p.compute_objective_from_mip_data(
        set(range(nin)), tens(z), **({} if default else {"penalty": e}))
    want = H.dot(c, r) + H.dot(H.vecl(p.c_zeta) if nz else [], z) + \
        H.scalar(p.c_constant)
    for i in range(nr):
        want = want + r[i] * H.dot(Q[i], r) + r[i] * H.dot(Qrz[i], z)
    for i in range(nz):
        want = want + z[i] * H.dot(Qz[i], z)
    H.eq("value", v, want, tol=1e-5)
    if pen:
        return
    v.backward()
    H.eqv("d c_r", grad(H, p.c_r), r, tol=1e-5)
    for i in range(nr):
        for j in range(nr):
            H.eq(f"d Q{i}{j}", grad(H, p.Q_r)[i, j], r[i] * r[j], tol=1e-5)
        for j in range(nz):
            H.eq(f"d Qrz{i}{j}", grad(H, p.Q_rzeta)[i, j], r[i] * z[j], tol=1e-5)
    for i in range(nz):
        H.eq(f"d cz{i}", grad(H, p.c_zeta)[i], z[i])
        for j in range(nz):
            H.eq(f"d Qz{i}{j}", grad(H, p.Q_zeta)[i, j], z[i] * z[j])
    H.eq("d const", grad(H, p.c_constant), 1.)
    for row, l in zip(rows, lam):
        H.eq(f"d b{row[0]}", grad(H, row[7]), -l, tol=1e-5)
        for j in range(nr):
            H.eq(f"d A{row[0]}.{j}", grad(H, row[5])[j], l * r[j], tol=1e-5)
        for j in range(nz):
            H.eq(f"d Az{row[0]}.{j}", grad(H, row[6])[j], l * z[j], tol=1e-5)


@case("C09", ["gurobi_torch_mip.GurobiTorchMIQP."
              "compute_objective_from_mip_data"], kind="con",
      params=[(1, 1, 0, 0), (1, 1, 1, 0), (2, 1, 0, 1)],
      scope="the penalty of the signature; approximate by design, so judged "
      "on samples")
def miqp_default_penalty(H, *size):
    miqp_value(H, size, "default")


def solved(H, d, nsol, status, only=None):
    """The solver reports nsol points: any reals and near-binary values."""
    m = d.p.gurobi_model
    pts = []
    for k in range(nsol):
        x = [H.real(f"x{k}.{i}") for i in range(len(d.p.r))]
        z = [float(H.bit(f"zeta{k}.{i}")) if only in (None, k) else 0.
             for i in range(len(d.p.zeta))]
        e = [1e-7, -2e-6][k % 2]
        pts.append((H.real(f"obj{k}"), x, z))
        m._sols = getattr(m, "_sols", None) or []
        m._sols.append((pts[-1][0], x + [H.num(b + e) for b in z]))
    m.solCount = nsol
    m.status = getattr(G.Status, status)
    return pts


def in_gap(H, d, i, x, z):
    r = d.row("in", i)
    return H.dot(r[2], x) + H.dot(r[3], z) - r[4]


def check_active(H, name, d, got, x, z, tol):
    for i in range(len(d.p.rhs_in)):
        g = in_gap(H, d, i, x, z)
        if not H.sym and abs(abs(g) - tol) < 1e-9:
            continue
        near = H.and_(g < tol, -g < tol)
        H.true(f"{name}{i}", near if i in got else H.not_(near))


@case("C09", ["gurobi_torch_mip.GurobiTorchMIP."
              "get_active_constraint_indices_and_binary_val"],
      params=[(2, 1, 2, 1), (1, 2, 1, 0), (1, 1, 2, 0, "defaults"),
              (1, 3, 1, 0), (3, 0, 1, 0)],
      scope="2 solutions, at most 2 rows")
def active_indices(H, nr, nz, nin, neq, how="given"):
    d = Data(H, "MILP", nr, nz, nin, neq)
    pts = solved(H, d, 2, "OPTIMAL")
    if how == "given":
        tol = H.real("tol", lo=0.)
        k = H.choice("solution", [0, 1])
        args = (k, tol)
    else:
        k, tol, args = 0, 1e-6, ()
    H.cover()
    got, z = d.p.get_active_constraint_indices_and_binary_val(*args)
    H.eqv("binary", z, pts[k][2])
    H.true("set", isinstance(got, set) and all(
        0 <= i < nin for i in got))
    check_active(H, "active", d, {int(i) for i in got}, pts[k][1], pts[k][2],
                 tol)


@case("C09", ["gurobi_torch_mip.GurobiTorchMIP."
              "compute_objective_from_mip_data_and_solution"],
      params=[(a, b) for a in ("OPTIMAL", "INTERRUPTED", "TIME_LIMIT")
              for b in (0, 1)] + [("OPTIMAL", 0, "defaults"),
                                   ("OPTIMAL", 0, "given", 3)], budget=250,
      scope="2 solutions, one row, at most 10 trials (all of them); the cost "
      "of an active set by contract")
def from_solution(H, status, k, how="given", nz=1):
    d = Data(H, "MILP", 1, nz, 1, 0)
    pts = solved(H, d, 2, status, only=k)
    given = how == "given"
    # The tolerances of a caller who names none are those of the signature.
    pen, otol = (H.real("penalty"), H.real("otol", lo=0.)) if given else \
        (0., 1e-3)
    H.cover()
    calls = []
    target, x, z = pts[k]

    def cost(act, zeta, penalty=0.):
        n = len(calls)
        v = torch.tensor(H.real(f"cost{n}"), dtype=torch.float64)
        if not H.sym and H.bit(f"close{n}"):
            v = torch.tensor(target + 0.5 * otol, dtype=torch.float64)
        calls.append(({int(i) for i in act}, zeta, penalty, v))
        return v

    d.p.compute_objective_from_mip_data = cost
    tol = H.real("tol", lo=1e-3) if given else 1e-6
    try:
        ret = d.p.compute_objective_from_mip_data_and_solution(
            *((k, tol, pen, otol) if given else ()))
    except gtm.IncorrectActiveConstraint:
        ret = None
    H.true("calls", 1 <= len(calls) <= 10)
    check_active(H, "first", d, calls[0][0], x, z, tol)
    for n, (act, zeta, p, v) in enumerate(calls):
        H.eqv(f"zeta{n}", zeta, z)
        H.eq(f"penalty{n}", p, pen)
        if n:
            H.true(f"larger{n}", calls[n - 1][0] <= act)
            check_active(H, f"trial{n}.", d, act, x, z, tol * 2**n)
        if not H.sym and abs(abs(float(v) - target) - otol) < 1e-9:
            return
        near = H.and_(H.scalar(v) - target <= otol,
                      target - H.scalar(v) <= otol)
        if ret is not None and n == len(calls) - 1:
            H.true("returned matches the solver", near)
            H.eq("returned", ret, v)
        else:
            H.true(f"rejected{n}", H.not_(near))
    if ret is None:
        H.true("gives up after ten trials", len(calls) == 10)


@case("C09", ["gurobi_torch_mip.GurobiTorchMIP."
              "compute_objective_from_mip_data_and_solution"],
      params=["relaxed", "status", "solution"], scope="one row")
def from_solution_rejects(H, why):
    d = Data(H, "MILP", 1, 1, 1, 0)
    solved(H, d, 2, "UNBOUNDED" if why == "status" else "OPTIMAL")
    if why == "relaxed":
        d.p.zeta[0].vtype = "C"
    H.cover()
    n = 2 if why == "solution" else 0
    d.p.c_r, d.p.c_zeta, d.p.c_constant = (
        torch.ones(1, dtype=torch.float64), ) * 2 + (
            torch.tensor(0., dtype=torch.float64), )
    H.raises(why, lambda:
             d.p.compute_objective_from_mip_data_and_solution(n))
