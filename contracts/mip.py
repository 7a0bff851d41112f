"""Specification helpers for programs that are recorded twice."""
import torch
import gurobipy
import neural_network_lyapunov.gurobi_torch_mip as gtm

INF = float("inf")


def ids(*lists):
    """Variables compared by identity: == on variables builds constraints."""
    return [id(v) for q in lists for v in q]


def program(H, kind, nr, nz, nin, neq, zfirst=False, relaxed=False,
            lists=True):
    """An arbitrary program of the given sizes that satisfies the
    representation invariant: (prog, values of r, values of zeta).

    Built field by field, not by the functions under contract."""
    cls = {"MIP": gtm.GurobiTorchMIP, "MILP": gtm.GurobiTorchMILP,
           "MIQP": gtm.GurobiTorchMIQP}[kind]
    p = cls(torch.float64)
    m = p.gurobi_model

    def mk_r():
        for i in range(nr):
            v = m.addVar(lb=-gurobipy.GRB.INFINITY, name=f"r{i}")
            p.r_indices[v] = len(p.r)
            p.r.append(v)

    def mk_z():
        for i in range(nz):
            v = m.addVar(lb=0., ub=1., vtype="C", name=f"z{i}") if relaxed \
                else m.addVar(vtype="B", name=f"z{i}")
            p.zeta_indices[v] = len(p.zeta)
            p.zeta.append(v)

    (mk_z(), mk_r()) if zfirst else (mk_r(), mk_z())
    for pre, n, sense in (("in", nin, "<"), ("eq", neq, "=")):
        for i in range(n):
            e = gurobipy.LinExpr()
            for w, k, vs in (("r", nr, p.r), ("zeta", nz, p.zeta)):
                t = H.tensor(f"{pre}.{w}{i}", k) if k else []
                for j in range(k):
                    getattr(p, f"A{pre}_{w}_row").append(i)
                    getattr(p, f"A{pre}_{w}_col").append(j)
                    getattr(p, f"A{pre}_{w}_val").append(t[j])
                    e = e + gurobipy.LinExpr(t[j].item(), vs[j])
            b = H.tensor(f"rhs_{pre}{i}", 1)[0]
            getattr(p, f"rhs_{pre}").append(b)
            m.addLConstr(e, sense=sense, rhs=b)
    m.update()
    return p


def gaps(H, co, rhs, val):
    """coefficients . values - rhs"""
    g = -H.scalar(rhs)
    for v, k in co.items():
        g = g + H.scalar(k) * val[v]
    return g


def model_rows(H, prog, val, bounds=True):
    """[(sense, gap)] of the program of the solver, at the values; with the
    bounds of the continuous variables of the record."""
    m = prog.gurobi_model
    out = []
    for c in m.getConstrs():
        out.append((c.Sense, gaps(H, c.coef.c, c.RHS, val)))
    if bounds:
        for v in prog.r:
            lo, up = v.lb, v.ub
            if not H.isinf(lo) and not H.isinf(up) and H.holds(
                    H.scalar(lo) == H.scalar(up)):
                out.append(("=", val[v] - H.scalar(lo)))
                continue
            if not H.no_lower(lo):
                out.append((">", H.num(-1.) if H.isinf(lo)
                            else val[v] - H.scalar(lo)))
            if not H.no_upper(up):
                out.append(("<", H.num(1.) if H.isinf(up)
                            else val[v] - H.scalar(up)))
    return out


def recorded_rows(H, prog, val):
    """[(sense, gap)] of the tensors of the record, at the values."""
    Ar, Az, rhs = prog.get_inequality_constraints()
    out = []
    r = [val[v] for v in prog.r]
    z = [val[v] for v in prog.zeta]
    n = len(prog.rhs_in)
    H.true("record.shapes", tuple(Ar.shape) == (n, len(r)) and
           tuple(Az.shape) == (n, len(z)) and tuple(rhs.shape) == (n, ))
    b = H.vecl(rhs)
    for i in range(n):
        g = -b[i]
        for j in range(len(r)):
            g = g + H.el(Ar, i, j) * r[j]
        for j in range(len(z)):
            g = g + H.el(Az, i, j) * z[j]
        out.append(("<", g))
    zs = torch.stack([torch.tensor(t, dtype=torch.float64) for t in z]) \
        if z else torch.zeros((0, ), dtype=torch.float64)
    A, bb = prog.get_active_constraints(set(), zs)
    bb = H.vecl(bb)
    H.true("record.eq-shapes", tuple(A.shape) == (len(prog.rhs_eq), len(r))
           and len(bb) == len(prog.rhs_eq))
    for i in range(len(bb)):
        g = -bb[i]
        for j in range(len(r)):
            g = g + H.el(A, i, j) * r[j]
        out.append(("=", g))
    return out


def zero(H, d):
    if not H.sym:
        return abs(d) <= 1e-7
    return d.sp is None and d.is_const() and d.const() == 0


def same_rows(H, name, got, want, extra=False):
    """Both lists state the same (in)equalities, each as often (with extra:
    got may also have ones that hold anyway)."""
    norm = [("<", -g) if s == ">" else (s, g) for s, g in got]
    left = [("<", -g) if s == ">" else (s, g) for s, g in want]
    if not extra:
        H.true(name + ".number", len(norm) == len(left))
    for i, (s, g) in enumerate(norm):
        hit = None
        for k, (t, w) in enumerate(left):
            if s == t and (zero(H, g - w) or (s == "=" and
                                              zero(H, g + w))):
                hit = k
                break
        if hit is None and extra:
            H.true(f"{name}.row{i} holds",
                   g <= (1e-7 if not H.sym else 0.) if s == "<" else
                   H.absv(g) <= (1e-7 if not H.sym else 0.))
        elif hit is None:
            c = [(t, w) for t, w in left if s == t]
            H.true(f"{name}.row{i}", H.or_(*[g == w for _, w in c])
                   if H.sym and c else False)
        else:
            H.true(f"{name}.row{i}", True)
            left.pop(hit)
    if extra:
        H.true(name + ".all", left == [])


def rest(H, name, prog, val, want):
    """The program at the values: a system over its other variables, without
    the wanted rows, each of which has to be there."""
    m = prog.gurobi_model
    cs = m.getConstrs()
    sys = H.model_system(m, val)
    left = list(want)
    keep = []
    for c, row in zip(cs, sys.rows):
        hit = None
        if not row[0]:
            g, s = gaps(H, c.coef.c, c.RHS, val), c.Sense
            s, g = ("<", -g) if s == ">" else (s, g)
            for k, (t, w) in enumerate(left):
                if s == t and (zero(H, g - w) or (s == "=" and
                                                  zero(H, g + w))):
                    hit = k
                    break
        if hit is None:
            keep.append(row)
        else:
            left.pop(hit)
    H.true(name + ".wanted rows", left == [])
    sys.rows = keep + list(sys.rows[len(cs):])
    return sys


def ghosts(H, prog):
    """Arbitrary values for every variable."""
    return {v: (H.fresh("v") if H.sym else H.real(f"v{v.index}"))
            for v in prog.gurobi_model.getVars()}


def invariant(H, name, prog):
    """The record and the program of the solver describe the same set."""
    val = ghosts(H, prog)
    H.true(name + ".r index", all(prog.r[i] is v for v, i in
                                  prog.r_indices.items())
           and len(prog.r) == len(prog.r_indices))
    H.true(name + ".zeta index", all(prog.zeta[i] is v for v, i in
                                     prog.zeta_indices.items())
           and len(prog.zeta) == len(prog.zeta_indices))
    got = sorted(v.index for v in prog.r + prog.zeta)
    H.true(name + ".every variable once", got == sorted(
        v.index for v in prog.gurobi_model.getVars()))
    rec = recorded_rows(H, prog, val)
    same_rows(H, name, rec, model_rows(H, prog, val))
    return val, rec


def objective_at(H, prog, val):
    m = prog.gurobi_model
    o = H.num(0.) + H.scalar(m._obj.const)
    for v, k in m._obj.c.items():
        o = o + H.scalar(k) * val[v]
    if m._quad:
        for (a, b), k in m._quad.items():
            o = o + H.scalar(k) * val[a] * val[b]
    return o


def kind_argument(btype):
    """Binary unknowns are the default; relaxed ones are asked for."""
    return {} if btype == "B" else dict(binary_var_type=gtm.BINARYRELAX)
