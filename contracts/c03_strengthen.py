"""Contracts of the strengthening cuts."""
import itertools
import torch
import gurobipy
from engine.cases import case
from contracts.nets import Net, flat
from contracts.c01_network import havoc_bounds, tens
import neural_network_lyapunov.relu_to_optimization as rto
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.mip_utils as mip_utils


def slope(H):
    c = H.real("c", lo=0., up=1.)
    H.assume(c < 1.)
    return c


def subsets(n):
    return [set(s) for r in range(n + 1)
            for s in itertools.combinations(range(n), r)]


def unit(H, n, box_only=False):
    c = slope(H)
    w = H.tensor("w", n)
    b = H.real("b")
    lo, up = H.interval("x", n)
    x = H.between("x", lo, up)
    pre = H.dot(w, x) + b
    return c, w, b, torch.tensor(b, dtype=torch.float64), lo, up, x, pre


def bars(H, w, lo, up):
    """(L bar, U bar) of the documentation"""
    w, lo, up = H.vecl(w), H.vecl(lo), H.vecl(up)
    return ([H.ite(a >= 0, l, u) for a, l, u in zip(w, lo, up)],
            [H.ite(a >= 0, u, l) for a, l, u in zip(w, lo, up)])


def cut(H, c, w, b, lo, up, I, x, beta):
    """right-hand side of the documented cut of the index set I"""
    Lb, Ub = bars(H, w, lo, up)
    w, x = H.vecl(w), H.vecl(x)
    r = b * c + b * (1 - c) * beta
    for i in range(len(w)):
        if i in I:
            r = r + w[i] * x[i] - (1 - c) * (1 - beta) * w[i] * Lb[i]
        else:
            r = r + c * w[i] * x[i] + (1 - c) * beta * w[i] * Ub[i]
    return r


@case("C03", ["mip_utils.strengthen_relu_mip_w_indices"], params=[1, 2, 3],
      scope="1 to 3 inputs", budget=120)
def cut_w_indices(H, n):
    c, w, b, bt, lo, up, x, pre = unit(H, n)
    I = H.choice("I", subsets(n))
    H.cover()
    xc, bc, k = mip_utils.strengthen_relu_mip_w_indices(c, w, bt, lo, up,
                                                        set(I))
    y = H.leaky(pre, c)
    X = H.dot(xc, x)
    bc, k = H.scalar(bc), H.scalar(k)
    beta = H.real("beta", lo=0., up=1.)
    H.eq("is the documented cut", X + bc * beta + k,
         cut(H, c, w, b, lo, up, I, x, beta))
    # valid at every true point
    if H.holds(pre >= 0):
        H.le("valid (active)", y, X + bc + k)
    if H.holds(pre <= 0):
        H.le("valid (inactive)", y, X + k)


@case("C03", ["mip_utils.find_index_set_to_strengthen"], params=[1, 2],
      thorough=[3], scope="1 or 2 inputs (thorough: 3)", budget=120)
def best_index_set(H, n):
    c, w, b, bt, lo, up, x, pre = unit(H, n)
    beta = H.real("beta", lo=0., up=1.)
    H.cover()
    I = mip_utils.find_index_set_to_strengthen(
        w, lo, up, x, torch.tensor(beta, dtype=torch.float64))
    H.true("indices", isinstance(I, set) and I <= set(range(n)))
    Lb, Ub = bars(H, w, lo, up)
    ws, xs = H.vecl(w), H.vecl(x)
    # the cut is a sum over the inputs; the choice for each input must be
    # the smaller term
    for i in range(n):
        tin = ws[i] * xs[i] - (1 - c) * (1 - beta) * ws[i] * Lb[i]
        tout = c * ws[i] * xs[i] + (1 - c) * beta * ws[i] * Ub[i]
        if i in I:
            H.le(f"in{i}", tin, tout)
        else:
            H.le(f"out{i}", tout, tin)


def stub_cut(H, log, points):
    """strengthen_relu_mip_w_indices by its contract: some coefficients such
    that the inequality holds at the ghost point.
    points(w) -> (x, y, beta)"""
    if not H.sym:
        return

    def f(c, w, b, lo, up, I):
        n = int(w.shape[0])
        k = len(log)
        xc = H.tensor(f"cut{k}.x", n)
        bc = H.real(f"cut{k}.b")
        kk = H.real(f"cut{k}.k")
        x, y, beta, blo, bup = points(w)
        H.lev("callee.cut.lo", lo, x)
        H.lev("callee.cut.up", x, up)
        H.assume(y <= H.dot(xc, x) + bc * beta + kk)
        log.append((xc, bc, kk, w, b, I, c))
        return (xc, torch.tensor(bc, dtype=torch.float64),
                torch.tensor(kk, dtype=torch.float64))

    H.contract(mip_utils, "strengthen_relu_mip_w_indices", f)


def any_index_set(H):
    if not H.sym:
        return
    k = [0]

    def f(w, lo, up, xhat, beta):
        n = int(w.shape[0])
        k[0] += 1
        return H.choice(f"I{k[0]}", subsets(n)[:2])

    H.contract(mip_utils, "find_index_set_to_strengthen", f)


@case("C03", ["mip_utils.strengthen_relu_mip_given_pts"],
      params=[(1, 2), (2, 1), (2, 2), (1, 3)],
      scope="1 or 2 inputs, 1 to 3 points",
      budget=100)
def given_pts(H, n, m):
    c, w, b, bt, lo, up, x, pre = unit(H, n)
    y = H.leaky(pre, c)
    act = H.bit("act")
    H.assume(pre >= 0 if act else pre <= 0)
    P = [H.tensor(f"xh{i}", n) for i in range(m)]
    Y = [H.tensor(f"yh{i}", 1)[0] for i in range(m)]
    B = [H.tensor(f"bh{i}", 1, lo=0., up=1.)[0] for i in range(m)]
    log = []
    if H.sym:
        stub_cut(H, log, lambda w_: (x, y, act, lo, up))
        any_index_set(H)
    H.cover()
    X, bc, k = mip_utils.strengthen_relu_mip_given_pts(c, w, bt, lo, up, P,
                                                       Y, B)
    if H.sym:
        cuts = [(H.vecl(t[0]), t[1], t[2]) for t in log]
        H.true("one cut per point", len(cuts) == m)
    else:
        cuts = []
        for i in range(m):
            t = mip_utils.strengthen_relu_mip_w_indices(
                c, w, bt, lo, up, mip_utils.find_index_set_to_strengthen(
                    w, lo, up, P[i], B[i]))
            cuts.append((H.vecl(t[0]), H.scalar(t[1]), H.scalar(t[2])))
    want = []
    for i, (xc, b1, k1) in enumerate(cuts):
        gap = H.scalar(Y[i]) - H.dot(xc, P[i]) - b1 * H.scalar(B[i]) - k1
        if not H.sym and abs(gap) < 1e-9:
            return
        if H.holds(gap > 0):
            want.append((xc, b1, k1))
    if not want:
        H.true("none", X is None and bc is None and k is None)
        return
    H.true("count", X is not None and tuple(X.shape) == (len(want), n) and
           tuple(bc.shape) == (len(want), ) and
           tuple(k.shape) == (len(want), ))
    for i, (xc, b1, k1) in enumerate(want):
        H.eqv(f"x{i}", X[i], xc)
        H.eq(f"b{i}", H.el1(bc, i), b1)
        H.eq(f"k{i}", H.el1(k, i), k1)
        H.le(f"valid{i}", y, H.dot(X[i], x) + H.el1(bc, i) * act +
             H.el1(k, i))


@case("C03", ["mip_utils._get_linear_input_vertices"], params=[1, 2],
      scope="1 or 2 inputs", budget=100)
def vertices(H, n):
    w = H.tensor("w", n)
    b = H.real("b")
    lo, up = H.interval("x", n)
    Lb, Ub = bars(H, w, lo, up)
    a, z = H.dot(w, Lb) + b, H.dot(w, Ub) + b
    rlo = H.real("rlo")
    rup = H.real("rup")
    if not H.sym:
        # the same rounding as the range the code compares with
        a, z = [t.item() for t in mip_utils.compute_range_by_IA(
            w.reshape((1, -1)), torch.tensor([b], dtype=torch.float64),
            lo, up)]
        t = sorted(H.real(f"t{i}", lo=0., up=1.) for i in range(2))
        kind = H.choice("kind", [0, 1, 2])
        rlo = a if kind == 0 else a + t[0] * (z - a)
        rup = z if kind == 0 else a + t[1] * (z - a)
    H.assume(rlo >= a)
    H.assume(rup <= z)
    bt, tl, tu = [torch.tensor(v, dtype=torch.float64)
                  for v in (b, rlo, rup)]
    if H.sym:
        H.contract(mip_utils, "compute_range_by_IA",
                   lambda *k: (tens([a]), tens([z])))
    H.cover()
    vs = mip_utils._get_linear_input_vertices(lo, up, w, bt, tl, tu)
    ls, us = H.vecl(lo), H.vecl(up)
    want = []
    for v in itertools.product(*zip(ls, us)):
        p = H.dot(w, list(v)) + b
        if not H.sym and min(abs(p - rlo), abs(p - rup)) < 1e-9:
            return
        if H.sym:
            # a box vertex lies between the two extremes
            for i in range(n):
                pass
        if H.holds(H.and_(rlo <= p, p <= rup)):
            want.append(list(v))
    if H.sym and len(vs) == 2**n and len(want) < 2**n:
        # the shortcut for the full range: needs  a <= w v + b <= z
        for v in itertools.product(*zip(ls, us)):
            for i in range(n):
                wi = H.vecl(w)[i]
                H.le("term.lo", wi * Lb[i], wi * v[i])
                H.le("term.up", wi * v[i], wi * Ub[i])
        H.true("full range", False)
        return
    H.true("count", len(vs) == len(want))
    for i, (v, u) in enumerate(zip(vs, want)):
        H.eqv(f"v{i}", v, u)


@case("C03", ["mip_utils._compute_beta_range"], params=[(1, 1), (1, 2),
                                                        (2, 3)],
      scope="1 or 2 inputs, at most 3 cuts", budget=100)
def beta_range(H, n, m):
    c = slope(H)
    w = H.tensor("w", n)
    b = H.real("b")
    x = H.tensor("x", n)
    X = [H.tensor(f"X{i}", n) for i in range(m)]
    B = [H.tensor(f"B{i}", 1)[0] for i in range(m)]
    K = [H.tensor(f"K{i}", 1)[0] for i in range(m)]
    beta = H.real("beta")
    H.cover()
    lo, up = mip_utils._compute_beta_range(
        c, w, torch.tensor(b, dtype=torch.float64), X, B, K, x)
    lo, up = H.scalar(lo), H.scalar(up)
    pre = H.dot(w, x) + b
    y = H.leaky(pre, c)
    gaps = [H.dot(X[i], x) + H.scalar(B[i]) * beta + H.scalar(K[i]) - y
            for i in range(m)]
    if not H.sym and min([abs(g) for g in gaps] + [
            abs(beta - lo), abs(beta - up), 1]) < 1e-6:
        return
    bs = [H.scalar(t) for t in B]
    inside = H.and_(beta >= 0, beta <= 1,
                    *[H.or_(g >= 0, bb == 0) for g, bb in zip(gaps, bs)])
    if H.holds(inside):
        H.le("beta >= lo", lo, beta)
        H.le("beta <= up", beta, up)
    else:
        H.true("outside", H.or_(beta < lo, beta > up))


@case("C03", ["mip_utils._max_y_given_linear_input"], params=[1, 2, 3],
      scope="1 input, at most 3 cuts")
def max_y(H, m):
    n = 1
    c = slope(H)
    w = H.tensor("w", n)
    b = H.real("b")
    x = H.tensor("x", n)
    X = [H.tensor(f"X{i}", n) for i in range(m)]
    B = [H.tensor(f"B{i}", 1)[0] for i in range(m)]
    K = [H.tensor(f"K{i}", 1)[0] for i in range(m)]
    pre = H.dot(w, x) + b
    y0 = H.leaky(pre, c)
    beta = H.real("beta", lo=0., up=1.)
    y = H.real("y")
    if not H.sym:
        y = y0 + abs(y)
    H.assume(y >= y0)

    def rhs(i, t):
        return H.dot(X[i], x) + H.scalar(B[i]) * t + H.scalar(K[i])

    for i in range(m):
        if not H.sym and y > rhs(i, beta):
            K[i] = K[i] + (y - rhs(i, beta)) * 1.01
        H.assume(y <= rhs(i, beta))
    H.cover()
    H.solver(lambda mm: dict(zip(mm.getVars(), [y, beta])),
             statuses=["OPTIMAL"], solution=True)
    ym, bv = mip_utils._max_y_given_linear_input(
        c, w, torch.tensor(b, dtype=torch.float64), X, B, K, x)
    ym, bv = H.scalar(ym), H.scalar(bv)
    tol = 0. if H.sym else 1e-6
    H.le("no larger y", y, ym + tol)
    H.le("y >= relu", y0, ym + tol)
    H.true("beta in [0,1]", H.and_(bv >= -tol, bv <= 1 + tol))
    for i in range(m):
        H.le(f"cut{i}", ym, rhs(i, bv) + tol)


@case("C03", ["mip_utils.strengthen_relu_mip"],
      params=[(1, False), (2, False), (3, False), (1, True)],
      thorough=[(2, True)], scope="at most 3 inputs (selective: 1; thorough: "
      "2)", budget=120)
def strengthen_all(H, n, selective):
    c, w, b, bt, lo, up, x, pre = unit(H, n)
    y = H.leaky(pre, c)
    act = H.bit("act")
    H.assume(pre >= 0 if act else pre <= 0)
    Lb, Ub = bars(H, w, lo, up)
    a, z = H.dot(w, Lb) + b, H.dot(w, Ub) + b
    H.assume(a < 0)
    H.assume(z > 0)
    log = []
    if H.sym:
        stub_cut(H, log, lambda w_: (x, y, act, lo, up))
        any_index_set(H)
        H.contract(mip_utils, "_get_linear_input_vertices",
                   lambda lo_, up_, *k: [lo_, up_][:1 + (n > 1)])
    H.cover()
    X, bc, k = mip_utils.strengthen_relu_mip(
        c, w, bt, lo, up, torch.tensor(a, dtype=torch.float64),
        torch.tensor(z, dtype=torch.float64), selective)
    r = int(X.shape[0])
    H.true("shapes", tuple(X.shape) == (r, n) and tuple(bc.shape) == (r, )
           and tuple(k.shape) == (r, ))
    for i in range(r):
        H.le(f"valid{i}", y, H.dot(X[i], x) + H.el1(bc, i) * act +
             H.el1(k, i) + (0. if H.sym else 1e-7))
    if not selective:
        H.true("all proper subsets", r == max(2**n - 2, 0))
        if H.sym:
            H.true("each once", sorted(sorted(t[5]) for t in log) == sorted(
                sorted(s) for s in subsets(n) if 0 < len(s) < n))


@case("C03", ["relu_to_optimization.ReLUFreePattern."
              "strengthen_mip_at_point"],
      params=[("relu", (2, 2, 1), True), ("leaky", (1, 1, 2, 1), False),
              ("leaky", (1, 2, 1, 1), True),
              ("relu, leaky", (1, 1, 1, 1, 1), "rest"),
              ("leaky, relu", (1, 1, 2, 1, 1), "first")],
      scope="the listed layer widths; all weights and inputs", budget=150)
def at_point(H, act, widths, bias):
    net = Net(H, "net", list(widths), act, bias)
    L = net.units()
    N = widths[0] + L
    xlo, xup = H.interval("x", widths[0])
    x = H.between("x", xlo, xup)
    pre, post, _ = net.trace(x)
    zlo, zup = havoc_bounds(H, "z", flat(post))
    betas = []
    for i, p in enumerate(flat(pre)):
        if H.sym:
            t = H.real(f"beta{i}")
            H.assume(H.or_(H.and_(t == 1, p >= 0), H.and_(t == 0, p <= 0)))
        else:
            t = 1. if p >= 0 else 0.
        betas.append(t)
    pt_lin = H.tensor("pt.lin", N)
    pt_act = H.tensor("pt.act", L, lo=0., up=1.)
    log = []
    ins = [H.vecl(x)] + post
    fl, fb = flat(post), betas
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    units = [(i, j) for i in range(len(pre)) for j in range(len(pre[i]))]
    if H.sym:

        def ghost(w):
            for k, (i, j) in enumerate(units):
                v = H.vecl(w)
                if len(v) == len(net.W[i][j]) and all(
                        (a - b_).is_const() and (a - b_).const() == 0
                        for a, b_ in zip(v, net.W[i][j])):
                    return (ins[i], fl[k], fb[k], None, None)
            raise AssertionError("weights of no unit")

        stub_cut(H, log, ghost)
        any_index_set(H)
    H.cover()
    llo = torch.cat((xlo, tens(zlo)))
    lup = torch.cat((xup, tens(zup)))
    r = fp.strengthen_mip_at_point((pt_lin, pt_act), llo, lup)
    Ax, As, Ab, rhs = r
    n = 0 if Ax is None else int(Ax.shape[0])
    if Ax is None:
        H.true("all none", As is None and Ab is None and rhs is None)
    else:
        H.true("shapes", tuple(Ax.shape) == (n, widths[0]) and
               tuple(As.shape) == (n, L) and tuple(Ab.shape) == (n, L) and
               tuple(rhs.shape) == (n, ))
    tol = 0. if H.sym else 1e-7
    pl, pa = H.vecl(pt_lin), H.vecl(pt_act)
    for i in range(n):
        H.le(f"valid{i}", H.dot(Ax[i], x) + H.dot(As[i], fl) +
             H.dot(Ab[i], fb), H.el1(rhs, i) + tol)
        H.lt(f"cuts the point{i}", H.el1(rhs, i),
             H.dot(Ax[i], pl[:widths[0]]) + H.dot(As[i], pl[widths[0]:]) +
             H.dot(Ab[i], pa))
    if H.sym:
        # every unit was examined and each violated cut is there
        H.true("every unit", len(log) == L)
        k = 0
        for q, (i, j) in enumerate(units):
            xc, bc, kk = log[q][:3]
            off = 0 if i == 0 else widths[0] + sum(widths[1:i])
            gap = pl[widths[0] + q] - H.dot(
                xc, pl[off:off + widths[i]]) - bc * pa[q] - kk
            if H.holds(gap > 1e-12):
                k += 1
        H.true("each violated cut", k == n)


@case("C03", ["relu_to_optimization.ReLUFreePattern."
              "strengthen_relu_mip_at_solution"],
      params=[("leaky", (1, 1, 1), True), ("relu", (1, 1, 1, 1), False),
              ("leaky, relu", (1, 1, 1, 1, 1), "first"),
              ("relu", (3, 1, 1), True)],
      scope="the listed layer widths; all weights and inputs", budget=150)
def at_solution(H, act, widths, bias):
    net = Net(H, "net", list(widths), act, bias)
    xlo, xup = H.interval("x", widths[0])
    x = H.between("x", xlo, xup)
    pre, post, _ = net.trace(x)
    plo, pup = havoc_bounds(H, "p", flat(pre))
    zlo, zup = havoc_bounds(H, "z", flat(post))
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    L = net.units()
    prog = gtm.GurobiTorchMILP(torch.float64)
    xv = prog.addVars(widths[0], lb=-gurobipy.GRB.INFINITY)
    sv = prog.addVars(L, lb=-gurobipy.GRB.INFINITY)
    bv = prog.addVars(L, lb=0., ub=1.)
    H.solver(None, statuses=["OPTIMAL"])
    if H.sym:
        prog.gurobi_model.optimize()
        sol = prog.gurobi_model._sols[0][1]
    else:
        vals = [H.real(f"sol{i}") for i in range(widths[0] + 2 * L)]
        vals[widths[0] + L:] = [abs(v) % 1. for v in vals[widths[0] + L:]]
        prog.gurobi_model._sols = [(0., vals)]
    seen = []
    if H.sym:

        def f(pt, lo, up):
            seen.append((pt, lo, up))
            k = 2
            r = [H.tensor("rx", k, widths[0]), H.tensor("rs", k, L),
                 H.tensor("rb", k, L), H.tensor("rr", k)]
            seen.append(r)
            return tuple(r)

        H.contract(fp, "strengthen_mip_at_point", f)
    ret = rto.ReLUMixedIntegerConstraintsReturn()
    ret.nn_input_lo, ret.nn_input_up = xlo, xup
    ret.relu_output_lo, ret.relu_output_up = tens(zlo), tens(zup)
    ret.relu_input_lo, ret.relu_input_up = tens(plo), tens(pup)
    H.cover()
    n0 = len(prog.gurobi_model.getConstrs())
    fp.strengthen_relu_mip_at_solution(prog, xv, sv, bv, ret)
    new = prog.gurobi_model.getConstrs()[n0:]
    allv = xv + sv + bv
    if H.sym:
        (pt, lo, up), r = seen
        H.eqv("callee.inputs", pt[0], sol[:widths[0] + L])
        H.eqv("callee.activations", pt[1], sol[widths[0] + L:])
        H.eqv("callee.lo", lo, H.vecl(xlo) + list(zlo))
        H.eqv("callee.up", up, H.vecl(xup) + list(zup))
        H.true("rows", len(new) == 2)
        for i, cc in enumerate(new):
            H.true(f"sense{i}", cc.Sense == "<")
            H.eq(f"rhs{i}", cc.RHS, H.el1(r[3], i))
            want = [H.el(r[0], i, j) for j in range(widths[0])] + [
                H.el(M, i, j) for M in r[1:3] for j in range(L)]
            for v, k in zip(allv, want):
                H.eq(f"coef{i}", cc.coef.c.get(v, 0.), k)
    else:
        vals = H.vecl(x) + flat(post) + [1. if p >= 0 else 0.
                                         for p in flat(pre)]
        val = dict(zip(allv, vals))
        for i, cc in enumerate(new):
            H.le(f"valid{i}", sum(k * val[v] for v, k in cc.coef.c.items()),
                 cc.RHS + 1e-7)
