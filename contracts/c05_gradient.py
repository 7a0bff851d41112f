"""Contracts of the encoding of (network gradient) times (vector)."""
import itertools
import torch
import gurobipy
from engine.cases import case, System
from contracts.nets import Net, flat, restrict
from contracts.c01_network import tens
import neural_network_lyapunov.relu_to_optimization as rto


def pattern(H, net, first=""):
    """A choice of activations, [layer][unit]; those of the first units
    given by an instance (all of them are instances)"""
    first = list(first)
    return [[float(first.pop(0)) if first else float(H.bit(f"beta{i}.{j}"))
             for j in range(w)] for i, w in enumerate(net.widths[1:-1])]


def parts(nets, n):
    """An instance per choice of the activations of the first n units, for
    networks of more than two units."""
    return [(*net, "".join(p)) for net in nets for p in itertools.product(
        "01", repeat=n if sum(net[1][1:-1]) > 2 else 0)]


def products(H, net, beta, y):
    """z[0..n-1], Wz[0..n-1] for the activations and the vector"""
    z, Wz = [H.vecl(y)], []
    for i in range(len(net.W)):
        w = [H.dot(r, z[i]) for r in net.W[i]]
        Wz.append(w)
        if i < len(net.W) - 1:
            z.append([(net.c[i] + (1 - net.c[i]) * b) * v
                      for b, v in zip(beta[i], w)])
    return z, Wz


def havoc_layers(H, name, vals):
    """Bounds of each layer that contain the values; otherwise arbitrary."""
    lo, up = [], []
    for i, l in enumerate(vals):
        a, b = [], []
        for j, v in enumerate(l):
            p, q = H.real(f"{name}{i}.{j}.lo"), H.real(f"{name}{i}.{j}.up")
            if not H.sym:
                p, q = v - abs(p), v + abs(q)
            H.assume(p <= v)
            H.assume(v <= q)
            a.append(p)
            b.append(q)
        lo.append(tens(a))
        up.append(tens(b))
    return lo, up


def exact(H, ret, net, beta, y, z, out):
    s = H.cnstr_system(ret, y)
    L = net.units()
    fb = flat(beta)
    zs = flat(z[1:])
    H.true("one slack and one binary per unit", s.ns == L and s.nz == L)
    outs = [H.out_expr(ret, y, s, i) for i in range(len(out))]
    H.true("outputs", tuple(ret.Aout_slack.shape) == (len(out), L))
    H.exists("feasible", s, zs + fb,
             [(co, k, o) for (co, k), o in zip(outs, out)])
    given = {L + i: b for i, b in enumerate(fb)}
    if not H.sym:
        for i, v in enumerate(zs):
            H.entail(f"slack{i}", s, {i: 1.}, 0., v, given=given)
    else:
        g = {i: H.num(b) for i, b in given.items()}
        for i, v in enumerate(zs):
            H.entail(f"slack{i}", restrict(H, s, g, [i]), {0: 1.}, 0., v)
            g[i] = v
        for i, ((co, k), o) in enumerate(zip(outs, out)):
            H.eq(f"out{i}", H.expr_at(co, H.scalar(k), g), o)


NETS = [("relu", (2, 2, 1), True), ("leaky", (2, 2, 2), False),
        ("relu", (1, 1, 2, 1), True), ("leaky", (1, 2, 1, 2), True),
        ("leaky, relu", (1, 1, 1, 1, 1), "rest"),
        ("steep", (1, 1, 1, 1), False)]
THOROUGH = [("leaky", (2, 3, 1), True), ("relu", (2, 2, 2, 1), False)]


@case("C05", ["relu_to_optimization.ReLUFreePattern."
              "output_gradient_times_vector_w_bounds"],
      params=parts(NETS, 2) + parts([("relu", (1, 3, 1), True)], 2),
      thorough=parts(THOROUGH, 2), budget=170,
      scope="the listed layer widths; all weights, vectors and bounds")
def w_bounds(H, act, widths, bias, first):
    net = Net(H, "net", list(widths), act, bias)
    beta = pattern(H, net, first)
    y = H.tensor("y", widths[0])
    z, Wz = products(H, net, beta, y)
    zlo, zup = havoc_layers(H, "z", z)
    Wlo, Wup = havoc_layers(H, "W", Wz)
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    H.cover()
    ret = fp.output_gradient_times_vector_w_bounds(zlo, zup, Wlo, Wup)
    exact(H, ret, net, beta, y, z, Wz[-1])
    # ... which is the gradient of the pattern times the vector
    G = net.pattern_gradient(beta)
    for i, v in enumerate(Wz[-1]):
        H.eq(f"gradient{i}", H.dot(G[i], y), v)
    for nm, a, b in (("z_lo", ret.z_lo, zlo), ("z_up", ret.z_up, zup),
                     ("Wz_lo", ret.Wz_lo, Wlo), ("Wz_up", ret.Wz_up, Wup)):
        H.true(nm + ".layers", len(a) == len(b))
        for i in range(len(b)):
            H.eqv(f"{nm}{i}", a[i], b[i])


@case("C05", ["relu_to_optimization.ReLUFreePattern."
              "output_gradient_times_vector"],
      params=parts([("relu", (2, 2, 1), True),
                    ("leaky", (1, 1, 2, 1), False),
                    ("relu, leaky", (1, 1, 1, 1), "first"),
                    ("leaky, relu", (1, 1, 1, 1), "rest"),
                    ("steep", (1, 1, 1, 1), True)], 2),
      budget=170,
      scope="the listed layer widths; all weights, vectors and boxes")
def times_vector(H, act, widths, bias, first):
    net = Net(H, "net", list(widths), act, bias)
    beta = pattern(H, net, first)
    vlo, vup = H.interval("y", widths[0])
    y = H.between("y", vlo, vup)
    z, Wz = products(H, net, beta, y)
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    if H.sym:
        zlo, zup = havoc_layers(H, "z", z)
        Wlo, Wup = havoc_layers(H, "W", Wz)

        def f(lo, up):
            H.eqv("callee.lo", lo, vlo)
            H.eqv("callee.up", up, vup)
            return zlo, zup, Wlo, Wup

        H.contract(fp, "_compute_Wz_bounds_IA", f)
    H.cover()
    ret = fp.output_gradient_times_vector(vlo, vup)
    exact(H, ret, net, beta, y, z, Wz[-1])
    for i in range(len(z)):
        H.lev(f"z_lo{i}", ret.z_lo[i], z[i])
        H.lev(f"z_up{i}", z[i], ret.z_up[i])
        H.lev(f"Wz_lo{i}", ret.Wz_lo[i], Wz[i])
        H.lev(f"Wz_up{i}", Wz[i], ret.Wz_up[i])


@case("C05", ["relu_to_optimization.ReLUFreePattern._compute_Wz_bounds_IA"],
      params=[("relu", (2, 1, 1)), ("leaky", (2, 1, 1)),
              ("relu", (1, 2, 1)), ("leaky", (1, 1, 2)),
              ("relu", (1, 1, 1, 1)), ("leaky", (1, 1, 1, 1)),
              ("leaky, relu", (1, 1, 1, 1)), ("steep", (1, 1, 1, 1)),
              ("steep", (1, 2, 1)), ("relu", (1, 3, 1))],
      thorough=[("leaky", (1, 2, 1)), ("relu", (2, 2, 1))], budget=170,
      scope="the listed layer widths; all weights, vectors and boxes")
def bounds_ia(H, act, widths):
    net = Net(H, "net", list(widths), act, True)
    vlo, vup = H.interval("y", widths[0])
    y = H.between("y", vlo, vup)
    if H.sym:
        # any activations
        beta = []
        for i, w in enumerate(widths[1:-1]):
            beta.append([])
            for j in range(w):
                t = H.real(f"beta{i}.{j}", lo=0., up=1.)
                beta[i].append(t)
    else:
        beta = pattern(H, net)
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    H.cover()
    zlo, zup, Wlo, Wup = fp._compute_Wz_bounds_IA(vlo, vup)
    n = len(net.W)
    H.true("layers", len(zlo) == n and len(zup) == n and len(Wlo) == n
           and len(Wup) == n)
    z = H.vecl(y)
    for i in range(n):
        H.lev(f"z_lo{i}", zlo[i], z)
        H.lev(f"z_up{i}", z, zup[i])
        if H.sym:
            for v, a, b in zip(z, H.vecl(zlo[i]), H.vecl(zup[i])):
                for r in range(widths[i + 1]):
                    for w in net.W[i][r]:
                        # products needed by the sums below
                        H.true("term", H.or_(
                            H.and_(w > 0, w * a <= w * v, w * v <= w * b),
                            H.and_(w <= 0, w * b <= w * v, w * v <= w * a)),
                            hint=True)
        Wz = [H.dot(r, z) for r in net.W[i]]
        if H.sym:
            # name the values, so that the layers stay independent
            nm = []
            for v in Wz:
                t = H.fresh("Wz")
                H.assume(t == v)
                nm.append(t)
            Wz = nm
        H.lev(f"Wz_lo{i}", Wlo[i], Wz)
        H.lev(f"Wz_up{i}", Wz, Wup[i])
        if i < n - 1:
            z = [(net.c[i] + (1 - net.c[i]) * b) * v
                 for b, v in zip(beta[i], Wz)]


@case("C05", ["relu_to_optimization.ReLUFreePattern."
              "_compute_Wz_bounds_optimization"],
      params=[("relu", (2, 2, 1)), ("leaky", (1, 1, 2, 1)),
              ("leaky", (2, 2, 2)), ("relu, leaky", (1, 1, 1, 1)),
              ("leaky, relu", (1, 1, 1, 1)), ("steep", (2, 1, 1, 1)),
              ("relu", (1, 3, 1)), ("relu", (3, 1, 1))],
      budget=170,
      scope="the listed layer widths; all weights and programs")
def bounds_opt(H, act, widths):
    net = Net(H, "net", list(widths), act, True)
    beta = pattern(H, net)
    y = H.tensor("y", widths[0])
    z, Wz = products(H, net, beta, y)
    fb = flat(beta)
    vals = H.vecl(y) + fb + flat(z[1:])
    prog = gurobipy.Model()
    z0 = [prog.addVar(lb=-gurobipy.GRB.INFINITY) for _ in range(widths[0])]
    bv = [prog.addVar(vtype=gurobipy.GRB.BINARY) for _ in fb]
    if not H.sym:
        # a program with the box around the vector and one relation
        for v, t in zip(z0, H.vecl(y)):
            r = abs(H.real("r"))
            prog.addLConstr(v <= t + r)
            prog.addLConstr(v >= t - 2 * r)
        prog.addLConstr(gurobipy.quicksum(bv) == sum(fb))
    prog.update()
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    H.cover()
    H.solver(lambda m: dict(zip(m.getVars(), vals)), statuses=["OPTIMAL"])
    zlo, zup, Wlo, Wup, zv = fp._compute_Wz_bounds_optimization(prog, z0, bv)
    n = len(net.W)
    tol = 0. if H.sym else 1e-6
    H.true("layers", all(len(t) == n for t in (zlo, zup, Wlo, Wup, zv)))
    for i in range(n):
        for nm, lo, up, v in (("z", zlo[i], zup[i], z[i]),
                              ("Wz", Wlo[i], Wup[i], Wz[i])):
            H.lev(f"{nm}_lo{i}", lo, [t + tol for t in v])
            H.lev(f"{nm}_up{i}", [t - tol for t in v], up)
    # the variables handed back are the products
    allv = z0 + bv + flat(zv[1:])
    H.true("variables", zv[0] == z0 and
           [v.index for v in allv] == list(range(len(vals))))
    if H.sym:
        s = H.model_system(prog, dict(zip(z0 + bv, vals)))
        g = {}
        for i, v in enumerate(flat(z[1:])):
            H.entail(f"product{i}", restrict(H, s, g, [i]), {0: 1.}, 0., v)
            g[i] = v


@case("C05", ["relu_to_optimization.ReLUFreePattern.compute_alpha_index"],
      params=[(2, 3), (1, 2, 2), (3, ), (2, 1, 3, 2)],
      scope="the listed numbers of units per layer")
def alpha_index(H, *units):
    net = Net(H, "net", [1] + list(units) + [1], "relu", False)
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    H.cover()
    for k, t in enumerate(itertools.product(*map(range, units))):
        H.true(f"index{k}", fp.compute_alpha_index(t) == k)


@case("C05", ["relu_to_optimization.ReLUFreePattern.output_gradient"],
      params=[(2, 2, 1), (1, 3, 1), (1, 2, 2, 1), (2, 1, 1, 2, 1)],
      budget=170, scope="the listed layer widths; all weights")
def gradient_alpha(H, *widths):
    net = Net(H, "net", list(widths), "relu", True)
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    H.cover()
    before = [list(map(list, W)) for W in net.W]
    M, B1, B2, d = fp.output_gradient()
    L = net.units()
    hid = widths[1:-1]
    paths = list(itertools.product(*map(range, hid)))
    n = len(paths)
    H.true("shapes", tuple(M.shape) == (n, widths[0]) and
           B1.shape[1] == n and B2.shape[1] == L and
           B1.shape[0] == B2.shape[0] == d.shape[0])
    for bits in itertools.product((0., 1.), repeat=L):
        beta, k = [], 0
        for w in hid:
            beta.append(bits[k:k + w])
            k += w
        alpha = []
        for p in paths:
            v = 1.
            for i, j in enumerate(p):
                v = v * beta[i][j]
            alpha.append(v)
        rows = []
        dd = H.vecl(d)
        for i in range(int(d.shape[0])):
            r = dd[i]
            for j in range(L):
                r = r - H.el(B2, i, j) * bits[j]
            rows.append(({j: H.el(B1, i, j) for j in range(n)}, "<", r,
                         f"row{i}"))
        s = System(["B"] * n, rows)
        tag = "".join(str(int(b)) for b in bits)
        H.exists(f"{tag}.feasible", s, alpha)
        for j in range(n):
            if H.sym:
                H.entail(f"{tag}.alpha{j}", restrict(H, s, {}, [j]), {0: 1.},
                         0., alpha[j])
            else:
                H.entail(f"{tag}.alpha{j}", s, {j: 1.}, 0., alpha[j])
        G = net.pattern_gradient(beta)
        for c in range(widths[0]):
            H.eq(f"{tag}.gradient{c}",
                 sum((H.el(M, j, c) * alpha[j] for j in range(n)),
                     H.num(0.)), G[0][c])
    for W, l in zip(before, [m for m in net.model
                             if isinstance(m, torch.nn.Linear)]):
        for r, q in zip(W, H.matl(l.weight)):
            H.eqv("weights kept", q, r)
