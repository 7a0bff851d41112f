"""Contracts of the mixed-integer encoding of a network's output."""
import torch
from engine.cases import case, System
from contracts.nets import Net, network_solutions, flat, restrict, _zero
import neural_network_lyapunov.relu_to_optimization as rto
import neural_network_lyapunov.relu_to_optimization_utils as rtou
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.mip_utils as mip_utils
import gurobipy


def layer_of(act, slope):
    return torch.nn.ReLU() if act == "relu" else torch.nn.LeakyReLU(slope)


def slope_of(H, act):
    if act == "relu":
        return 0.
    c = H.real("slope", lo=0., up=1.)
    H.assume(c < 1.)
    return c


def neuron_rows(H, Wz, bin_, nout, r, z):
    """System over [outputs..., binaries...] of an 8-tuple of blocks."""
    Ai, Ao, Ab, rhs, Ei, Eo, Eb, erhs = r
    rows = []
    for M, O, B, rr, sense in ((Ai, Ao, Ab, rhs, "<"),
                               (Ei, Eo, Eb, erhs, "=")):
        n = int(rr.shape[0])
        H.true("rows" + sense, M.shape[0] == n and O.shape[0] == n and
               B.shape[0] == n)
        rr = H.vecl(rr)
        for i in range(n):
            k = rr[i]
            for j in range(len(z)):
                k = k - H.el(M, i, j) * z[j]
            co = {}
            for j in range(nout):
                co[j] = H.el(O, i, j)
                co[nout + j] = H.el(B, i, j)
            rows.append((co, sense, k, f"r{sense}{i}"))
    return System(["C"] * nout + ["B"] * nout, rows)


def witness_bin(H, pre, lo, up):
    """Activation allowed by the interval: 1 above 0, 0 below."""
    return H.ite(H.or_(pre > 0, H.and_(pre >= 0, lo >= 0)), 1., 0.)


@case("C01", ["relu_to_optimization_utils._add_constraint_by_neuron"],
      params=[("relu", 1), ("leaky", 1), ("relu", 2), ("leaky", 2),
              ("relu", 3), ("leaky", 3)],
      thorough=[("relu", 4), ("leaky", 4)],
      scope="1 to 3 inputs per unit (thorough: 4)")
def neuron(H, act, n):
    c = slope_of(H, act)
    W = H.tensor("W", n)
    b = H.tensor("b", 1)
    z = H.tensor("z", n)
    lo = H.real("lo")
    up = H.real("up")
    pre = H.dot(W, z) + H.el1(b, 0)
    if not H.sym:
        m = H.real("m1", lo=0.), H.real("m2", lo=0.)
        if H.choice("fit", [0, 1, 1, 1]):
            lo, up = pre - m[0], pre + m[1]
    H.assume(lo <= pre)
    H.assume(pre <= up)
    H.cover()
    tl, tu = [torch.tensor(v, dtype=torch.float64) for v in (lo, up)]
    r = rtou._add_constraint_by_neuron(W, b[0], layer_of(act, c), tl, tu)
    s = neuron_rows(H, None, None, 1, r[:8], H.vecl(z))
    y = H.leaky(pre, c)
    H.entail("output", s, {0: 1.}, 0., y)
    H.entail("side", s, {1: 2 * pre}, -pre, 0., "ge")
    H.exists("feasible", s, [y, witness_bin(H, pre, lo, up)],
             [({0: 1.}, 0., y)])
    # the bounds of the output contain it
    H.le("out.lo", H.scalar(r[8]), y)
    H.le("out.up", y, H.scalar(r[9]))


def havoc_bounds(H, name, pre):
    """Bounds that the callee contract (C02) guarantees: they contain the
    value before the activation; nothing else is known about them."""
    lo, up = [], []
    for i, p in enumerate(pre):
        a = H.real(f"{name}.lo{i}")
        b = H.real(f"{name}.up{i}")
        if not H.sym:
            u = H.choice(f"{name}.k{i}", [0, 1, 2])
            a, b = p - abs(a), p + abs(b)
            if u == 1:
                a, b = min(a, -0.1), max(b, 0.1)
        H.assume(a <= p)
        H.assume(p <= b)
        lo.append(a)
        up.append(b)
    return lo, up


def tens(v):
    return torch.stack([torch.tensor(x, dtype=torch.float64) for x in v])


@case("C01", ["relu_to_optimization_utils._add_constraint_by_layer"],
      params=[("relu", 1, 2, True), ("leaky", 2, 2, True),
              ("relu", 2, 2, False)],
      thorough=[("leaky", 2, 3, True)],
      scope="layers of at most 2 inputs and 2 units (thorough: 3 units)")
def layer(H, act, n, m, bias):
    c = slope_of(H, act)
    net = Net(H, "l", [n, m, 1], act, bias, c)
    z = H.vecl(H.tensor("z", n))
    pre = [H.dot(r, z) + k for r, k in zip(net.W[0], net.b[0])]
    lo, up = havoc_bounds(H, "p", pre)
    H.cover()
    r = rtou._add_constraint_by_layer(net.model[0], net.model[1], tens(lo),
                                      tens(up))
    s = neuron_rows(H, None, None, m, r[:8], z)
    ys = [H.leaky(p, c) for p in pre]
    for j in range(m):
        H.entail(f"output{j}", s, {j: 1.}, 0., ys[j])
    H.exists("feasible", s, ys + [witness_bin(H, p, a, b)
                                  for p, a, b in zip(pre, lo, up)],
             [({j: 1.}, 0., ys[j]) for j in range(m)])
    for j in range(m):
        H.le(f"out.lo{j}", H.el1(r[8], j), ys[j])
        H.le(f"out.up{j}", ys[j], H.el1(r[9], j))


@case("C01", ["relu_to_optimization_utils._add_constraint_to_program_by_layer"
              ], params=[("relu", 2, 1, True, "B"),
                         ("leaky", 1, 2, False, "B"),
                         ("leaky", 2, 2, True, "relax"),
                         ("relu", 1, 3, True, "B")],
      scope="layers of at most 2 inputs and 3 units")
def program_layer(H, act, n, m, bias, vt):
    c = slope_of(H, act)
    net = Net(H, "l", [n, m, 1], act, bias, c)
    z = H.vecl(H.tensor("z", n))
    pre = [H.dot(r, z) + k for r, k in zip(net.W[0], net.b[0])]
    lo, up = havoc_bounds(H, "p", pre)
    H.cover()
    prog = gtm.GurobiTorchMILP(torch.float64)
    zv = prog.addVars(n, lb=-gurobipy.GRB.INFINITY)
    out, act_v = rtou._add_constraint_to_program_by_layer(
        prog, net.model[0], net.model[1], zv, tens(lo), tens(up),
        gurobipy.GRB.BINARY if vt == "B" else gtm.BINARYRELAX)
    s = H.model_system(prog.gurobi_model, dict(zip(zv, z)))
    ys = [H.leaky(p, c) for p in pre]
    ws = [witness_bin(H, p, a, b) for p, a, b in zip(pre, lo, up)]
    H.true("layout", len(s.kinds) == 2 * m)
    w = [None] * (2 * m)
    for j in range(m):
        w[s.ix[out[j]]] = ys[j]
        w[s.ix[act_v[j]]] = ws[j]
        H.true(f"type{j}", s.kinds[s.ix[act_v[j]]] ==
               ("B" if vt == "B" else "C"))
    H.exists("feasible", s, w, [({s.ix[out[j]]: 1.}, 0., ys[j])
                                for j in range(m)])
    if vt == "B":
        for j in range(m):
            H.entail(f"output{j}", s, {s.ix[out[j]]: 1.}, 0., ys[j])
    else:
        for j in range(m):
            H.entail(f"relaxed>={j}", s, {s.ix[out[j]]: 1.}, 0., ys[j], "ge")


def groups_of(net):
    """(slack, binary) indices of each hidden layer in [slacks, binaries]"""
    L = net.units()
    g, k = [], 0
    for w in net.widths[1:-1]:
        g.append((list(range(k, k + w)), list(range(L + k, L + k + w))))
        k += w
    return g


def network_obligations(H, net, ret, x, tr, lo, up):
    pre, post, out = tr
    s = H.cnstr_system(ret, x)
    L = net.units()
    H.true("one slack and one binary per unit", s.ns == L and s.nz == L)
    w = flat(post) + [witness_bin(H, p, a, b)
                      for p, a, b in zip(flat(pre), lo, up)]
    exprs = [H.out_expr(ret, x, s, i) for i in range(len(out))]
    H.exists("feasible", s, w, [(co, k, o)
                                for (co, k), o in zip(exprs, out)])
    given = network_solutions(H, "unit", s, groups_of(net), post)
    for i, ((co, k), o) in enumerate(zip(exprs, out)):
        if H.sym:
            # the slacks are the expected ones: evaluate the output there
            bad = [j for j in co if j >= L and not _zero(co[j])]
            H.true(f"out{i} reads slacks only", not bad)
            H.eq(f"out{i}", H.expr_at({j: a for j, a in co.items()
                                       if j < L}, H.scalar(k), given), o)
        else:
            H.entail(f"out{i}", s, co, k, o)
    # a binary of 1 means pre >= 0, one of 0 means pre <= 0
    for (ss, zs), ps in zip(groups_of(net), pre):
        for z_, p in zip(zs, ps):
            if H.sym:
                H.entail(f"side{z_}", restrict(H, s, given, [z_]),
                         {0: 2 * p}, -p, 0., "ge")
            else:
                H.entail(f"side{z_}", s, {z_: 2 * p}, -p, 0., "ge")


NETS = [("relu", (1, 2, 1), True), ("leaky", (2, 2, 1), True),
        ("relu", (2, 2, 2), False), ("relu", (1, 2, 1, 1), True),
        ("leaky", (1, 1, 2, 2), True), ("leaky", (1, 1, 1, 1, 1), False),
        ("relu, leaky", (1, 1, 2, 1), "first"),
        ("leaky, relu", (2, 1, 1, 2), "rest"),
        ("relu, leaky", (1, 1, 1, 1, 2), "last")]
THOROUGH = [("relu", (2, 3, 1), True), ("leaky", (2, 2, 2, 1), True)]


@case("C01", ["relu_to_optimization.ReLUFreePattern."
              "_output_constraint_given_bounds"], params=NETS,
      thorough=THOROUGH, budget=170,
      scope="the listed layer widths; all weights, boxes and inputs")
def given_bounds(H, act, widths, bias):
    net = Net(H, "net", list(widths), act, bias)
    xlo, xup = H.interval("x", widths[0])
    x = H.between("x", xlo, xup)
    tr = net.trace(x)
    lo, up = havoc_bounds(H, "p", flat(tr[0]))
    H.cover()
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    ret = fp._output_constraint_given_bounds(tens(lo), tens(up), xlo, xup)
    network_obligations(H, net, ret, x, tr, lo, up)


@case("C01", ["relu_to_optimization.ReLUFreePattern.output_constraint"],
      params=[("relu", (2, 2, 1), m) for m in ("IA", "LP", "MIP", "IA_MIP")]
      + [("leaky", (1, 1, 2, 2), "IA"), ("leaky", (1, 1, 2, 1), "LP"),
         ("relu, leaky", (1, 1, 1, 1), "MIP")],
      budget=170,
      scope="the listed layer widths; all weights, boxes and inputs")
def output_constraint(H, act, widths, method):
    net = Net(H, "net", list(widths), act, True)
    xlo, xup = H.interval("x", widths[0])
    x = H.between("x", xlo, xup)
    tr = net.trace(x)
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    method = getattr(mip_utils.PropagateBoundsMethod, method)
    calls = []
    if H.sym:
        lo, up = havoc_bounds(H, "p", flat(tr[0]))
        qlo, qup = havoc_bounds(H, "q", flat(tr[1]))
        olo, oup = havoc_bounds(H, "o", tr[2])

        def layer_bound(x_lo, x_up, m, create_prog_callback=None):
            calls.append(("layer", x_lo, x_up, m))
            return tens(lo), tens(up), tens(qlo), tens(qup)

        def out_bound(plo, pup, x_lo, x_up, m, create_prog_callback=None):
            calls.append(("out", x_lo, x_up, m))
            H.eqv("callee.pre.lo", plo, lo)
            H.eqv("callee.pre.up", pup, up)
            return tens(olo), tens(oup)

        H.contract(fp, "_compute_layer_bound", layer_bound)
        H.contract(fp, "_compute_network_output_bounds", out_bound)
    H.cover()
    ret = fp.output_constraint(xlo, xup, method)
    for nm, a, b, m in calls:
        H.eqv(f"callee.{nm}.lo", a, xlo)
        H.eqv(f"callee.{nm}.up", b, xup)
        H.true(f"callee.{nm}.method", m == method)
    if not H.sym:
        lo, up = H.vecl(ret.relu_input_lo), H.vecl(ret.relu_input_up)
    else:
        H.eqv("relu_input_lo", ret.relu_input_lo, lo)
        H.eqv("relu_input_up", ret.relu_input_up, up)
        H.eqv("relu_output_lo", ret.relu_output_lo, qlo)
        H.eqv("relu_output_up", ret.relu_output_up, qup)
    network_obligations(H, net, ret, x, tr, lo, up)
    H.eqv("nn_input_lo", ret.nn_input_lo, xlo)
    H.eqv("nn_input_up", ret.nn_input_up, xup)
    for nm, l, u, v in (("relu_input", ret.relu_input_lo, ret.relu_input_up,
                         flat(tr[0])),
                        ("relu_output", ret.relu_output_lo,
                         ret.relu_output_up, flat(tr[1])),
                        ("nn_output", ret.nn_output_lo, ret.nn_output_up,
                         tr[2])):
        H.lev(nm + ".lo", l, v)
        H.lev(nm + ".up", v, u)


@case("C01", ["relu_to_optimization.ReLUFreePattern."
              "compute_relu_unit_outputs_and_activation"],
      params=[("relu", (2, 2, 1), True), ("leaky", (1, 2, 2), False),
              ("leaky", (1, 2, 1, 1), True), ("relu", (1, 1, 2, 2), True),
              ("relu, leaky", (1, 1, 2, 1), "first"),
              ("leaky, relu", (1, 2, 1, 1, 1), "rest"),
              ("relu", (1, 3, 1), True)],
      thorough=[("leaky", (1, 2, 2, 1), True)],
      scope="the listed layer widths; all weights and inputs")
def unit_outputs(H, act, widths, bias):
    net = Net(H, "net", list(widths), act, bias)
    x = H.tensor("x", widths[0])
    pre, post, out = net.trace(x)
    H.cover()
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    z, beta, o = fp.compute_relu_unit_outputs_and_activation(x)
    H.eqv("z", z, flat(post))
    H.eqv("beta", beta, [H.ite(p > 0, 1., 0.) for p in flat(pre)])
    H.eqv("output", o, out)
