"""Contracts of the bound computations."""
import numpy as np
import torch
import gurobipy
from engine.cases import case
from contracts.nets import Net, flat
from contracts.c10_hybrid import patched
from contracts.c01_network import havoc_bounds, tens, witness_bin
import neural_network_lyapunov.relu_to_optimization as rto
import neural_network_lyapunov.relu_to_optimization_utils as rtou
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.mip_utils as mip_utils
import neural_network_lyapunov.utils as utils

M = mip_utils.PropagateBoundsMethod


BIAS = {"relu": False, "leaky": True, "relu, leaky": "rest",
        "leaky, relu": "first"}


def affine(H, A, b, x):
    return [H.dot(r, x) + k for r, k in zip(H.matl(A), H.vecl(b))]


@case("C02", ["mip_utils.compute_range_by_IA"],
      params=[(1, 1), (2, 2), (1, 3)], thorough=[(2, 3), (1, 4)],
      scope="at most 3 inputs, 2 outputs (thorough: 4)")
def range_ia(H, m, n):
    A = H.tensor("A", m, n)
    b = H.tensor("b", m)
    lo, up = H.interval("x", n)
    x = H.between("x", lo, up)
    H.cover()
    l, u = mip_utils.compute_range_by_IA(A, b, lo, up)
    y = affine(H, A, b, H.vecl(x))
    H.lev("lo", l, y)
    H.lev("up", y, u)
    ll, uu = H.vecl(lo), H.vecl(up)
    for i in range(m):
        vlo = [H.ite(H.el(A, i, j) > 0, ll[j], uu[j]) for j in range(n)]
        vup = [H.ite(H.el(A, i, j) > 0, uu[j], ll[j]) for j in range(n)]
        H.eq(f"lo attained{i}", H.el1(l, i),
             H.dot(H.matl(A)[i], vlo) + H.el1(b, i))
        H.eq(f"up attained{i}", H.el1(u, i),
             H.dot(H.matl(A)[i], vup) + H.el1(b, i))


@case("C02", ["mip_utils.propagate_bounds"],
      params=[("relu", 2), ("leaky", 2), ("leaky-", 2), ("leaky", 0),
              ("leaky-", 1)],
      scope="layers are elementwise: 2 units stand for any number")
def propagate_activation(H, act, n):
    if act == "relu":
        c, layer = 0., torch.nn.ReLU()
    else:
        c = H.real("c", lo=0.) if act == "leaky" else H.real("c", up=0.)
        if act == "leaky-":
            H.assume(c < 0)
        layer = torch.nn.LeakyReLU(c)
    lo, up = H.interval("x", max(n, 1))
    x = H.between("x", lo, up)
    H.cover()
    if n == 0:
        lo, up, x = lo[0], up[0], x[0]
    l, u = mip_utils.propagate_bounds(layer, lo, up)
    y = [H.leaky(v, c) for v in H.vecl(x)]
    H.lev("lo", l, y)
    H.lev("up", y, u)
    for i in range(max(n, 1)):
        a, b = H.vecl(lo)[i], H.vecl(up)[i]
        li, ui = H.vecl(l)[i], H.vecl(u)[i]
        H.true(f"lo attained{i}", H.or_(
            eqc(H, li, H.leaky(a, c)), eqc(H, li, H.leaky(b, c)),
            H.and_(a <= 0, b >= 0, eqc(H, li, 0.))))
        H.true(f"up attained{i}", H.or_(
            eqc(H, ui, H.leaky(a, c)), eqc(H, ui, H.leaky(b, c))))


def eqc(H, a, b):
    return (a == b) if H.sym else abs(a - b) < 1e-7


@case("C02", ["mip_utils.propagate_bounds"],
      params=[(True, ), (False, )], scope="2 inputs, 2 outputs")
def propagate_linear(H, bias):
    layer = torch.nn.Linear(2, 2, bias=bias, dtype=torch.float64)
    W = H.tensor("W", 2, 2)
    layer.weight.data = W
    if bias:
        b = H.tensor("b", 2)
        layer.bias.data = b
    else:
        b = torch.zeros((2, ), dtype=torch.float64)
    lo, up = H.interval("x", 2)
    x = H.between("x", lo, up)
    H.cover()
    l, u = mip_utils.propagate_bounds(layer, lo, up)
    y = affine(H, W, b, H.vecl(x))
    H.lev("lo", l, y)
    H.lev("up", y, u)


@case("C02", ["mip_utils.compute_range_by_lp"],
      params=[(True, True), (True, False), (False, True)],
      scope="2 variables, 2 outputs, 2 extra constraints")
def range_lp(H, box, cons):
    A = H.nparr("A", 2, 2)
    b = H.nparr("b", 2)
    lo, up = H.interval("x", 2)
    x = H.vecl(H.between("x", lo, up))
    C = d = None
    if cons:
        C = H.nparr("C", 2, 2)
        s = [H.real(f"slack{i}", lo=0.) for i in range(2)]
        d = np.array([H.dot(C[i], x) + s[i] for i in range(2)])
    H.cover()
    H.solver(lambda m: {v: t for v, t in zip(m.getVars(), x)})
    l, u = mip_utils.compute_range_by_lp(
        A, b, lo.numpy() if box else None, up.numpy() if box else None, C, d)
    y = [H.dot(A[i], x) + H.scalar(b[i]) for i in range(2)]
    for i in range(2):
        H.true(f"lo{i}", le_tol(H, l[i], y[i]))
        H.true(f"up{i}", le_tol(H, y[i], u[i]))


@case("C02", ["mip_utils.compute_range_by_lp", "relu_to_optimization."
              "ReLUFreePattern._compute_linear_output_bound_by_optimization",
              "utils.compute_bounds_from_polytope"],
      params=["range", "neuron", "polytope"],
      scope="programs of one or two variables")
def verdicts(H, which):
    """What the solver says about the two programs: no point leaves an empty
    range, no bound an infinite one; any other verdict gives no range."""
    inf = float("inf")
    said, asked = [], []
    st = [H.choice(f"status{i}", ["OPTIMAL", "UNBOUNDED", "INFEASIBLE"] +
                   ["TIME_LIMIT"])
          for i in range(2)]
    best = [H.real("first"), H.real("second")]
    w = H.tensor("w", 1, 1)

    def optimize(m, cb=None):
        k = len(asked)
        asked.append(m.ModelSense)
        m.status = getattr(gurobipy.GRB.Status, st[k])
        vs = m.getVars()
        m._sols = [(best[k], [0.] * len(vs))] if st[k] == "OPTIMAL" else []
        m.solCount = len(m._sols)

    H.cover()
    r = None
    try:
        with patched(gurobipy.Model, optimize=optimize):
            if which == "range":
                r = mip_utils.compute_range_by_lp(
                    w.numpy(), np.zeros(1), None, None, np.ones((1, 1)),
                    np.ones(1))
                r = r[0][0], r[1][0]
            elif which == "polytope":
                r = utils.compute_bounds_from_polytope(w, w[0], 0)
            else:
                net = Net(H, "net", [1, 1], "relu", False)
                fp = rto.ReLUFreePattern(net.model, torch.float64)
                z = np.zeros(1)
                r = fp._compute_linear_output_bound_by_optimization(
                    0, 0, z, z, z, z, None, gurobipy.GRB.BINARY)[:2]
    except Exception:
        if "TIME_LIMIT" not in st:
            raise
    if "TIME_LIMIT" in st:
        H.true("no range", r is None)
        return
    H.true("a range", r is not None)
    for v, k, name in ((r[0], gurobipy.GRB.MINIMIZE, "lower"),
                       (r[1], gurobipy.GRB.MAXIMIZE, "upper")):
        i = asked.index(k)
        far = inf if name == "upper" else -inf
        if st[i] == "OPTIMAL":
            H.eq(name, v, best[i])
        else:
            H.true(name, v == (far if st[i] == "UNBOUNDED" else -far))


def le_tol(H, a, b):
    return (a <= b) if H.sym else float(a) <= float(b) + 1e-6 * (
        1 + abs(float(b)))


class Recorder:
    """Ghost values of the variables of the programs being built."""

    def __init__(self, H, net, tr, lo, up):
        self.H, self.net = H, net
        self.val = {}
        if not H.sym:
            return
        real = rtou._add_constraint_to_program_by_layer
        pre, post, _ = tr
        k = [0]
        for p in pre:
            k.append(k[-1] + len(p))

        def wrapped(prog, lin, act, *a, **kw):
            out, beta = real(prog, lin, act, *a, **kw)
            for i in range(len(pre)):
                if lin is net.model[2 * i]:
                    for j, (o, z) in enumerate(zip(out, beta)):
                        self.val[o] = post[i][j]
                        self.val[z] = witness_bin(
                            H, pre[i][j], lo[k[i] + j], up[k[i] + j])
            return out, beta

        H.contract(rtou, "_add_constraint_to_program_by_layer", wrapped)

    def inputs(self, vs, x):
        for v, t in zip(vs, x):
            self.val[v] = t

    def witness(self, x):

        def f(m):
            d = {v: self.val[v] for v in m.getVars() if v in self.val}
            rest = [v for v in m.getVars() if v not in self.val]
            if len(rest) == len(x):
                d.update(zip(rest, x))
            return d

        return f


@case("C02", ["relu_to_optimization.ReLUFreePattern."
              "_compute_linear_output_bound_by_optimization"],
      params=[("relu", (1, 2, 1), 0, "LP", False),
              ("relu", (1, 2, 1), 1, "LP", False),
              ("leaky", (2, 2, 2), 1, "MIP", True),
              ("leaky", (1, 1, 2, 1), 2, "LP", False),
              ("relu", (1, 1, 2, 1), 1, "MIP", False),
              ("relu, leaky", (1, 1, 1, 1), 2, "LP", False),
              ("relu, leaky", (1, 1, 2, 1), 1, "MIP", False),
              ("leaky, relu", (1, 1, 1, 1), 0, "LP", True),
              ("leaky, relu", (1, 1, 1, 1), 2, "MIP", True),
              ("relu", (3, 1, 1), 0, "LP", False),
              ("relu", (1, 1, 1, 1, 1), 3, "LP", False)],
      thorough=[("relu", (2, 2, 2, 1), 2, "MIP", False)],
      budget=150,
      scope="the listed layer widths; all weights, boxes and inputs")
def bound_by_optimization(H, act, widths, layer, method, callback):
    net = Net(H, "net", list(widths), act, BIAS[act])
    xlo, xup = H.interval("x", widths[0])
    x = H.between("x", xlo, xup)
    tr = net.trace(x)
    lo, up = havoc_bounds(H, "p", flat(tr[0]))
    row = H.choice("row", list(range(widths[layer + 1])))
    H.cover()
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    rec = Recorder(H, net, tr, lo, up)
    H.solver(rec.witness(H.vecl(x)))
    cb = None
    if callback:
        # a further constraint that the input satisfies
        a = H.tensor("cb.a", widths[0])
        s = H.real("cb.s", lo=0.)

        def cb():
            p = gtm.GurobiTorchMILP(torch.float64)
            v = p.addVars(widths[0], lb=-gurobipy.GRB.INFINITY)
            p.addLConstr([a], [v], sense=gurobipy.GRB.LESS_EQUAL,
                         rhs=H.dot(a, x) + s)
            return p, v

    l, u, xl, xu = fp._compute_linear_output_bound_by_optimization(
        layer, row, tens(lo).numpy(), tens(up).numpy(), xlo.numpy(),
        xup.numpy(), cb, mip_utils.binary_var_type_per_method(
            getattr(M, method)))
    v = (tr[0] + [tr[2]])[layer][row]
    H.true("lo", le_tol(H, l, v))
    H.true("up", le_tol(H, v, u))
    if not H.sym:
        # the inputs reported attain the bounds (exact binaries)
        if method == "MIP":
            for b, xx in ((l, xl), (u, xu)):
                t = net.trace(xx)
                n = sum(widths[1:layer + 1])
                ok = all(p >= a - 1e-6 and p <= c + 1e-6 for p, a, c in
                         list(zip(flat(t[0]), lo, up))[:n])
                H.true("within bounds", ok)
                H.eq("attained", (t[0] + [t[2]])[layer][row], b)


def same_entries(H, A, W):
    if tuple(A.shape) != (len(W), len(W[0])):
        return False
    return all((H.el(A, i, j) - W[i][j]).is_const() and
               (H.el(A, i, j) - W[i][j]).const() == 0
               for i in range(len(W)) for j in range(len(W[0])))


def range_contract(H, net, tr, x):
    """compute_range_by_IA and the optimisation bound by their contracts,
    at the ghost input x."""
    if not H.sym:
        return []
    ins = [H.vecl(x)] + tr[1]
    outs = tr[0] + [tr[2]]
    n = [0]
    log = []

    def fresh_bounds(vals):
        n[0] += 1
        a, b = [], []
        for i, v in enumerate(vals):
            p = H.real(f"r{n[0]}.lo{i}")
            q = H.real(f"r{n[0]}.up{i}")
            H.assume(p <= v)
            H.assume(v <= q)
            a.append(p)
            b.append(q)
        return a, b

    def ia(A, b, lo, up):
        for i, W in enumerate(net.W):
            if same_entries(H, A, W):
                H.eqv(f"callee.ia{i}.b", b, net.b[i])
                H.lev(f"callee.ia{i}.lo", lo, ins[i])
                H.lev(f"callee.ia{i}.up", ins[i], up)
                l, u = fresh_bounds(outs[i])
                return tens(l), tens(u)
        return real_ia(A, b, lo, up)

    def opt(layer, row, plo, pup, xlo, xup, cb, vtype):
        k = sum(len(p) for p in tr[0][:layer])
        ps = flat(tr[0])
        for j in range(k):
            H.le(f"callee.opt.prev.lo{j}", H.scalar(plo[j]), ps[j])
            H.le(f"callee.opt.prev.up{j}", ps[j], H.scalar(pup[j]))
        H.lev("callee.opt.x.lo", xlo, ins[0])
        H.lev("callee.opt.x.up", ins[0], xup)
        log.append((layer, row, cb, vtype))
        l, u = fresh_bounds([outs[layer][row]])
        return l[0], u[0], None, None

    real_ia = mip_utils.compute_range_by_IA
    H.contract(mip_utils, "compute_range_by_IA", ia)
    H.contract(rto.ReLUFreePattern,
               "_compute_linear_output_bound_by_optimization",
               lambda self, *a: opt(*a))
    return log


def vtype_ok(H, log, method, cb):
    for layer, row, c, vt in log:
        H.true("callee.opt.callback", c is cb)
        H.true("callee.opt.type", (vt == gtm.BINARYRELAX) ==
               (method == "LP"))


BM = ["IA", "LP", "MIP", "IA_MIP"]


@case("C02", ["relu_to_optimization.ReLUFreePattern._compute_layer_bound"],
      params=[("relu", (2, 2, 1), m) for m in BM] +
      [("leaky", (1, 1, 2, 2), "IA"), ("leaky", (1, 1, 2, 1), "MIP"),
       ("leaky", (1, 1, 1, 1), "IA_MIP"),
       ("relu, leaky", (1, 1, 1, 2), "IA"),
       ("leaky, relu", (1, 1, 1, 2), "IA_MIP"),
       ("leaky, relu", (1, 1, 1, 1, 1), "MIP"),
       ("relu", (1, 3, 1), "LP")],
      thorough=[("relu", (2, 2, 2, 1), "LP"), ("leaky", (1, 2, 1), "IA_MIP")],
      budget=170,
      scope="the listed layer widths; all weights, boxes and inputs")
def layer_bound(H, act, widths, method):
    net = Net(H, "net", list(widths), act, BIAS[act])
    xlo, xup = H.interval("x", widths[0])
    x = H.between("x", xlo, xup)
    tr = net.trace(x)
    log = range_contract(H, net, tr, x)
    H.cover()
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    plo, pup, qlo, qup = fp._compute_layer_bound(xlo, xup,
                                                 getattr(M, method))
    vtype_ok(H, log, method, None)
    H.lev("pre.lo", plo, flat(tr[0]))
    H.lev("pre.up", flat(tr[0]), pup)
    H.lev("post.lo", qlo, flat(tr[1]))
    H.lev("post.up", flat(tr[1]), qup)


@case("C02", ["relu_to_optimization.ReLUFreePattern."
              "_compute_network_output_bounds"],
      params=[("relu", (2, 2, 2), m) for m in BM] +
      [("leaky", (1, 1, 2, 1), "IA"), ("leaky", (1, 1, 2, 2), "MIP"),
       ("leaky", (1, 2, 2), "IA_MIP"),
       ("relu, leaky", (1, 1, 1, 2), "IA"),
       ("leaky, relu", (1, 1, 1, 2), "LP"),
       ("leaky, relu", (1, 1, 1, 1), "IA"), ("relu", (1, 1, 3), "LP")],
      budget=170,
      scope="the listed layer widths; all weights, boxes and inputs")
def output_bound(H, act, widths, method):
    net = Net(H, "net", list(widths), act, BIAS[act])
    xlo, xup = H.interval("x", widths[0])
    x = H.between("x", xlo, xup)
    tr = net.trace(x)
    lo, up = havoc_bounds(H, "p", flat(tr[0]))
    log = range_contract(H, net, tr, x)
    H.cover()
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    l, u = fp._compute_network_output_bounds(tens(lo), tens(up), xlo, xup,
                                             getattr(M, method))
    vtype_ok(H, log, method, None)
    H.lev("lo", l, tr[2])
    H.lev("up", tr[2], u)


@case("C02", ["relu_to_optimization.ReLUFreePattern._compute_layer_bound",
              "relu_to_optimization.ReLUFreePattern."
              "_compute_network_output_bounds"],
      params=[("relu", (2, 3, 2, 1), m) for m in BM] +
      [("leaky", (1, 3, 3, 2), m) for m in BM], kind="con",
      scope="bounded: whole bound computation at sampled networks and inputs")
def whole_network(H, act, widths, method):
    net = Net(H, "net", list(widths), act, True)
    xlo, xup = H.interval("x", widths[0])
    fp = rto.ReLUFreePattern(net.model, torch.float64)
    m = getattr(M, method)
    H.cover()
    plo, pup, qlo, qup = fp._compute_layer_bound(xlo, xup, m)
    l, u = fp._compute_network_output_bounds(plo, pup, xlo, xup, m)
    for k in range(12):
        x = H.between(f"x{k}", xlo, xup)
        tr = net.trace(x)
        H.lev("pre.lo", plo, flat(tr[0]))
        H.lev("pre.up", flat(tr[0]), pup)
        H.lev("post.lo", qlo, flat(tr[1]))
        H.lev("post.up", flat(tr[1]), qup)
        H.lev("out.lo", l, tr[2])
        H.lev("out.up", tr[2], u)
