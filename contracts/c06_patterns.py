"""Contracts of activation patterns and subgradients."""
import itertools
import numpy as np
import torch
from engine.cases import case
from contracts.nets import Net, flat
import neural_network_lyapunov.relu_to_optimization as rto
import neural_network_lyapunov.utils as utils

NETS = [("relu", (2, 2, 1), True), ("leaky", (2, 2, 2), False),
        ("leaky", (1, 2, 1, 1), True), ("relu", (1, 1, 2, 1), True),
        ("relu, leaky", (1, 1, 2, 1), "first"),
        ("leaky, relu", (1, 2, 1, 2, 1), "rest"),
        ("relu", (1, 3, 1), True)]


def boundary(H, net, x):
    """In concrete runs, put some units exactly on their boundary (the
    deductive runs reach every boundary anyway)."""
    if H.sym:
        return
    for i, lin in enumerate([m for m in net.model
                             if isinstance(m, torch.nn.Linear)][:-1]):
        for j in range(net.widths[i + 1]):
            if H.bit(f"zero{i}.{j}"):
                with torch.no_grad():
                    lin.weight[j] = 0.
                    if lin.bias is not None:
                        lin.bias[j] = 0.
        net.W[i] = H.matl(lin.weight.detach())
        if lin.bias is not None:
            net.b[i] = H.vecl(lin.bias.detach())


def clear(H, pre, tol=0.):
    """Concrete arguments far enough from the comparisons to decide them."""
    return H.sym or all(p == 0 or abs(abs(p) - tol) > 1e-9
                        for p in flat(pre))


@case("C06", ["relu_to_optimization.ComputeReLUActivationPattern"],
      params=NETS, budget=100,
      scope="the listed layer widths; all weights and inputs")
def pattern(H, act, widths, bias):
    net = Net(H, "net", list(widths), act, bias)
    x = H.tensor("x", widths[0])
    boundary(H, net, x)
    pre, post, _ = net.trace(x)
    if not clear(H, pre):
        return
    H.cover()
    p = rto.ComputeReLUActivationPattern(net.model, x)
    H.true("layers", [len(l) for l in p] == list(widths[1:-1]))
    for i in range(len(pre)):
        for j in range(len(pre[i])):
            if bool(p[i][j]):
                H.true(f"active{i}.{j}", pre[i][j] >= 0)
            else:
                H.true(f"inactive{i}.{j}", pre[i][j] < 0)


@case("C06", ["relu_to_optimization.compute_all_relu_activation_patterns"],
      params=[("relu", (2, 2, 1), True), ("leaky", (1, 2, 1, 1), True),
              ("leaky", (1, 1, 2, 1), False),
              ("relu, leaky", (1, 1, 2, 1), "first"),
              ("relu", (1, 3, 1), True)], budget=150,
      scope="the listed layer widths; all weights and inputs")
def all_patterns(H, act, widths, bias):
    net = Net(H, "net", list(widths), act, bias)
    x = H.tensor("x", widths[0])
    boundary(H, net, x)
    pre, _, _ = net.trace(x)
    if not clear(H, pre):
        return
    H.cover()
    ps = rto.compute_all_relu_activation_patterns(net.model, x)
    got = [tuple(tuple(bool(u) for u in l) for l in p) for p in ps]
    H.true("layers", all([len(l) for l in p] == list(widths[1:-1])
                         for p in got))
    H.true("no duplicates", len(set(got)) == len(got))
    got = set(flat(p) for p in got) if False else {
        tuple(flat(p)) for p in got}
    fp = flat(pre)
    for bits in itertools.product((True, False), repeat=len(fp)):
        ok = H.and_(*[(v >= 0) if b else (v <= 0)
                      for v, b in zip(fp, bits)])
        if bits in got:
            H.true(f"admissible{bits}", ok)
        else:
            H.true(f"not admissible{bits}", H.not_(ok))


@case("C06", ["relu_to_optimization.relu_activation_binary_to_pattern"],
      params=[(2, 2, 1), (1, 1, 3, 2, 1), (1, 2, 2)],
      scope="the listed layer widths; every 0/1 array")
def binary_to_pattern(H, *widths):
    net = Net(H, "net", list(widths), "relu", True)
    bits = [H.bit(f"b{i}") for i in range(net.units())]
    H.cover()
    p = rto.relu_activation_binary_to_pattern(net.model, np.array(
        [float(b) for b in bits]))
    H.true("layers", [len(l) for l in p] == list(widths[1:-1]))
    H.true("values", [bool(u) for l in p for u in l] ==
           [bool(b) for b in bits])


class Var:
    start = None


@case("C06", ["relu_to_optimization.set_activation_warmstart"],
      params=[("relu", (2, 2, 1), True), ("leaky", (1, 1, 2, 1), False),
              ("leaky, relu", (1, 1, 1, 1), "first"),
              ("relu", (1, 3, 1), True)],
      budget=100, scope="the listed layer widths; all weights and inputs")
def warmstart(H, act, widths, bias):
    net = Net(H, "net", list(widths), act, bias)
    x = H.tensor("x", widths[0])
    boundary(H, net, x)
    pre, _, _ = net.trace(x)
    if not clear(H, pre):
        return
    H.cover()
    beta = [Var() for _ in range(net.units())]
    rto.set_activation_warmstart(net.model, beta, x)
    for i, (b, p) in enumerate(zip(beta, flat(pre))):
        H.true(f"start{i}", b.start in (0., 1.))
        H.true(f"consistent{i}", p >= 0 if b.start == 1. else p <= 0)


@case("C06", ["relu_to_optimization.ReLUGivenActivationPattern"],
      params=NETS + [("leaky", (2, 1, 1, 2, 2), True)], budget=100,
      scope="the listed layer widths; all weights, inputs and patterns")
def given_pattern(H, act, widths, bias):
    net = Net(H, "net", list(widths), act, bias)
    x = H.tensor("x", widths[0])
    bits = [[H.bit(f"b{i}.{j}") for j in range(w)]
            for i, w in enumerate(widths[1:-1])]
    H.cover()
    g, h, P, q = rto.ReLUGivenActivationPattern(
        net.model, widths[0], [[bool(b) for b in l] for l in bits],
        torch.float64)
    n = widths[-1]
    L = net.units()
    H.true("shapes", tuple(g.shape) == (widths[0], n) and
           tuple(h.shape) == (n, 1) and tuple(P.shape) == (L, widths[0])
           and tuple(q.shape) == (L, 1))
    # the affine map and the region of the pattern, for every x
    z = H.vecl(x)
    k = 0
    gaps = []
    for i in range(len(net.W)):
        pre = [H.dot(r, z) + c for r, c in zip(net.W[i], net.b[i])]
        if i == len(net.W) - 1:
            for j in range(n):
                H.eq(f"map{j}", sum((H.el(g, c, j) * H.vecl(x)[c]
                                     for c in range(widths[0])),
                                    H.num(0.)) + H.el(h, j, 0), pre[j])
            break
        z = []
        for j, v in enumerate(pre):
            gap = H.dot(P[k], x) - H.el(q, k, 0)
            H.eq(f"region{k}", gap, -v if bits[i][j] else v)
            gaps.append((gap, v, bits[i][j]))
            z.append(v if bits[i][j] else net.c[i] * v)
            k += 1
    for G, l in zip(net.W, [m for m in net.model
                            if isinstance(m, torch.nn.Linear)]):
        for a, b in zip(H.matl(l.weight), G):
            H.eqv("weights kept", a, b)


@case("C06", ["relu_to_optimization.ReLUGivenActivationPattern",
              "relu_to_optimization.ComputeReLUActivationPattern"],
      params=[("relu", (2, 2, 1), True), ("leaky", (1, 1, 1, 1), True),
              ("leaky, relu", (1, 1, 1, 1), "rest")],
      budget=150, scope="the listed layer widths; all weights and inputs")
def consistent_pattern(H, act, widths, bias):
    """On the region of a pattern the affine map is the network."""
    net = Net(H, "net", list(widths), act, bias)
    x = H.tensor("x", widths[0])
    boundary(H, net, x)
    pre, _, out = net.trace(x)
    if not clear(H, pre):
        return
    H.cover()
    p = rto.ComputeReLUActivationPattern(net.model, x)
    bits = [[bool(u) for u in l] for l in p]
    g, h, P, q = rto.ReLUGivenActivationPattern(net.model, widths[0], bits,
                                                torch.float64)
    for i in range(net.units()):
        H.le(f"inside{i}", H.dot(P[i], x), H.el(q, i, 0))
    for j in range(widths[-1]):
        H.eq(f"value{j}", H.dot(g[:, j], x) + H.el(h, j, 0), out[j])


@case("C06", ["utils.relu_network_gradient"],
      params=[("relu", (2, 2, 1), "pos"), ("leaky", (1, 2, 2), "zero"),
              ("leaky", (2, 1, 1, 1), "pos"), ("relu", (1, 1, 2, 2), "zero"),
              ("relu, leaky", (1, 1, 1, 1), "pos"),
              ("relu", (1, 3, 1), "zero")],
      budget=150,
      scope="the listed layer widths; all weights, inputs and tolerances")
def network_gradient(H, act, widths, tolkind):
    net = Net(H, "net", list(widths), act, True)
    x = H.tensor("x", widths[0])
    boundary(H, net, x)
    tol = H.real("tol", lo=0.) if tolkind == "pos" else 0.
    pre, _, _ = net.trace(x)
    if not clear(H, pre, tol):
        return
    H.cover()
    kw = dict(zero_tol=tol) if tolkind == "pos" else {}
    r = utils.relu_network_gradient(net.model, x, **kw)
    n, d = widths[-1], widths[0]
    opts = []
    for p in flat(pre):
        if H.holds(p > tol):
            opts.append((1., ))
        elif H.holds(p < -tol):
            opts.append((0., ))
        else:
            opts.append((1., 0.))
    want = []
    for bits in itertools.product(*opts):
        b, k = [], 0
        for w in widths[1:-1]:
            b.append(bits[k:k + w])
            k += w
        want.append(flat(net.pattern_gradient(b)))
    got = [H.vecl(r[i]) for i in range(r.shape[0])]
    H.true("shape", tuple(r.shape) == (len(want), n, d))
    same_family(H, "gradient", got, want)


def same_family(H, name, got, want):
    """The lists hold the same vectors, each as often."""
    H.true(name + ".number", len(got) == len(want))
    left = list(range(len(want)))
    for i, g in enumerate(got):
        hit = None
        for k in left:
            if all(same(H, a, b) for a, b in zip(g, want[k])):
                hit = k
                break
        if hit is None:
            # not identical to any: let the prover decide
            H.true(f"{name}{i}", H.or_(*[
                H.and_(*[a == b for a, b in zip(g, want[k])])
                for k in left]) if H.sym and left else False)
        else:
            H.true(f"{name}{i}", True)
            left.remove(hit)


def same(H, a, b):
    if not H.sym:
        return abs(a - b) <= 1e-8 * (1 + abs(b))
    d = a - b
    return d.sp is None and d.is_const() and d.const() == 0


@case("C06", ["utils.l1_gradient"],
      params=[(1, "zero", 0), (2, "zero", 0), (3, "zero", 0),
              (2, "pos", 0), (3, "pos", 0), (2, "zero", 2), (2, "pos", 1),
              (1, "zero", 3),               (3, "pos", 1)], thorough=[(4, "pos", 0), (3, "pos", 2)],
      budget=100, scope="at most 3 entries (thorough: 4), 2 samples")
def l1(H, n, tolkind, samples):
    x = H.tensor("x", n)
    tol = H.real("tol", lo=0.) if tolkind == "pos" else 0.
    if not H.sym:
        v = H.vecl(x)
        for i in range(n):
            if H.bit(f"z{i}"):
                v[i] = 0. if tol == 0. or H.bit(f"s{i}") else v[i] * tol / 2
        x = torch.tensor(v, dtype=torch.float64)
    xs = H.vecl(x)
    if not H.sym and any(abs(abs(t) - tol) < 1e-9 and t != 0 for t in xs):
        return
    smp = [H.real(f"sample{i}", lo=-1., up=1.) for i in range(samples)]
    for t in smp:
        H.assume(t > -1.)
        H.assume(t < 1.)
    H.cover()
    kw = dict(zero_tol=tol) if tolkind == "pos" else {}
    if samples:
        a = np.empty((samples, ), dtype=object if H.sym else float)
        for i in range(samples):
            a[i] = smp[i]
        kw["subgradient_samples"] = a
    r = utils.l1_gradient(x, **kw)
    opts = []
    for t in xs:
        if H.holds(t > tol):
            opts.append((H.num(1.), ))
        elif H.holds(t < -tol):
            opts.append((H.num(-1.), ))
        else:
            opts.append(tuple([H.num(1.), H.num(-1.)] + smp))
    want = [list(w) for w in itertools.product(*opts)]
    H.true("shape", tuple(r.shape) == (len(want), n))
    same_family(H, "gradient", [H.vecl(r[i]) for i in range(r.shape[0])],
                want)


@case("C06", ["utils.l_infinity_gradient"],
      params=[(1, "pos"), (2, "zero"), (2, "default"), (2, "pos"),
              (3, "pos")], budget=100,
      scope="at most 3 entries")
def linf(H, n, tolkind):
    x = H.tensor("x", n)
    tol = H.real("tol", lo=0.) if tolkind == "pos" else 0.
    if not H.sym:
        v = H.vecl(x)
        for i in range(1, n):
            k = H.choice(f"k{i}", [0, 1, 2])
            v[i] = [v[i], v[0], -v[0]][k]
        if H.bit("zero"):
            v = [0.] * n
        x = torch.tensor(v, dtype=torch.float64)
    xs = H.vecl(x)
    norm = H.max(*([H.absv(t) for t in xs] + [0.]))
    if not H.sym and any(abs(norm - abs(t) - tol) < 1e-9 and tol > 0
                         for t in xs + [0.]):
        return
    H.cover()
    r = utils.l_infinity_gradient(x) if tolkind == "default" else \
        utils.l_infinity_gradient(x, max_tol=tol)
    want = []
    if H.holds(norm <= tol):
        for s in (1., -1.):
            for i in range(n):
                want.append([H.num(s if j == i else 0.) for j in range(n)])
    else:
        for i in range(n):
            if H.holds(norm - H.absv(xs[i]) <= tol):
                s = 1. if H.holds(xs[i] > 0) else -1.
                want.append([H.num(s if j == i else 0.) for j in range(n)])
    H.true("shape", tuple(r.shape) == (len(want), n))
    same_family(H, "gradient", [H.vecl(r[i]) for i in range(r.shape[0])],
                want)
