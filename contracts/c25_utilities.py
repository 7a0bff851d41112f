"""Gradient surgery, samplers, approximator training, small helpers."""
import itertools
import numpy as np
import torch
import gurobipy
from engine.cases import case
from contracts.c10_hybrid import patched
import neural_network_lyapunov.utils as utils
import neural_network_lyapunov.train_utils as train_utils

F = torch.float64
U = "utils."


# ------------------------------------------------------ gradient surgery
def net_of(H, shapes):
    """A network with linear layers of those shapes."""
    ls = []
    for i, (n, m, bias) in enumerate(shapes):
        lin = torch.nn.Linear(n, m, bias=bias, dtype=F)
        lin.weight.data = H.tensor(f"w{i}", m, n)
        if bias:
            lin.bias.data = H.tensor(f"b{i}", m)
        ls.append(lin)
    net = torch.nn.Sequential(*ls)
    for p in net.parameters():
        p.requires_grad_(True)
    return net


def loss_of(H, name, net):
    """A loss of any value with any gradient, given per parameter."""
    out = torch.tensor(H.real(name), dtype=F)
    g = []
    for i, p in enumerate(net.parameters()):
        c = H.tensor(f"{name}.g{i}", *p.shape)
        g += H.vecl(c)
        out = out + torch.sum(c * (p - p.detach()))
    return out, g


MODES = ("LOSS1", "LOSS2", "BOTH", "EMPHASIZE_LOSS1", "EMPHASIZE_LOSS2")
NETS = {"one": [(1, 1, True)], "two": [(1, 1, False), (1, 1, False)],
        "three": [(1, 1, True), (1, 1, False)]}


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


@case("C25", ["train_utils.project_gradient"],
      params=[(m, n) for m in MODES for n in ("one", "two")] +
      [("LOSS1", "three")],
      thorough=[(m, "three") for m in MODES[1:]],
      scope="networks with 2 (3) parameters")
def surgery(H, mode, shapes):
    net = net_of(H, NETS[shapes])
    l1, g1 = loss_of(H, "loss1", net)
    l2, g2 = loss_of(H, "loss2", net)
    before = [H.vecl(p.detach()) for p in net.parameters()]
    H.cover()
    need, n1, n2 = train_utils.project_gradient(
        net, l1, l2, getattr(train_utils.ProjectGradientMode, mode))
    H.eqv("n1", n1, g1)
    H.eqv("n2", n2, g2)
    k = dot(g1, g2)
    got = [v for p in net.parameters() for v in H.vecl(p.grad)]
    for p, b in zip(net.parameters(), before):
        H.true("gradient's shape", p.grad.shape == p.shape)
        H.eqv("parameters kept", p.detach(), b)
    if not need:
        H.le("acute", 0., k)
        want = [a + b for a, b in zip(g1, g2)]
    else:
        H.lt("obtuse", k, 0.)
        perp1 = [a - k / dot(g2, g2) * b for a, b in zip(g1, g2)]
        perp2 = [b - k / dot(g1, g1) * a for a, b in zip(g1, g2)]
        want = {"LOSS1": perp1, "LOSS2": perp2,
                "BOTH": [a + b for a, b in zip(perp1, perp2)],
                "EMPHASIZE_LOSS1": [a + b for a, b in zip(g1, perp2)],
                "EMPHASIZE_LOSS2": [a + b for a, b in zip(perp1, g2)],
                }[mode]
    H.eqv("gradient", got, want)
    if need and mode == "LOSS1":
        H.eq("first order: loss 2 unchanged", dot(got, g2), 0., tol=1e-6)
    if need and mode == "LOSS2":
        H.eq("first order: loss 1 unchanged", dot(got, g1), 0., tol=1e-6)


# -------------------------------------------------------------- samplers
class Draws:
    """torch.rand by contract: any numbers in [0, 1)."""

    def __init__(self, H):
        self.H, self.all = H, []

    def __call__(self, *shape, dtype=None, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list,
                                                     torch.Size)):
            shape = tuple(shape[0])
        t = self.H.tensor(f"draw{len(self.all)}", *shape, lo=0., up=1.)
        t = t.to(dtype or torch.get_default_dtype())
        for v in self.H.vecl(t):
            self.H.assume(self.H.and_(v >= 0., v < 1.))
        self.all.append(t)
        return t


def box(H, n):
    lo = H.tensor("lo", n)
    w = H.tensor("width", n, lo=0.)
    return lo, lo + w


@case("C25", [U + "uniform_sample_in_box"], params=[(1, 1), (2, 2), (3, 2)],
      scope="the numbers of samples and dimensions listed")
def in_box(H, n, num):
    lo, hi = box(H, n)
    keep = H.vecl(lo), H.vecl(hi)
    D = Draws(H)
    H.cover()
    with patched(torch, rand=D):
        s = utils.uniform_sample_in_box(lo, hi, num)
    H.true("shape", tuple(s.shape) == (num, n))
    H.true("one draw per entry", len(D.all) == 1)
    u = H.matl(D.all[0])
    s = H.matl(s)
    for i in range(num):
        for j in range(n):
            H.eq(f"s[{i},{j}]", s[i][j], keep[0][j] + u[i][j] *
                 (keep[1][j] - keep[0][j]))
            H.le(f"lo {i},{j}", keep[0][j], s[i][j])
            H.le(f"hi {i},{j}", s[i][j], keep[1][j])
    H.eqv("lo kept", lo, keep[0])
    H.eqv("hi kept", hi, keep[1])


@case("C25", [U + "uniform_sample_on_box_boundary"],
      params=[(1, 1), (2, 1), (3, 1), (2, 2)],
      scope="the numbers of samples and dimensions listed; torch.rand may "
      "return 0")
def on_boundary(H, n, num):
    lo, hi = box(H, n)
    keep = H.vecl(lo), H.vecl(hi)
    D = Draws(H)
    H.cover()
    with patched(torch, rand=D):
        s = utils.uniform_sample_on_box_boundary(lo, hi, num)
    H.true("shape", tuple(s.shape) == (num, n))
    s = H.matl(s)
    for i in range(num):
        faces = []
        for j in range(n):
            H.le(f"lo {i},{j}", keep[0][j], s[i][j])
            H.le(f"hi {i},{j}", s[i][j], keep[1][j])
            faces += [s[i][j] == keep[0][j], s[i][j] == keep[1][j]]
        H.check(f"on a face {i}", H.or_(*faces))
    H.eqv("lo kept", lo, keep[0])
    H.eqv("hi kept", hi, keep[1])


@case("C25", [U + "uniform_sample_on_box_boundary"],
      params=[(2, j, s) for j in range(2) for s in (-1, 1)] +
      [(3, j, s) for j in range(3) for s in (-1, 1)], scope="2 and 3 "
      "dimensions; the share of draws of each face")
def each_face(H, n, j, sign):
    """The draws that lead to a face are 1/(2n) of all draws."""
    lo = torch.zeros(n, dtype=F)
    hi = torch.ones(n, dtype=F)
    # the second call of rand picks the face: an interval of width 1/(2n)
    a = (sign * j / n + 1) / 2
    b = (sign * (j + 1) / n + 1) / 2
    a, b = min(a, b), max(a, b)
    w = H.real("where", 0.001, 0.999)
    first = H.tensor("inner", 1, n, lo=0.1, up=0.9)
    calls = []

    def rand(*shape, dtype=None, **k):
        calls.append(shape)
        if len(calls) == 1:
            return first
        return torch.stack([torch.tensor(a + (b - a) * w, dtype=F)])

    H.cover()
    with patched(torch, rand=rand):
        s = utils.uniform_sample_on_box_boundary(lo, hi, 1)
    H.true("two draws", len(calls) == 2)
    want = H.vecl(first)
    want[j] = 0. if sign < 0 else 1.
    H.eqv("sample", s, want)


@case("C25", [U + "get_meshgrid_samples"],
      params=[(2, ), (3, ), (2, 3), (3, 2), (2, 2, 2)],
      scope="the mesh sizes listed")
def mesh(H, *sizes):
    lo = [H.real(f"lo{i}") for i in range(len(sizes))]
    up = [v + H.real(f"width{i}", 0.) for i, v in enumerate(lo)]
    if len(sizes) == 1:
        lo, up = torch.tensor(lo, dtype=F), torch.tensor(up, dtype=F)
    H.cover()
    s = utils.get_meshgrid_samples(lo, up, sizes, F)
    H.shape("shape", s, (int(np.prod(sizes)), len(sizes)))
    lo, up = H.vecl(lo), H.vecl(up)
    want = []
    for ks in itertools.product(*[range(m) for m in sizes]):
        want.append([lo[i] + (up[i] - lo[i]) * (k / (sizes[i] - 1))
                     for i, k in enumerate(ks)])
    H.eqv("samples", s, [v for r in want for v in r])


# ---------------------------------------------------------- the LP's cost
# rows of the inequalities that are active, as indices; equalities
ACTIVE = [(2, 3, (0, 1), 0), (2, 3, (1, 2), 0), (2, 2, (1, ), 1),
          (2, 2, (0, ), 1), (1, 2, (1, ), 0), (2, 1, (), 2)]


@case("C25", [U + "linear_program_cost"], params=ACTIVE,
      scope="programs of 1 or 2 unknowns with the active rows listed",
      budget=300)
def program_cost(H, n, nin, active, neq):
    """At the solver's optimum, a vertex: cost and its gradient."""
    x = H.vecl(H.tensor("x", n))
    A = H.tensor("A_in", nin, n)
    E = H.tensor("A_eq", neq, n)
    c = H.tensor("c", n)
    d = torch.tensor(H.real("d"), dtype=F)
    # the rows that are active have no slack, the rest at least 1e-4
    b = torch.stack([torch.tensor(
        dot(H.matl(A)[i], x) + (0. if i in active else
                                H.real(f"slack{i}", 1e-4)), dtype=F)
        for i in range(nin)])
    e = torch.stack([torch.tensor(dot(H.matl(E)[i], x), dtype=F)
                     for i in range(neq)]) if neq else \
        torch.zeros(0, dtype=F)
    M = H.matl(E) if neq else []
    M = M + [H.matl(A)[i] for i in active]
    det = M[0][0] if n == 1 else M[0][0] * M[1][1] - M[0][1] * M[1][0]
    H.assume(H.or_(det >= 0.1, det <= -0.1))
    for t in (c, d, b, e):
        t.requires_grad_(True)
    ok = H.bit("solved")
    seen = []

    def optimize(m, callback=None):
        seen.append(m)
        m.status = gurobipy.GRB.Status.OPTIMAL if ok else \
            gurobipy.GRB.Status.INFEASIBLE
        if ok:
            m._sols = [(dot(H.vecl(c), x) + H.scalar(d), list(x))]

    H.cover()
    with patched(gurobipy.Model, optimize=optimize):
        got = utils.linear_program_cost(c, d, A, b, E, e)
    H.true("one program", len(seen) == 1)
    # the program asked of the solver
    sys_ = H.model_system(seen[0])
    ix = [sys_.ix[v] for v in seen[0].getVars()]
    y = [H.real(f"y{i}") for i in range(n)]
    at = {k: v for k, v in zip(ix, y)}
    ok_rows = H.and_(*[
        (dot(H.matl(A)[i], y) <= H.vecl(b)[i]) for i in range(nin)] +
        [H.and_(dot(H.matl(E)[i], y) <= H.vecl(e)[i],
                dot(H.matl(E)[i], y) >= H.vecl(e)[i]) for i in range(neq)])
    code = []
    for co, sense, rhs, _ in sys_.rows:
        lhs = sum((k * at[i] for i, k in co.items()), 0.)
        if sense in ("<", "="):
            code.append(lhs <= rhs)
        if sense in (">", "="):
            code.append(lhs >= rhs)
    code = H.and_(*code)
    H.check("program's states", H.and_(H.implies(code, ok_rows),
                                       H.implies(ok_rows, code)))
    if not ok:
        H.true("no cost", got is None)
        return
    H.eq("cost", got, dot(H.vecl(c), x) + H.scalar(d), tol=1e-6)
    got.backward()
    H.eqv("d/dc", c.grad, x)
    H.eq("d/dd", d.grad, 1.)
    # (A_act^-T c): the multipliers of the active rows
    inv = [[1. / det]] if n == 1 else [
        [M[1][1] / det, -M[0][1] / det], [-M[1][0] / det, M[0][0] / det]]
    lam = [sum(H.vecl(c)[i] * inv[i][j] for i in range(n))
           for j in range(n)]
    if neq:
        H.eqv("d/db_eq", e.grad, lam[:neq])
    wb = [0.] * nin
    for k, i in enumerate(active):
        wb[i] = lam[neq + k]
    if active:
        H.eqv("d/db_in", b.grad, wb)


# ------------------------------------------------- callback and gradients
@case("C25", [U + "get_gurobi_terminate_if_callback"],
      params=["MIPNODE", "MIP", "MIPSOL"])
def terminate(H, where):
    """Stops exactly at nodes solved with an incumbent above the threshold."""
    CB = gurobipy.GRB.Callback
    th = H.real("threshold")
    best = H.real("incumbent")
    count = H.choice("solutions", [0, 1, 3])
    status = H.choice("status", [gurobipy.GRB.Status.OPTIMAL,
                                 gurobipy.GRB.Status.INFEASIBLE])
    stops = []

    class Model:

        def cbGet(self, what):
            H.true("asked at a node", where == "MIPNODE")
            if what == CB.MIPNODE_SOLCNT:
                return count
            if what == CB.MIPNODE_STATUS:
                return status
            if what == CB.MIPNODE_OBJBST:
                H.true("an incumbent", count > 0)
                return best
            H.true("known quantity", False)

        def terminate(self):
            stops.append(1)

    H.cover()
    default = H.bit("default threshold")
    cb = utils.get_gurobi_terminate_if_callback() if default else \
        utils.get_gurobi_terminate_if_callback(th)
    cb(Model(), getattr(CB, where))
    if stops:
        H.lt("above", 0. if default else th, best)
        H.true("at a solved node", where == "MIPNODE" and count > 0 and
               status == gurobipy.GRB.Status.OPTIMAL)
    elif where == "MIPNODE" and count > 0 and \
            status == gurobipy.GRB.Status.OPTIMAL:
        H.le("not above", best, 0. if default else th)


@case("C25", [U + "compute_numerical_gradient"],
      params=[((2, ), 2), ((1, ), 0), ((2, 1), 1), ((1, 2), 0), ((3, ), 1), ((1, 1, 1), 0)],
      scope="the sizes listed, any function and step")
def differences(H, sizes, nout):
    """Central differences of any function, of each argument."""
    dx = H.real("dx", 1e-3, 1.)
    xs = [H.nparr(f"x{i}", n) for i, n in enumerate(sizes)]
    before = [H.vecl(x) for x in xs]

    def value(vals):
        flat = [v for a in vals for v in a]
        r = [H.uninterp(f"f{k}", *flat) for k in range(max(nout, 1))]
        return r

    def fun(*args):
        v = value([H.vecl(a) for a in args])
        return np.array(v) if nout else v[0]

    H.cover()
    got = utils.compute_numerical_gradient(fun, *xs, dx=dx)
    if len(sizes) == 1:
        got = [got]
    H.true("one gradient per argument", len(got) == len(sizes))
    for a, n in enumerate(sizes):
        H.true("shape", tuple(got[a].shape) ==
               ((nout, n) if nout else (n, )))
        for i in range(n):
            up = [list(b) for b in before]
            dn = [list(b) for b in before]
            up[a][i] = up[a][i] + dx
            dn[a][i] = up[a][i] - 2 * dx
            up, dn = value(up), value(dn)
            for k in range(max(nout, 1)):
                g = H.el(got[a], k, i) if nout else H.vecl(got[a])[i]
                H.eq(f"d{k}/dx{a}{i}", g, (up[k] - dn[k]) / (2 * dx),
                     tol=1e-6)
        H.eqv("argument kept", xs[a], before[a])


@case("C25", [U + "find_nearest"], params=[1, 2, 3],
      scope="up to 3 entries")
def nearest(H, n):
    a = H.nparr("array", n)
    v = H.real("value")
    H.cover()
    got = utils.find_nearest(a, v)
    e = H.vecl(a)
    H.check("an entry", H.or_(*[x == H.scalar(got) for x in e]))
    for i, x in enumerate(e):
        H.le(f"nearest {i}", H.absv(H.scalar(got) - v), H.absv(x - v))


@case("C25", [U + "torch_to_numpy"], params=[True, False])
def to_numpy(H, squeeze):
    t = H.tensor("t", 1, 2)
    v = H.tensor("v", 2)
    t.requires_grad_(True)
    kept = np.zeros(3)
    H.cover()
    got = utils.torch_to_numpy([t, kept, v], squeeze) if not squeeze else \
        utils.torch_to_numpy([t, kept, v])
    H.true("list", isinstance(got, list) and len(got) == 3 and
           got[1] is kept)
    H.true("numpy", isinstance(got[0], np.ndarray) and
           isinstance(got[2], np.ndarray))
    H.true("shape", got[0].shape == ((2, ) if squeeze else (1, 2)))
    H.eqv("values", got[0], t)
    H.eqv("values 2", got[2], v)


# ------------------------------------------------- fitting approximators
class Fit:
    """Adam and the data's order, by contract."""

    def __init__(self, H, vars_, lr):
        self.H, self.vars, self.lr = H, vars_, lr
        self.due, self.steps = None, 0

    def adam(self):
        fit = self

        class Adam:

            def __init__(self, params, lr=1e-3):
                ps = list(params)
                fit.H.true("optimizes the variables", len(ps) ==
                           len(fit.vars) and
                           all(a is b for a, b in zip(ps, fit.vars)))
                fit.H.eq("learning rate", lr, fit.lr)

            def zero_grad(self, set_to_none=True):
                for p in fit.vars:
                    p.grad = None

            def step(self, closure=None):
                H = fit.H
                H.true("step is due", fit.due is not None)
                for i, p in enumerate(fit.vars):
                    H.eqv(f"step {fit.steps} gradient {i}",
                          p.grad.reshape((-1, )), fit.due()[i])
                fit.due = None
                fit.steps += 1
                for i, p in enumerate(fit.vars):
                    p.data.copy_(H.tensor(f"step{fit.steps}.{i}", *p.shape))

        return Adam


class Loader:
    """A data loader: batches of the given rows."""

    def __init__(self, fit, x, y, batches, due):
        self.fit, self.x, self.y, self.batches = fit, x, y, batches
        self.due = due

    def __len__(self):
        return len(self.batches)

    def __iter__(self):
        for b in self.batches:
            self.fit.H.true("previous step taken", self.fit.due is None)
            self.fit.due = self.due(b)
            yield (torch.stack([self.x[i] for i in b]),
                   torch.stack([self.y[i] for i in b]))
        self.fit.H.true("last step taken", self.fit.due is None)


@case("C25", [U + "train_approximator"],
      params=[(1, False), (2, True), (3, False)],
      scope="5 samples, 2 batches, up to 3 epochs; a model of 2 parameters "
      "and an extra variable")
def approximator(H, epochs, extra):
    lin = torch.nn.Linear(1, 1, dtype=F)
    lin.weight.data, lin.bias.data = H.tensor("w", 1, 1), H.tensor("b", 1)
    net = torch.nn.Sequential(lin)
    var = H.tensor("extra", 1)
    scale = H.real("scale")
    X, Y = H.tensor("x", 5, 1), H.tensor("y", 5, 1)
    for p in [var] + list(net.parameters()):
        p.requires_grad_(True)
    vars_ = list(net.parameters()) + ([var] if extra else [])
    lr = H.real("lr", 1e-3, 1.)
    fit = Fit(H, vars_, lr)
    order = [3, 0, 4, 1, 2]  # of random_split
    asked = []

    def output(model, x, scale):
        return model(x) * scale + var

    def due(batch):
        def grads():
            w, b, e = H.scalar(lin.weight), H.scalar(lin.bias), \
                H.scalar(var)
            r = [2. / len(batch) * ((w * H.scalar(X[i]) + b) * scale + e -
                                    H.scalar(Y[i])) for i in batch]
            gw = sum(k * scale * H.scalar(X[i]) for k, i in zip(r, batch))
            gb = sum(k * scale for k in r)
            return [[gw], [gb], [sum(r)]]
        return grads

    def split(data, sizes, **k):
        asked.append(tuple(sizes))
        return [torch.utils.data.Subset(data, order[:sizes[0]]),
                torch.utils.data.Subset(data, order[sizes[0]:])]

    def loader(data, batch_size=1, shuffle=False, **k):
        H.true("shuffled batches", batch_size == 2 and shuffle)
        ids = order[:4]
        H.true("training samples", len(data) == 4)
        for k, i in enumerate(ids):
            H.eqv(f"sample {i}", data[k][0], X[i])
            H.eqv(f"target {i}", data[k][1], Y[i])
        return Loader(fit, X, Y, [(ids[2], ids[0]), (ids[1], ids[3])], due)

    H.cover()
    with patched(torch.utils.data, random_split=split, DataLoader=loader), \
            patched(torch.optim, Adam=fit.adam()):
        utils.train_approximator(
            torch.utils.data.TensorDataset(X, Y), net, output, 2, epochs, lr,
            additional_variable=[var] if extra else None,
            output_fun_args={"scale": scale}, verbose=False)
    H.true("80% to train on", asked == [(4, 1)])
    H.true("steps", fit.steps == 2 * epochs)


@case("C25", [U + "train_model"], params=[1, 2, 3],
      scope="3 samples, 2 batches, up to 3 epochs; a model of 2 parameters")
def model_fit(H, epochs):
    lin = torch.nn.Linear(1, 1, dtype=F)
    lin.weight.data, lin.bias.data = H.tensor("w", 1, 1), H.tensor("b", 1)
    net = torch.nn.Sequential(lin)
    for p in net.parameters():
        p.requires_grad_(True)
    X, Y = H.tensor("x", 3, 1), H.tensor("y", 3, 1)
    lr = H.real("lr", 1e-3, 1.)
    fit = Fit(H, list(net.parameters()), lr)

    def due(batch):
        def grads():
            w, b = H.scalar(lin.weight), H.scalar(lin.bias)
            r = [(w * H.scalar(X[i]) + b - H.scalar(Y[i])) for i in batch]
            return [[sum(k * H.scalar(X[i]) for k, i in zip(r, batch))],
                    [sum(r)]]  # 2 / batch size, a batch of 2
        return grads

    def loader(data, batch_size=1, shuffle=False, **k):
        H.true("shuffled batches", batch_size == 2 and shuffle)
        H.true("all samples", len(data) == 3)
        return Loader(fit, X, Y, [(2, 0), (1, )], due)

    H.cover()
    with patched(torch.utils.data, DataLoader=loader), \
            patched(torch.optim, Adam=fit.adam()):
        got = utils.train_model(net, X, Y, batch_size=2, num_epoch=epochs,
                                learning_rate=lr)
    H.true("the model", got is net)
    H.true("steps", fit.steps == 2 * epochs)
