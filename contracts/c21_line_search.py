"""The line-search optimisers."""
import torch
from engine.cases import case
import neural_network_lyapunov.line_search_gd as gd
import neural_network_lyapunov.line_search_adam as adam

F = torch.float64
GD = "line_search_gd.LineSearchGD."
ADAM = "line_search_adam.LineSearchAdam."
SHAPES = [(2, ), (1, 2), (1, )]


def T(v):
    return v if hasattr(v, "detach") else torch.tensor(v, dtype=F)


class World:
    """Parameters, their gradients, and any loss."""

    def __init__(self, H, shapes, without=()):
        self.H = H
        self.p = [torch.nn.Parameter(H.tensor(f"p{i}", *s))
                  for i, s in enumerate(shapes)]
        self.with_grad = [i for i in range(len(shapes)) if i not in without]
        self.shapes = shapes
        self.evals = []
        self.nloss = 0
        self.accept = None      # what makes the first step size sufficient
        # how a step length is reduced
        self.red = H.real("reduction", 0.01, 0.7)
        self.least = H.real("least", 0.0001, 0.9)
        self.dec = H.real("decrement", 0.)
        self.imp = H.real("improvement", 0.)
        r = self.red
        H.assume(r * r * r <= self.least)

    def options(self, **kw):
        return dict(step_size_reduction=self.red,
                    min_step_size_decrease=self.least,
                    loss_minimal_decrement=self.dec,
                    min_improvement=self.imp, **kw)

    def at(self):
        return [self.H.vecl(p.detach().reshape((-1, ))) for p in self.p]

    def closure(self):
        H = self.H
        if self.accept is None:
            v = H.real(f"loss{self.nloss}")
        else:
            v = H.min(*self.accept) - H.real(f"loss{self.nloss}", 0.01)
        loss = T(v)
        self.nloss += 1
        self.evals.append((self.at(), v))
        return loss

    def new_gradients(self, k):
        H = self.H
        self.g = []
        for i, (p, s) in enumerate(zip(self.p, self.shapes)):
            if i in self.with_grad:
                g = H.tensor(f"g{k}_{i}", *s)
                if k > 0:
                    p.grad.zero_()     # as zero_grad does, in place
                p.grad = g
                self.g.append(H.vecl(g.detach().clone().reshape((-1, ))))
            else:
                p.grad = None
                self.g.append(None)

    def check(self, name, loss, start, lengths, dirs, slope, loss0, decrease):
        """The steps tried are lengths * reduction^k along dirs; it ends at
        the first that decreases enough, or at the smallest allowed.
        slope: gradient times (length * direction)."""
        H = self.H
        n = len(self.evals)
        H.true(name + " tried", n >= 1)
        a = H.num(1.)
        for j, (at, val) in enumerate(self.evals):
            for i in range(len(self.p)):
                want = start[i] if i not in self.with_grad else [
                    s + lengths[i] * a * d for s, d in zip(start[i],
                                                           dirs[i])]
                H.true(f"{name} size {i}", len(at[i]) == len(want))
                for k, (u, w) in enumerate(zip(at[i], want)):
                    H.eq(f"{name} step {j} parameter {i}[{k}]", u, w)
            small = val <= loss0 - self.imp
            notsmall = val >= loss0 - self.imp
            enough = H.and_(small, val <= loss0 + a * self.dec * slope) \
                if decrease else small
            lacks = H.or_(notsmall, val >= loss0 + a * self.dec * slope) \
                if decrease else notsmall
            H.true(f"{name} step {j} allowed", a > self.least)
            if j < n - 1:
                H.true(f"{name} step {j} insufficient", lacks)
            else:
                H.true(f"{name} end", H.or_(enough, a * self.red <=
                                            self.least))
            a = a * self.red
        for i, (u, w) in enumerate(zip(self.at(), self.evals[-1][0])):
            for k in range(len(u)):
                H.eq(f"{name} final {i}[{k}]", u[k], w[k])
        H.eq(name + " loss", loss, self.evals[-1][1])
        self.evals = []


def times(H, a, b):
    t = H.num(0.)
    for u, v in zip(a, b):
        for x, y in zip(u or [], v or []):
            t = t + x * y
    return t


GDP = [(1, 0, 0, 0, 0), (1, 0, 0, 1, 0), (2, 1, 0, 0, 0), (2, 1, 1, 0, 0),
       (2, 1, 0, 1, 0), (2, 1, 0, 0, 1), (2, 1, 0, 1, 1)]


@case("C21", [GD + f for f in ("__init__", "step", "line_search",
                               "directional_evaluate", "add_grad")],
      params=GDP + [(1, 0, 0, 0, 0, ())],
      thorough=[(3, 1, 1, 1, 0), (3, 1, 0, 1, 1)],
      scope="2 parameters with and 1 without (or 3 with) gradient, up to 2 steps of at "
            "most 3 evaluations each; one group of options")
def descent(H, steps, momentum, dampening, decay, nesterov, without=(1, )):
    W = World(H, SHAPES, without=without)
    lr = H.real("lr", 0.)
    kw = W.options(lr=lr, nesterov=bool(nesterov))
    m = H.real("momentum", 0.05, 1.) if momentum else 0.
    dp = H.real("dampening", 0., 1.) if dampening else 0.
    wd = H.real("decay", 0.01, 1.) if decay else 0.
    opt = gd.LineSearchGD(iter(W.p), momentum=m, dampening=dp,
                          weight_decay=wd, **kw)
    buf = None
    H.cover()
    for k in range(steps):
        start = W.at()
        W.new_gradients(k)
        g = [gi and [a + wd * b for a, b in zip(gi, s)]
             for gi, s in zip(W.g, start)]
        if not momentum:
            d = g
        else:
            buf = g if buf is None else [
                gi and [m * b + (1 - dp) * a for a, b in zip(gi, bi)]
                for gi, bi in zip(g, buf)]
            d = buf if not nesterov else [
                gi and [a + m * b for a, b in zip(gi, bi)]
                for gi, bi in zip(g, buf)]
        d = [di and [-a for a in di] for di in d]
        loss0 = H.real(f"start{k}")
        slope = lr * times(H, g, d)
        W.accept = None if k == steps - 1 else (
            loss0 - W.imp, loss0 + W.dec * slope)
        loss = opt.step(W.closure, loss0)
        W.check(f"step {k}", loss, start, [lr] * 3, d, slope, loss0, True)


def adam_world(H, k):
    W = World(H, [(1, ), (1, 1)] + [(1, )] * (k > 1),
              without=(1, ) if k == 1 else ())
    b1, b2 = H.real("beta1", 0.05, 0.95), H.real("beta2", 0.05, 0.95)
    return W, b1, b2, H.real("eps", 0.01, 1.), H.real("lr", 0.01)


@case("C21", [ADAM + f for f in ("__init__", "step", "step_direction",
                                 "line_search", "directional_evaluate",
                                 "add_grad")],
      params=[(1, 0, 0, 0), (1, 1, 1, 1), (2, 0, 1, 0), (2, 1, 0, 0),
              (2, 0, 0, 1), (1, 0, 0, 0, 2)],
      scope="2 or 3 parameters, up to 2 steps of at most 3 evaluations each; one "
            "group of options")
def moments(H, steps, amsgrad, decay, free, which=1):
    W, b1, b2, eps, lr = adam_world(H, which)
    wd = H.real("decay", 0.01, 1.) if decay else 0.
    kw = W.options(lr=lr)
    if free:
        kw["loss_minimal_decrement"] = None
    opt = adam.LineSearchAdam(iter(W.p), betas=(b1, b2), eps=eps,
                              weight_decay=wd, amsgrad=bool(amsgrad), **kw)
    n = [len(v) for v in W.at()]
    zero = [[H.num(0.)] * c for c in n]
    m1, m2, top = zero, zero, zero
    H.cover()
    p1, p2 = H.num(1.), H.num(1.)
    for k in range(steps):
        start = W.at()
        W.new_gradients(k)
        p1, p2 = p1 * b1, p2 * b2
        H.assume(p1 < 1)
        H.assume(p2 < 1)
        g = [gi and [a + wd * b for a, b in zip(gi, s)]
             for gi, s in zip(W.g, start)]
        m1 = [[b1 * a + (1 - b1) * b for a, b in zip(mi, gi)] if gi else mi
              for mi, gi in zip(m1, g)]
        m2 = [[b2 * a + (1 - b2) * b * b for a, b in zip(mi, gi)]
              if gi else mi for mi, gi in zip(m2, g)]
        top = [[H.max(a, b) for a, b in zip(ti, mi)]
               for ti, mi in zip(top, m2)] if amsgrad else m2
        dens = [[H.sqrt(b) / H.sqrt(1 - p2) + eps for b in ti] for ti in top]
        for v in (v for ds in dens for v in ds):
            H.assume(v > 0)
        d = [gi and [-a / b for a, b in zip(mi, ds)]
             for gi, mi, ds in zip(g, m1, dens)]
        length = lr / (1 - p1)
        loss0 = H.real(f"start{k}")
        slope = length * times(H, g, d)
        W.accept = None if k == steps - 1 else (
            loss0 - W.imp, loss0 + W.dec * slope)
        loss = opt.step(W.closure, loss0)
        W.check(f"step {k}", loss, start, [length] * len(n), d, slope, loss0,
                not free)


@case("C21", [GD + "step", ADAM + "step_direction"], params=["gd", "adam", ("adam", 3), ("gd", 3)],
      scope="two or three groups, the first step; the options of the line search, and "
            "the length of LineSearchGD, are those of both groups")
def groups(H, what, n=2):
    """Each parameter goes by the options of its own group."""
    W = World(H, [(1, ), (2, )] if n == 2 else [(1, )] * n)
    wd = [H.real(f"decay{i}", 0.01, 1.) for i in range(n)]
    gs = [dict(params=[p], weight_decay=w) for p, w in zip(W.p, wd)]
    b1, b2 = H.real("beta1", 0.05, 0.95), H.real("beta2", 0.05, 0.95)
    lr, eps = [H.real(f"lr{i}", 0.01) for i in range(n)], H.real("eps", 0.01)
    H.cover()
    if what == "gd":
        lr = [lr[0]] * n
        opt = gd.LineSearchGD(gs, **W.options(lr=lr[0]))
    else:
        for g, a in zip(gs, lr):
            g["lr"] = a
        opt = adam.LineSearchAdam(gs, betas=(b1, b2), eps=eps, **W.options())
    start = W.at()
    W.new_gradients(0)
    g = [[a + w * b for a, b in zip(gi, s)]
         for gi, s, w in zip(W.g, start, wd)]
    if what == "gd":
        d, length = [[-a for a in gi] for gi in g], lr
    else:
        d = []
        for gi in g:
            dens = [H.sqrt((1 - b2) * a * a) / H.sqrt(1 - b2) + eps
                    for a in gi]
            for v in dens:
                H.assume(v > 0)
            d.append([-(1 - b1) * a / v for a, v in zip(gi, dens)])
        length = [a / (1 - b1) for a in lr]
    slope = times(H, g, [[a * v for v in di] for a, di in zip(length, d)])
    loss0 = H.real("start")
    W.accept = loss0 - W.imp, loss0 + W.dec * slope
    loss = opt.step(W.closure, loss0)
    W.check("step", loss, start, length, d, slope, loss0, True)


@case("C21", [GD + "__init__", ADAM + "__init__"],
      params=["lr", "momentum", "decay", "nesterov", "nesterov2", "alr",
              "aeps", "beta1", "beta2"])
def options(H, what):
    """Options outside their range are refused."""
    p = [torch.nn.Parameter(H.tensor("p", 1))]
    d = H.real("d", 0.01)
    H.cover()
    gdkw = {"lr": dict(lr=-d), "momentum": dict(lr=d, momentum=-d),
            "decay": dict(lr=d, weight_decay=-d),
            "nesterov": dict(lr=d, nesterov=True),
            "nesterov2": dict(lr=d, momentum=d, dampening=d, nesterov=True)}
    akw = {"alr": dict(lr=-d), "aeps": dict(eps=-d),
           "beta1":
           dict(betas=(-d, 0.9)), "beta2": dict(betas=(0.9, 1. + d))}
    if what in gdkw:
        H.raises("refused", lambda: gd.LineSearchGD(p, **gdkw[what]))
    else:
        H.raises("refused", lambda: adam.LineSearchAdam(p, **akw[what]))


@case("C21", [GD + "__init__", ADAM + "__init__"], params=["gd", "adam"])
def unsaid(H, what):
    """A caller who names no option gets those of the signature; one who
    names some gets these, and the signature's for the others."""
    W = World(H, [(1, ), (2, )])
    lr = H.real("lr", 0.01)
    search = dict(loss_minimal_decrement=1e-4, min_improvement=0.,
                  min_step_size_decrease=1e-4, step_size_reduction=0.2)
    if what == "gd":
        cls, must = gd.LineSearchGD, dict(lr=lr)
        want = dict(search, lr=lr, momentum=0., dampening=0., weight_decay=0.,
                    nesterov=False)
        given = dict(momentum=H.real("momentum", 0., 1.),
                     dampening=H.real("dampening", 0., 1.))
    else:
        cls, must = adam.LineSearchAdam, {}
        want = dict(search, lr=1e-3, betas=(.9, .999), eps=1e-8,
                    weight_decay=0., amsgrad=False)
        given = dict(lr=lr, amsgrad=True)
    given["weight_decay"] = H.real("decay", 0., 1.)
    given["step_size_reduction"] = H.real("own reduction", 0.1, 0.9)
    H.cover()
    for name, kw in (("none", must), ("some", dict(must, **given))):
        opt = cls(W.p, **kw)
        H.true(name + ": one group", len(opt.param_groups) == 1)
        g = opt.param_groups[0]
        for k, v in dict(want, **kw).items():
            if isinstance(v, tuple):
                H.eqv(f"{name}: {k}", list(g[k]), list(v))
            elif isinstance(v, bool):
                H.true(f"{name}: {k}", g[k] is v)
            else:
                H.eq(f"{name}: {k}", g[k], v)
