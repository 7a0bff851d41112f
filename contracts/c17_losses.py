"""The losses at samples."""
import types
import torch
from engine.cases import case
from contracts import dyn
from contracts.lyap import Plant, R_of
import neural_network_lyapunov.lyapunov as lyapunov
import neural_network_lyapunov.continuous_time_lyapunov as ctl
import neural_network_lyapunov.barrier as barrier
import neural_network_lyapunov.train_lyapunov_barrier as train
import neural_network_lyapunov.utils as utils

F = torch.float64
Eps = lyapunov.ConvergenceEps
REDUCE = ["mean", "weighted", "max", "4norm"]


def reduced(H, h, how, weight=None):
    if how == "max":
        return H.max(*h)
    if how == "4norm":
        return H.sqrt(H.sqrt(sum((a * a * a * a for a in h), H.num(0.))))
    if weight is not None:
        h = [a * w for a, w in zip(h, H.vecl(weight))]
    return sum(h, H.num(0.)) / len(h)


class Samples:
    """Samples, and a Lyapunov function known by the contract of its value
    (C14): any function of the state."""

    def __init__(self, H, nx, n, rows, cls):
        self.H, self.nx, self.n = H, nx, n
        self.xeq = H.tensor("xeq", nx)
        self.X, self.Y = H.tensor("X", n, nx), H.tensor("Y", n, nx)
        self.Rarg, self.R = R_of(H, rows, nx)
        self.lam, self.eps = H.real("lambda"), H.real("epsilon")
        self.margin = H.real("margin")
        self.dut = cls.__new__(cls)
        self.dut.system = Plant(H, nx, None, None)
        self.dut.lyapunov_value = self.value
        self.weight = H.tensor("weight", n, lo=0.)

    def V(self, x):
        return self.H.uninterp("V", *self.H.vecl(x))

    def value(self, x, x_equilibrium, V_lambda, *, R=None):
        H = self.H
        H.true("value at", x_equilibrium is self.xeq)
        H.eq("value lambda", V_lambda, self.lam)
        if R is None:
            H.true("default norm", self.Rarg is None)
        else:
            H.eqv("value norm", R.reshape((-1, )), self.R.reshape((-1, )))
        if len(x.shape) == 1:
            return dyn.vec([self.V(x)])
        return dyn.vec([self.V(x[i]) for i in range(x.shape[0])])

    def norm(self, x):
        H, t = self.H, self.H.num(0.)
        for v in H.mv(self.R, [a - b for a, b in zip(H.vecl(x),
                                                     H.vecl(self.xeq))]):
            t = t + H.absv(v)
        return t

    def violation(self, x, Vdot, eps):
        v = self.V(x)
        return {"ExpLower": Vdot + self.eps * v,
                "ExpUpper": -(Vdot + self.eps * v),
                "Asymp": Vdot + self.eps * self.norm(x)}[eps]

    def options(self, how):
        if how == "default":  # no margin, the mean
            self.margin = 0.
            return dict(R=self.Rarg)
        kw = dict(R=self.Rarg, margin=self.margin,
                  reduction="mean" if how == "weighted" else how)
        if how == "weighted":
            kw["weight"] = self.weight
        return kw

    def check(self, name, loss, viol, how):
        H = self.H
        H.true(name + ".scalar", tuple(loss.shape) == ())
        how = "mean" if how == "default" else how
        h = [H.relu(v + self.margin) for v in viol]
        H.eq(name, loss, reduced(H, h, how, self.weight
                                 if how == "weighted" else None))


SIZES = [(1, 1, 0), (2, 2, 2), (1, 3, 2), (2, 1, 3)]
SCOPE = "state of 1 or 2, 1 to 3 samples, R of 1 to 3 rows"


@case("C17", ["lyapunov.LyapunovHybridLinearSystem."
              "lyapunov_positivity_loss_at_samples"],
      params=[s + (h, ) for s in SIZES for h in REDUCE] +
      [(2, 2, 2, "default")], scope=SCOPE)
def positivity(H, nx, n, rows, how):
    S = Samples(H, nx, n, rows, lyapunov.LyapunovDiscreteTimeHybridSystem)
    H.cover()
    loss = S.dut.lyapunov_positivity_loss_at_samples(
        S.xeq, S.X, S.lam, S.eps, **S.options(how))
    S.check("loss", loss, [S.eps * S.norm(S.X[i]) - S.V(S.X[i])
                           for i in range(n)], how)


@case("C17", ["lyapunov.LyapunovDiscreteTimeHybridSystem." + f for f in (
    "lyapunov_derivative_loss_at_samples",
    "lyapunov_derivative_loss_at_samples_and_next_states")],
      params=[s + (h, e) for k, s in enumerate(SIZES)
              for j, h in enumerate(REDUCE)
              for i, e in enumerate(("ExpLower", "ExpUpper", "Asymp"))
              if (i + j + k) % 2] + [(2, 2, 2, "default", "ExpLower")],
      scope=SCOPE)
def derivative(H, nx, n, rows, how, eps):
    S = Samples(H, nx, n, rows, lyapunov.LyapunovDiscreteTimeHybridSystem)
    H.cover()
    e, kw = getattr(Eps, eps), S.options(how)
    for name, Y, f in (
            ("given successors", S.Y, lambda: S.dut.
             lyapunov_derivative_loss_at_samples_and_next_states(
                 S.lam, S.eps, S.X, S.Y, S.xeq, e, **kw)),
            ("simulated", S.dut.system.step_forward(S.X), lambda: S.dut.
             lyapunov_derivative_loss_at_samples(
                 S.lam, S.eps, S.X, S.xeq, e, **kw))):
        S.check(name, f(), [S.violation(
            S.X[i], S.V(Y[i]) - S.V(S.X[i]), eps) for i in range(n)], how)


@case("C17", ["continuous_time_lyapunov.LyapunovContinuousTimeSystem."
              "lyapunov_derivative_loss_at_samples_and_next_states"],
      params=[s + (h, ) for s in SIZES for h in REDUCE] +
      [(2, 2, 2, "default")], scope=SCOPE)
def continuous(H, nx, n, rows, how):
    S = Samples(H, nx, n, rows, ctl.LyapunovContinuousTimeSystem)
    D = H.tensor("dV", n, nx)

    def gradient(x, x_equilibrium, V_lambda, R, create_graph):
        H.true("gradient at", x is S.X and x_equilibrium is S.xeq)
        H.eq("gradient lambda", V_lambda, S.lam)
        H.eqv("gradient norm", R.reshape((-1, )), S.R.reshape((-1, )))
        return D

    S.dut._lyapunov_gradient_batch = gradient
    H.cover()
    loss = S.dut.lyapunov_derivative_loss_at_samples_and_next_states(
        S.lam, S.eps, S.X, S.Y, S.xeq, Eps.ExpLower, **S.options(how))
    S.check("loss", loss, [S.violation(S.X[i], H.dot(D[i], S.Y[i]),
                                       "ExpLower") for i in range(n)], how)


class Linear1(torch.nn.Sequential):
    """A network that is linear around each sample, with any gradient."""

    def __init__(self, H, nx, X):
        super().__init__()
        self.H = H
        self.g = [H.tensor(f"g{i}", nx) for i in range(X.shape[0])]
        self.at = [H.vecl(X[i]) for i in range(X.shape[0])]

    def __call__(self, x):
        i = self.at.index(self.H.vecl(x)) if not self.H.sym else \
            [k for k, p in enumerate(self.at) if all(
                str(a) == str(b) for a, b in zip(p, self.H.vecl(x)))][0]
        return (self.g[i] * x).sum().reshape((1, ))


@case("C17", ["continuous_time_lyapunov.LyapunovContinuousTimeHybridSystem." +
              f for f in ("lyapunov_derivative_loss_at_samples",
                          "lyapunov_derivative_loss_at_samples_and_next_"
                          "states")],
      params=[(nx, n, w, e) for nx, n in ((1, 1), (2, 1), (1, 2))
              for w in ("mean", "weighted")
              for e in ("ExpLower", "ExpUpper", "Asymp")] +
      [(1, 2, "default", "ExpLower"), (1, 3, "mean", "ExpLower")],
      scope="state of 1 or 2, 1 to 3 samples")
def continuous_hybrid(H, nx, n, how, eps):
    S = Samples(H, nx, n, 0, ctl.LyapunovContinuousTimeHybridSystem)
    S.Rarg = H.choice("R given", [None, S.R])
    for i in range(n):
        for a, b in zip(H.vecl(S.X[i]), H.vecl(S.xeq)):
            H.assume(H.or_(a < b, a > b))
    if not H.sym:
        H.assume(len({tuple(H.vecl(x)) for x in S.X}) == n)
    net = Linear1(H, nx, S.X)
    S.dut.lyapunov_relu = net
    modes = [H.choice(f"mode{i}", [0, 1]) for i in range(n)]
    find = {str([str(t) for t in H.vecl(S.X[i])]): i for i in range(n)}
    at = lambda x: find[str([str(t) for t in H.vecl(x)])]  # noqa

    def step(x, mode):
        H.true("mode", mode == modes[at(x)])
        return S.Y[at(x)]

    S.dut.system.mode = lambda x: modes[at(x)]
    S.dut.system.step_forward = step
    H.cover()
    e, kw = getattr(Eps, eps), S.options(how)
    viol = []
    for i in range(n):
        g = [a + S.lam * H.ite(b > c, H.num(1.), H.num(-1.))
             for a, b, c in zip(H.vecl(net.g[i]), H.vecl(S.X[i]),
                                H.vecl(S.xeq))]
        viol.append(S.violation(S.X[i], H.dot(g, S.Y[i]), eps))
    S.check("given", S.dut.
            lyapunov_derivative_loss_at_samples_and_next_states(
                S.lam, S.eps, S.X, S.Y, S.xeq, e, **kw), viol, how)
    S.check("simulated", S.dut.lyapunov_derivative_loss_at_samples(
        S.lam, S.eps, S.X, S.xeq, e, **kw), viol, how)


class Safe:
    """A barrier function known by the contract of its value (C16)."""

    def __init__(self, H, nx, n, cls=barrier.DiscreteTimeBarrier):
        self.H = H
        self.xs = H.tensor("xstar", nx)
        self.c, self.eps = H.real("c"), H.real("epsilon")
        H.assume(self.c > 0)
        H.assume(self.eps >= 0)
        self.dut = cls.__new__(cls)
        self.dut.system = Plant(H, nx, None, None)
        self.dut.value = self.value

    def h(self, x):
        return self.H.uninterp("h", *self.H.vecl(x))

    def value(self, x, x_star, c):
        self.H.true("value at", x_star is self.xs)
        self.H.eq("value c", c, self.c)
        v = [self.h(x[i]) for i in range(x.shape[0])]
        return dyn.vec(v) if len(v) > 1 else dyn.vec(v)[0]

    def worst(self, x, y):
        """-(h(y) - h(x)) - eps h(x)"""
        return -self.h(y) + (1 - self.eps) * self.h(x)


@case("C17", ["barrier.DiscreteTimeBarrier."
              "derivative_loss_at_samples_and_next_states",
              "utils.loss_reduction"],
      params=[(nx, n, h) for nx, n in ((1, 1), (2, 2), (1, 3))
              for h in ("mean", "max", "4norm")] + [(1, 3, "default")],
      scope="state of 1 or 2, 1 to 3 samples")
def barrier_loss(H, nx, n, how):
    S = Safe(H, nx, n)
    X, Y = H.tensor("X", n, nx), H.tensor("Y", n, nx)
    kw, margin = {}, 0.
    if how == "default":  # no margin, the mean
        how = "mean"
    else:
        margin = H.real("margin")
        kw = dict(margin=margin, reduction=how)
    H.cover()
    loss = S.dut.derivative_loss_at_samples_and_next_states(
        S.xs, S.c, S.eps, X, Y, **kw)
    H.true("scalar", tuple(loss.shape) == ())
    H.eq("loss", loss, reduced(H, [H.relu(S.worst(X[i], Y[i]) + margin)
                                   for i in range(n)], how))
    H.raises("unknown reduction", lambda: utils.loss_reduction(X, "sum"))


# -------------------------------------------------------------- the trainer
def trainer():
    return train.Trainer.__new__(train.Trainer)


@case("C17", ["train_lyapunov_barrier.Trainer."
              "lyapunov_sample_loss"],
      params=[(p, d, w) for p, d in ((0, 0), (2, 1), (0, 2), (1, 0))
              for w in ("both", "none", "first")],
      scope="up to 2 samples")
def trainer_lyapunov(H, npos, nder, weights):
    t = trainer()
    X, D, Y = (H.tensor("P", npos, 2), H.tensor("D", nder, 2),
               H.tensor("Y", nder, 2))
    xeq = H.tensor("xeq", 2)
    R = H.tensor("R", 2, 2)
    lam, pe, de, pm, dm = [H.real(k) for k in (
        "lambda", "pe", "de", "pm", "dm")]
    lp, ld = H.tensor("lp", 1)[0], H.tensor("ld", 1)[0]
    wp, wd = [H.real(k) if weights in w else 0. for k, w in (
        ("wp", ("both", "first")), ("wd", ("both", )))]
    if H.sym:
        for w in (wp, wd):
            if not isinstance(w, float):
                H.assume(H.or_(w > 0, w < 0))
    else:
        H.assume(wp != 0 or weights == "none")
    how = H.choice("reduction", ["mean", "max", "4norm"])
    asked = []

    def positivity(x_equilibrium, state_samples, V_lambda, epsilon, *, R,
                   margin=0., reduction="mean", weight=None):
        asked.append("p")
        H.true("positivity", x_equilibrium is xeq and state_samples is X and
               R is Rm and reduction == how and weight is None)
        H.eqv("positivity numbers", [V_lambda, epsilon, margin],
              [lam, pe, pm])
        return lp

    def derivative(V_lambda, epsilon, state_samples, state_next,
                   x_equilibrium, eps_type, *, R, margin=0.,
                   reduction="mean", weight=None):
        asked.append("d")
        H.true("derivative", x_equilibrium is xeq and state_samples is D and
               state_next is Y and R is Rm and reduction == how and
               weight is None and eps_type is Eps.Asymp)
        H.eqv("derivative numbers", [V_lambda, epsilon, margin],
              [lam, de, dm])
        return ld

    Rm = R
    t.lyapunov_hybrid_system = types.SimpleNamespace(
        system=types.SimpleNamespace(x_dim=2, dtype=F),
        lyapunov_positivity_loss_at_samples=positivity,
        lyapunov_derivative_loss_at_samples_and_next_states=derivative)
    t.x_equilibrium, t.V_lambda = xeq, lam
    t.lyapunov_positivity_epsilon, t.lyapunov_derivative_epsilon = pe, de
    t.R_options = types.SimpleNamespace(R=lambda: Rm)
    t.lyapunov_positivity_sample_margin = pm
    t.lyapunov_derivative_sample_margin = dm
    t.lyapunov_derivative_eps_type = Eps.Asymp
    t.sample_loss_reduction = how
    H.cover()
    a, b = t.lyapunov_sample_loss(X, D, Y, wp, wd)
    z = H.num(0.)
    H.eq("positivity loss", a, H.scalar(lp) * wp if npos else z)
    H.eq("derivative loss", b, H.scalar(ld) * wd if nder else z)


@case("C17", ["train_lyapunov_barrier.Trainer."
              "barrier_sample_loss", "utils.loss_reduction"],
      params=[(a, b, c, how) for a, b, c in ((0, 0, 0), (2, 1, 2), (1, 3, 1))
              for how in ("mean", "max", "4norm")],
      scope="up to 3 samples")
def trainer_barrier(H, ns, nu, nd, how):
    S = Safe(H, 2, 1)
    t = trainer()
    A, B, D = [H.tensor(k, n, 2) for k, n in (("A", ns), ("B", nu),
                                              ("D", nd))]
    ws = [H.choice(k, [0., 1.]) * H.real(k + "w", 0.5) for k in "abd"]
    ld = H.tensor("ld", 1)[0]

    def derivative(x_star, c, epsilon, state_samples, state_next, *,
                   margin=0., reduction="mean"):
        H.true("derivative", x_star is S.xs and state_samples is D and
               margin == 0. and reduction == how)
        H.eqv("derivative numbers", [c, epsilon], [S.c, S.eps])
        H.eqv("derivative successors", state_next.reshape((-1, )),
              S.dut.system.step_forward(D).reshape((-1, )))
        return ld

    S.dut.derivative_loss_at_samples_and_next_states = derivative
    t.barrier_system, t.barrier_x_star = S.dut, S.xs
    t.barrier_c, t.barrier_epsilon = S.c, S.eps
    t.sample_loss_reduction = how
    H.cover()
    got = t.barrier_sample_loss(A, B, D, *ws)
    z = H.num(0.)
    H.eq("safe", got[0], ws[0] * reduced(H, [
        H.relu(-S.h(A[i])) for i in range(ns)], how) if ns else z)
    H.eq("unsafe", got[1], ws[1] * reduced(H, [
        H.relu(S.h(B[i])) for i in range(nu)], how) if nu else z)
    H.eq("derivative", got[2], ws[2] * H.scalar(ld) if nd else z)
