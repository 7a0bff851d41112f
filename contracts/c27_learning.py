"""Learning dynamics together with a Lyapunov function."""
import os
import shutil
import tempfile
import types
import torch
import gurobipy
from engine.cases import case
from engine.stubs import stub
from contracts.c10_hybrid import patched
import neural_network_lyapunov.dynamics_learning as dl
import neural_network_lyapunov.lyapunov as lyapunov
import neural_network_lyapunov.relu_system as relu_system

F = torch.float64
D = "dynamics_learning."
LOWER = lyapunov.ConvergenceEps.ExpLower
UPPER = lyapunov.ConvergenceEps.ExpUpper
WEIGHTS = ("lyap_pos_loss_at_samples_weight",
           "lyap_der_lo_loss_at_samples_weight",
           "lyap_der_up_loss_at_samples_weight", "lyap_pos_loss_weight",
           "lyap_der_lo_loss_weight", "lyap_der_up_loss_weight")


def linear(H, name, n=1, m=1):
    lin = torch.nn.Linear(n, m, dtype=F)
    lin.weight.data = H.tensor(name + ".w", m, n)
    lin.bias.data = H.tensor(name + ".b", m)
    net = torch.nn.Sequential(lin)
    for p in net.parameters():
        p.requires_grad_(True)
    return net


class System(relu_system.AutonomousReLUSystemGivenEquilibrium):
    """A system by contract: its step is any function of the state."""

    def __init__(self, H, n):
        self.H, self.x_dim = H, n
        self.x_equilibrium = H.tensor("x*", n)
        self.dynamics_relu = linear(H, "dynamics", n, n)

    def row(self, x):
        return [self.H.uninterp(f"next{i}", *x) for i in range(self.x_dim)]

    def step_forward(self, x):
        if len(x.shape) == 1:
            return torch.tensor(self.row(self.H.vecl(x)), dtype=F)
        return torch.tensor([self.row(r) for r in self.H.matl(x)], dtype=F)


class Lyap(lyapunov.LyapunovDiscreteTimeHybridSystem):
    """A Lyapunov function by contract: any function of the state; its
    losses any function of the samples and the settings."""

    def __init__(self, H, n):
        self.H = H
        self.system = System(H, n)
        self.lyapunov_relu = linear(H, "lyapunov", n, 1)

    def settings(self, opt, x_eq, lam, R):
        H = self.H
        H.true("equilibrium given", x_eq is self.system.x_equilibrium)
        H.eq("V_lambda given", lam, opt.V_lambda)
        H.true("R given", R is opt.R)

    def V(self, x):
        return self.H.uninterp("V", *x)

    def lyapunov_value(self, x, x_equilibrium, V_lambda, *, R):
        self.settings(self.opt, x_equilibrium, V_lambda, R)
        self.H.true("one state", len(x.shape) == 1)
        return torch.tensor(self.V(self.H.vecl(x)), dtype=F)

    def lyapunov_positivity_loss_at_samples(self, x_equilibrium,
                                            state_samples, V_lambda, epsilon,
                                            *, R, **k):
        self.settings(self.opt, x_equilibrium, V_lambda, R)
        self.H.true("default margin and reduction", not k)
        self.H.eq("epsilon given", epsilon, self.opt.V_eps_pos)
        return torch.tensor(self.positivity(self.H.matl(state_samples)),
                            dtype=F)

    def positivity(self, rows):
        return self.H.uninterp("loss P", *[v for r in rows for v in r])

    def lyapunov_derivative_loss_at_samples_and_next_states(
            self, V_lambda, epsilon, state_samples, state_next,
            x_equilibrium, eps_type, *, R, **k):
        H = self.H
        self.settings(self.opt, x_equilibrium, V_lambda, R)
        H.true("default margin and reduction", not k)
        H.true("a rate", eps_type in (LOWER, UPPER))
        H.eq("epsilon given", epsilon, self.opt.V_eps_der_lo
             if eps_type == LOWER else self.opt.V_eps_der_up)
        return torch.tensor(self.derivative(
            H.matl(state_samples), H.matl(state_next), eps_type), dtype=F)

    def derivative(self, rows, nexts, eps_type):
        return self.H.uninterp(
            "loss L" if eps_type == LOWER else "loss U",
            *[v for r in rows + nexts for v in r])


def options(H, n, **more):
    d = dict(dtype=F, kl_weight_lo=0.5, kl_weight_up=0.5,
             kl_weight_center_step=0, kl_weight_steps_lo_to_up=1,
             V_lambda=H.real("V_lambda"), V_eps_pos=H.real("eps pos"),
             V_eps_der_lo=H.real("eps lo"), V_eps_der_up=H.real("eps up"),
             R=H.tensor("R", n, n), x_dim=n, lyap_loss_optimal=True,
             lyap_loss_warmstart=False, lyap_loss_freq=0)
    for w in WEIGHTS:
        d[w] = H.real(w)
    d.update(more)
    return dl.DynamicsLearningOptions(d)


def learner(H, n=1, train=(), validation=(), **more):
    lyap = Lyap(H, n)
    opt = options(H, n, **more)
    lyap.opt = opt
    return dl.StateSpaceDynamicsLearning(train, validation, lyap, opt), lyap


# ---------------------------------------------------------------- options
@case("C27", [D + "DynamicsLearningOptions.__getattr__",
              D + "DynamicsLearningOptions.set_option",
              D + "DynamicsLearningOptions.set_options"])
def option(H):
    a, b = H.real("a"), H.real("b")
    o = dl.DynamicsLearningOptions(dict(first=a, second=b))
    c = H.real("c")
    H.cover()
    H.eq("first", o.first, a)
    o.set_option("first", b)
    H.eq("set", o.first, b)
    o.set_options(dict(second=a, third=b, fourth=c))
    H.eq("second", o.second, a)
    H.eq("third", o.third, b)
    H.eq("fourth", o.fourth, c)
    H.eq("kept", o.first, b)
    H.raises("missing", lambda: o.fifth)


# ------------------------------------------------------- losses at samples
@case("C27", [D + "DynamicsLearning.lyapunov_loss_at_samples",
              D + "StateSpaceDynamicsLearning.lyapunov_loss_at_samples"],
      params=[(1, 1), (1, 2), (2, 2)],
      scope="the numbers of states and samples listed")
def at_samples(H, n, num):
    lo, up = H.tensor("lo", n), H.tensor("up", n)
    L, lyap = learner(H, n, x_lo_stable=lo, x_up_stable=up)
    X = H.tensor("x", num, n)
    H.cover()
    got = L.lyapunov_loss_at_samples(X)
    H.true("three losses", len(got) == 3)
    rows = []
    for r in H.matl(X):
        ok = True
        for v, a, b in zip(r, H.vecl(lo), H.vecl(up)):
            ok = ok and H.holds(v <= b)
        if ok:
            rows.append(r)
    rows = [r for r in rows if H.holds(H.and_(
        *[v >= a for v, a in zip(r, H.vecl(lo))]))]
    for g, nm in zip(got, ("P", "L", "U")):
        H.true("one value " + nm, g.numel() == 1)
    if not rows:
        for g in got:
            H.eqv("no sample in the box", g, [0.])
        return
    nexts = [lyap.system.row(r) for r in rows]
    o = L.opt
    want = [lyap.positivity(rows), lyap.derivative(rows, nexts, LOWER),
            lyap.derivative(rows, nexts, UPPER)]
    for g, w, k in zip(got, want, WEIGHTS):
        H.eq(k, g, getattr(o, k) * w)


# ------------------------------------------------------------------ programs
class Program:
    """A program of the Lyapunov function, and what its solver reports."""

    def __init__(self, H, name, sols, loss, fails=False):
        self.H, self.name, self.loss, self.fails = H, name, loss, fails
        self.sols = sols  # (objective, state)
        self.gurobi_model = m = gurobipy.Model()
        self.x = [m.addVar(lb=-gurobipy.GRB.INFINITY, name=f"x{i}")
                  for i in range(len(sols[0][1]) if sols else 1)]
        m._program = self
        self.callbacks = []

    def compute_objective_from_mip_data_and_solution(self, *a, **k):
        self.H.true("solved first", len(self.callbacks) == 1)
        self.H.true("default solution and penalty", not a and not k)
        if self.fails:
            raise dl.IncorrectActiveConstraint()
        return self.loss


def solve(m, callback=None):
    p = m._program
    p.callbacks.append(callback)
    m.status = gurobipy.GRB.Status.OPTIMAL
    m._sols = [(o, list(x)) for o, x in p.sols]
    m.solCount = len(p.sols)


def programs(H, lyap, opt, make, warm=None):
    """The three programs by contract; records what was asked."""
    asked = []

    def check(name, x_eq, lam, eps, R, k):
        lyap.settings(opt, x_eq, lam, R)
        H.eq("epsilon " + name, eps, {"P": opt.V_eps_pos,
                                      "L": opt.V_eps_der_lo,
                                      "U": opt.V_eps_der_up}[name])
        w = k.pop("x_warmstart", None)
        H.true("default options", not k)
        if warm is not None:
            warm(name, w)
        asked.append((name, make(name)))
        return asked[-1][1]

    def positivity(x_equilibrium, V_lambda, V_epsilon, *, R, **k):
        p = check("P", x_equilibrium, V_lambda, V_epsilon, R, k)
        return p, p.x

    def derivative(x_equilibrium, V_lambda, epsilon, eps_type, *, R, **k):
        H.true("a rate", eps_type in (LOWER, UPPER))
        p = check("L" if eps_type == LOWER else "U", x_equilibrium,
                  V_lambda, epsilon, R, k)
        return types.SimpleNamespace(milp=p, x=p.x)

    stub(lyap, lyapunov_positivity_as_milp=positivity,
         lyapunov_derivative_as_milp=derivative)
    return asked


def stops_above(H, name, cb, threshold):
    """The callback stops at a solved node iff its incumbent is above."""
    C = gurobipy.GRB.Callback
    best = H.real("incumbent " + name)
    stops = []
    node = types.SimpleNamespace(
        cbGet=lambda what: {C.MIPNODE_SOLCNT: 1,
                            C.MIPNODE_STATUS: gurobipy.GRB.Status.OPTIMAL,
                            C.MIPNODE_OBJBST: best}[what],
        terminate=lambda: stops.append(1))
    cb(node, C.MIPNODE)
    if stops:
        H.lt("stops above " + name, threshold, best)
    else:
        H.le("goes on below " + name, best, threshold)


@case("C27", [D + "DynamicsLearning.adversarial_samples"],
      params=[(0, 0, 0, True), (2, 0, 1, False), (1, 2, 0, True),
              (0, 1, 2, False), (3, 0, 1, False), (0, 3, 0, True),
              (0, 0, 3, True)],
      thorough=[(2, 2, 2, True), (3, 1, 1, False)],
      scope="programs with up to 3 solutions each, states of size 3")
def adversarial(H, p, lo, up, optimal):
    """The solutions of positive objective of the three programs."""
    L, lyap = learner(H, 3, lyap_loss_optimal=optimal)
    sols = {nm: [(H.real(f"objective {nm}{i}"),
                  [H.real(f"x {nm}{i}{j}") for j in range(3)])
                 for i in range(k)]
            for nm, k in (("P", p), ("L", lo), ("U", up))}
    asked = programs(H, lyap, L.opt, lambda nm: prog(nm))

    def prog(nm):
        q = Program(H, nm, sols[nm], None)
        while len(q.x) < 3:
            q.x.append(q.gurobi_model.addVar())
        return q

    H.cover()
    with patched(gurobipy.Model, optimize=solve):
        got = L.adversarial_samples()
    H.true("each program once", sorted(n for n, _ in asked) ==
           ["L", "P", "U"])
    H.true("three sets", len(got) == 3)
    for nm, g in zip(("P", "L", "U"), got):
        want = [x for o, x in sols[nm] if H.holds(o > 0.)]
        H.true("number of samples " + nm, len(g) == len(want))
        if want:
            H.true("shape " + nm, tuple(g.shape) == (len(want), 3))
            H.eqv("samples " + nm, g, [v for x in want for v in x])
    for nm, q in asked:
        H.true("solved once", len(q.callbacks) == 1)
        if optimal:
            H.true("to the end", q.callbacks[0] is None)
        else:
            stops_above(H, nm, q.callbacks[0], 0.)


@case("C27", [D + "DynamicsLearning.lyapunov_loss"],
      params=[(o, w, f) for o in (True, False) for w in (True, False)
              for f in ("", "P", "LU") if not (o and f)],
      scope="two calls in sequence, states of size 3")
def program_losses(H, optimal, warm, failing):
    """Weighted optima; each program's start is its last solution."""
    L, lyap = learner(H, 3, lyap_loss_optimal=optimal,
                      lyap_loss_warmstart=warm)
    th = {nm: H.real("threshold " + nm) for nm in "PLU"}
    last = {nm: H.vecl(lyap.system.x_equilibrium) for nm in "PLU"}
    rnd = [0]

    def start(nm, w):
        if warm:
            H.true(f"start {nm}{rnd[0]}", w is not None)
            H.eqv(f"warm start {nm}{rnd[0]}", w, last[nm])
        else:
            H.true("no warm start", w is None)

    losses = {}

    def make(nm):
        i = rnd[0]
        losses[nm] = H.real(f"loss {nm}{i}")
        x = [H.real(f"x {nm}{i}{j}") for j in range(3)]
        last[nm] = x
        second = (H.real(f"worse {nm}{i}"), [H.real(f"y {nm}{i}{j}")
                                             for j in range(3)])
        return Program(H, nm, [(losses[nm], x), second],
                       torch.tensor(losses[nm], dtype=F), nm in failing)

    H.cover()
    for i in range(2):
        rnd[0] = i
        asked = programs(H, lyap, L.opt, make, start)
        with patched(gurobipy.Model, optimize=solve):
            if i == 0:
                got = L.lyapunov_loss(
                    lyap_pos_threshold=th["P"],
                    lyap_der_lo_threshold=th["L"],
                    lyap_der_up_threshold=th["U"])
            else:
                got = L.lyapunov_loss()
        H.true("each program once", sorted(n for n, _ in asked) ==
               ["L", "P", "U"])
        H.true("three losses", len(got) == 3)
        for nm, g, w in zip("PLU", got, WEIGHTS[3:]):
            H.eq(f"{w} {i}", g, getattr(L.opt, w) * (
                0. if nm in failing else losses[nm]))
        for nm, q in asked:
            if optimal:
                H.true("to the end", q.callbacks[0] is None)
            else:
                stops_above(H, f"{nm}{i}", q.callbacks[0],
                            th[nm] if i == 0 else 0.)


# -------------------------------------------------------- state space losses
@case("C27", [D + "StateSpaceDynamicsLearning.dynamics_loss"],
      params=[(1, 1), (2, 1), (2, 2)],
      scope="the numbers of samples and states listed")
def state_loss(H, num, n):
    L, lyap = learner(H, n)
    X, Y = H.tensor("x", num, n), H.tensor("y", num, n)
    H.cover()
    got = L.dynamics_loss(X, Y)
    s = 0.
    for x, y in zip(H.matl(X), H.matl(Y)):
        for a, b in zip(lyap.system.row(x), y):
            s = s + (a - b) * (a - b)
    H.eq("mean squared error", got, s / (num * n))


@case("C27", [D + "StateSpaceDynamicsLearning.rollout",
              D + "StateSpaceDynamicsLearning.rollout_loss"],
      params=[(0, 1), (1, 2), (2, 1), (3, 1)], thorough=[(3, 2)],
      scope="up to 3 steps, 1 or 2 states")
def state_rollout(H, steps, n):
    L, lyap = learner(H, n)
    want = [H.vecl(H.tensor("x0", n))]
    for _ in range(steps):
        want.append(lyap.system.row(want[-1]))
    x0 = torch.tensor(want[0], dtype=F)
    H.cover()
    x, V = L.rollout(x0, steps)
    H.shape("states", x, (steps + 1, n))
    H.shape("values", V, (steps + 1, ))
    H.eqv("trajectory", x, [v for r in want for v in r])
    H.eqv("Lyapunov values", V, [lyap.V(r) for r in want])
    E = H.tensor("expected", steps + 1, n)
    E = torch.cat((x0.reshape((1, -1)), E[1:, :]), dim=0)
    loss = L.rollout_loss(E)
    H.shape("losses", loss, (steps + 1, ))
    H.eqv("loss", loss, [sum((a - b) * (a - b) for a, b in zip(r, e)) / n
                         for r, e in zip(want, H.matl(E))])


@case("C27", [D + "DynamicsLearning.rollout_validation"], params=[1, 2, 3],
      scope="up to 3 rollouts of 2 states")
def validation(H, num):
    """The mean of the rollouts' losses."""
    L, lyap = learner(H, 1)
    rolls = [H.tensor(f"rollout{i}", 2, 1) for i in range(num)]
    losses = [H.tensor(f"loss{i}", 2) for i in range(num)]
    seen = []

    def loss(r):
        seen.append(r)
        H.eqv(f"rollout {len(seen)}", r, rolls[len(seen) - 1])
        return losses[len(seen) - 1]

    stub(L, rollout_loss=loss)
    H.cover()
    got = L.rollout_validation(rolls)
    H.true("every rollout", len(seen) == num)
    H.eqv("mean", got, [sum(H.vecl(v)[k] for v in losses) / num
                        for k in range(2)])
    for i, v in enumerate(losses):
        H.true("losses kept", v is losses[i])


# ------------------------------------------------------------- latent space
class Coder:
    """An encoder or decoder by contract: any function of each sample."""

    def __init__(self, H, name, n, shape=None, lo=None):
        self.H, self.name, self.n, self.shape = H, name, n, shape
        self.net = linear(H, name)
        self.lo = lo

    def type(self, dtype):
        self.H.true("type", dtype == F)
        return self

    def to(self, device):
        return self

    def parameters(self):
        return self.net.parameters()

    def row(self, what, x):
        r = [self.H.uninterp(f"{self.name}.{what}{i}", *x)
             for i in range(self.n)]
        return r

    def forward(self, x):
        H = self.H
        rows = [H.vecl(r) for r in x]
        if self.shape is None:
            return tuple(torch.tensor([self.row(w, r) for r in rows],
                                      dtype=F) for w in ("mu", "lv"))
        return torch.tensor([self.row("px", r) for r in rows],
                            dtype=F).reshape((len(rows), ) + self.shape)

    __call__ = forward


def latent(H, z=1, ch=1, eq=False, **more):
    lyap = Lyap(H, z)
    d = dict(use_variational=False, use_bce=False, image_width=1,
             image_height=2, decoded_equilibrium_loss_weight=H.real(
                 "equilibrium weight"), z_dim=z)
    d.update(more)
    opt = options(H, z, **d)
    lyap.opt = opt
    enc = Coder(H, "enc", z)
    dec = Coder(H, "dec", 2 * ch * 2, (2 * ch, 1, 2))
    E = H.tensor("decoded equilibrium", 2 * ch, 1, 2) if eq else None
    return dl.LatentSpaceDynamicsLearning(
        (), (), lyap, opt, enc, dec, decoded_equilibrium=E), lyap, enc, dec


def images(H, name, *shape):
    return H.tensor(name, *shape)


def px(H, X):
    return [H.vecl(r) for r in X]


@case("C27", [D + "LatentSpaceDynamicsLearning.reparam"], params=[(1, 2),
                                                                  (2, 1)],
      scope="the numbers of samples and dimensions listed")
def reparam(H, num, z):
    L = latent(H, z)[0]
    mu, lv = H.tensor("mu", num, z), H.tensor("logvar", num, z, lo=-2.,
                                              up=2.)
    noise = H.tensor("noise", num, z)
    H.cover()
    with patched(torch, randn=lambda *s, **k: noise):
        got = L.reparam(mu, lv)
    H.shape("shape", got, (num, z))
    H.eqv("sample", got, [m + e * H.exp(0.5 * v) for m, e, v in zip(
        H.vecl(mu), H.vecl(noise), H.vecl(lv))])


@case("C27", [D + "LatentSpaceDynamicsLearning.vae_forward",
              D + "LatentSpaceDynamicsLearning.lyapunov_loss_at_samples"],
      params=[False, True], scope="2 images of 2 channels, 2 latent states")
def forward(H, variational):
    lo, up = torch.full((2, ), -1e6, dtype=F), torch.full((2, ), 1e6,
                                                          dtype=F)
    L, lyap, enc, dec = latent(H, 2, use_variational=variational,
                               z_lo_stable=lo, z_up_stable=up)
    X = images(H, "x", 2, 2, 1, 2)
    used = []

    def sample(mu, lv):
        used.append(1)
        for i, r in enumerate(px(H, X)):
            H.eqv(f"mean {i}", mu[i], enc.row("mu", r))
            H.eqv(f"log variance {i}", lv[i], enc.row("lv", r))
        return H_z

    H_z = H.tensor("z", 2, 2, lo=-5., up=5.)
    stub(L, reparam=sample)
    H.cover()
    xd, xn, mu, lv, zn = L.vae_forward(X)
    z = H.matl(H_z) if variational else [enc.row("mu", r)
                                         for r in px(H, X)]
    H.true("sampled", len(used) == (1 if variational else 0))
    H.shape("image", xd, (2, 2, 1, 2))
    H.shape("next image", xn, (2, 2, 1, 2))
    for i in range(2):
        H.eqv(f"decoded {i}", xd[i], dec.row("px", z[i]))
        H.eqv(f"next state {i}", zn[i], lyap.system.row(z[i]))
        H.eqv(f"decoded next {i}", xn[i],
              dec.row("px", lyap.system.row(z[i])))
        H.eqv(f"mu {i}", mu[i], enc.row("mu", px(H, X)[i]))
        if variational:
            H.eqv(f"log var {i}", lv[i], enc.row("lv", px(H, X)[i]))
    if not variational:
        H.true("no variance", lv is None)
    if H.sym:
        for r in z:
            for v in r:
                H.assume(H.and_(v <= 1e6, v >= -1e6))
    got = L.lyapunov_loss_at_samples(X)
    nexts = [lyap.system.row(r) for r in z]
    for g, w, k in zip(got, [lyap.positivity(z),
                             lyap.derivative(z, nexts, LOWER),
                             lyap.derivative(z, nexts, UPPER)], WEIGHTS):
        H.eq(k, g, getattr(L.opt, k) * w)


@case("C27", [D + "LatentSpaceDynamicsLearning.kl_loss"],
      params=[(1, 1), (2, 1), (1, 2), (2, 2)],
      scope="the numbers of samples and dimensions listed")
def divergence(H, num, z):
    L = latent(H, z)[0]
    mu, lv = H.tensor("mu", num, z), H.tensor("logvar", num, z, lo=-2.,
                                              up=2.)
    w = H.real("weight")
    it = H.real("iteration")
    L.n_iter = it

    def weight(i):
        H.eq("at this iteration", i, it)
        return w

    L.kl_loss_weight = weight
    H.cover()
    got = L.kl_loss(mu, lv)
    want = sum((m * m + H.exp(v) - v - 1.) / 2
               for m, v in zip(H.vecl(mu), H.vecl(lv))) / num
    H.eq("divergence from the standard normal", got, w * want)


def recon(H, bce, A, B):
    """Mean over all pixels of all images."""
    s = 0.
    for a, b in zip(A, B):
        s = s + (-(a * H.log(b) + (1 - a) * H.log(1 - b)) if bce
                 else (a - b) * (a - b))
    return s / len(A)


@case("C27", [D + "LatentSpaceDynamicsLearning.reconstruction_loss"],
      params=[(b, n) for b in (False, True) for n in (1, 2, 3)],
      scope="up to 3 images of 2 pixels and channels")
def reconstruction(H, bce, num):
    L = latent(H, use_bce=bce)[0]
    X = H.tensor("x", num, 2, 1, 2, lo=0., up=1.)
    Y = H.tensor("y", num, 2, 1, 2, lo=0.1, up=0.9)
    H.cover()
    got = L.reconstruction_loss(X, Y)
    H.eq("mean over the batch", got, recon(H, bce, H.vecl(X), H.vecl(Y)))


@case("C27", [D + "LatentSpaceDynamicsLearning.dynamics_loss"],
      params=[(v, e, f) for v in (False, True) for e in (False, True)
              for f in (False, True)], scope="2 images of 2 channels")
def latent_loss(H, variational, eq, full):
    """Encoding + prediction + divergence + equilibrium terms; a next
    image of half the channels follows the current one."""
    L, lyap, enc, dec = latent(H, 1, 1, eq, use_variational=variational)
    X = images(H, "x", 2, 2, 1, 2)
    Y = images(H, "y", 2, 2 if full else 1, 1, 2)
    parts = []

    def loss(a, b):
        parts.append(1)
        return torch.tensor(H.uninterp(
            "recon", *(H.vecl(a) + H.vecl(b))), dtype=F)

    def kl(mu, lv):
        return torch.tensor(H.uninterp(
            "kl", *(H.vecl(mu) + H.vecl(lv))), dtype=F)

    z = H.tensor("z", 2, 1)
    stub(L, reconstruction_loss=loss, kl_loss=kl)
    stub(L, reparam=lambda mu, lv: z)
    H.cover()
    got = L.dynamics_loss(X, Y)
    x, y = px(H, X), px(H, Y)
    mu = [enc.row("mu", r) for r in x]
    lv = [enc.row("lv", r) for r in x]
    zz = H.matl(z) if variational else mu
    want = H.uninterp("recon", *[v for r in x for v in r],
                      *[v for r in zz for v in dec.row("px", r)])
    nxt = [b if full else a[2:] + b for a, b in zip(x, y)]
    want = want + H.uninterp(
        "recon", *[v for r in nxt for v in r],
        *[v for r in zz for v in dec.row("px", lyap.system.row(r))])
    if variational:
        want = want + H.uninterp("kl", *[v for r in mu for v in r],
                                 *[v for r in lv for v in r])
    if eq:
        want = want + L.opt.decoded_equilibrium_loss_weight * H.uninterp(
            "recon", *H.vecl(L.decoded_equilibrium),
            *dec.row("px", H.vecl(lyap.system.x_equilibrium)))
    H.eq("loss", got, want)


@case("C27", [D + "LatentSpaceDynamicsLearning.rollout",
              D + "LatentSpaceDynamicsLearning.rollout_loss"],
      params=[(n, d, b) for n in (1, 2) for d in (False, True)
              for b in (False, True) if not (n == 1 and b)] +
      [(3, True, False)], scope="up to 3 steps, images of 2 pixels")
def latent_rollout(H, steps, decode, bce):
    L, lyap, enc, dec = latent(H, 2, use_bce=bce)
    X0 = H.tensor("x0", 2, 1, 2, lo=0., up=1.)
    H.cover()
    frames, zs = [H.vecl(X0[0]), H.vecl(X0[1])], [enc.row("mu", H.vecl(X0))]
    for k in range(steps):
        if decode:
            z = lyap.system.row(enc.row("mu", frames[k] + frames[k + 1]))
        else:
            z = lyap.system.row(zs[-1])
        zs.append(z)
        frames.append(dec.row("px", z)[2:])
    x, V, z = L.rollout(X0, steps, True) if decode else \
        L.rollout(X0, steps)
    H.shape("images", x, (steps + 2, 1, 1, 2))
    H.shape("latent states", z, (steps + 1, 2))
    H.eqv("frames", x, [v for f in frames for v in f])
    H.eqv("latent", z, [v for r in zs for v in r])
    H.eqv("values", V, [lyap.V(r) for r in zs])
    E = H.tensor("expected", steps, 1, 1, 2, lo=0., up=1.)
    E = torch.cat((X0[0:1].unsqueeze(0), X0[1:2].unsqueeze(0), E), dim=0)
    if bce:
        P = H.tensor("predicted", steps + 2, 1, 1, 2, lo=0.1, up=0.9)
        asked = []

        def predicted(x0, N, decode_intermediate=False):
            asked.append(decode_intermediate)
            return P, V, z

        stub(L, rollout=predicted)
    # from the latent states alone, unless asked otherwise
    loss = L.rollout_loss(E, True) if decode else L.rollout_loss(E)
    if bce:
        H.true("decoding as asked", [bool(v) for v in asked] == [decode])
    H.shape("losses", loss, (steps + 2, ))
    H.eqv("binary cross entropy" if bce else "L2", loss,
          [recon(H, bce, e, f)
           for e, f in zip(px(H, E), px(H, P) if bce else frames)])


# ----------------------------------------------------------------- training
class Run:
    """A learner and the history of its training."""

    def __init__(self, H, freq, nbatch, weights=None):
        self.H, self.version, self.due = H, 0, None
        self.log = []
        self.batches = [(H.tensor(f"x{i}", 2, 1), H.tensor(f"y{i}", 2, 1))
                        for i in range(nbatch)]
        self.val = [(H.tensor(f"vx{i}", 1 + i, 1),
                     H.tensor(f"vy{i}", 1 + i, 1)) for i in range(2)]
        self.L, self.lyap = learner(H, 1, self.batches, self.val,
                                    lyap_loss_freq=freq)
        self.all = list(self.lyap.lyapunov_relu.parameters()) + \
            list(self.lyap.system.dynamics_relu.parameters())
        self.training = True

    def loss(self, name):
        """A loss with any value and gradient."""
        H = self.H
        v = H.real(name)
        out = torch.tensor(v, dtype=F)
        g = []
        for i, p in enumerate(self.all):
            c = H.tensor(f"{name}.g{i}", *p.shape)
            g.append(H.vecl(c))
            out = out + torch.sum(c * (p - p.detach()))
        return out, v, g

    def adam(self):
        run, H = self, self.H

        class Adam:

            def __init__(self, groups, lr=1e-3):
                ps = []
                for g in list(groups):
                    ps += list(g["params"]) if isinstance(g, dict) else [g]
                H.true("trains the parameters", len(ps) == len(run.trained)
                       and all(a is b for a, b in zip(ps, run.trained)))
                self.ps = ps
                run.log.append("adam")

            def zero_grad(self, set_to_none=True):
                for p in self.ps:
                    p.grad = None

            def step(self, closure=None):
                H.true("a step is due", run.due is not None)
                for i, (p, g) in enumerate(zip(self.ps, run.due)):
                    H.eqv(f"step {run.version} gradient {i}",
                          p.grad.reshape((-1, )), g)
                run.due = None
                run.version += 1
                for i, p in enumerate(self.ps):
                    p.data.copy_(H.tensor(f"step{run.version}.{i}",
                                          *p.shape))

        return Adam


@case("C27", [D + "DynamicsLearning.train", D + "DynamicsLearning.log",
              D + "DynamicsLearning.reset_optimizer",
              D + "StateSpaceDynamicsLearning.get_trainable_parameters"],
      params=[(1, 1, 0, 0, False), (1, 2, 1, 0, True), (2, 2, 2, 1, False),
              (2, 1, 0, 0, True), (3, 1, 3, 2, False),
              (1, 3, 0, 0, True)],
      scope="up to 3 epochs of up to 3 batches; 4 parameters")
def training(H, epochs, nbatch, freq, save, validate):
    """Each batch one step along the gradient of its loss; every freq-th
    also one along that of the programs' loss."""
    R = Run(H, freq, nbatch)
    L = R.L
    R.trained = R.all
    state = dict(it=0, phase="dynamics", saved=[], vseen=[])
    gd = {}

    def dynamics(x, y):
        if not torch.is_grad_enabled():
            k = len(state["vseen"])
            state["vseen"].append(1)
            H.eqv("validation x", x, R.val[k % 2][0])
            H.eqv("validation y", y, R.val[k % 2][1])
            gd["v" + str(k)] = [H.real(f"v{k}.{i}") for i in range(4)]
            return torch.tensor(gd["v" + str(k)][0], dtype=F)
        it = state["it"]
        H.true(f"batch {it} in turn", R.due is None and
               state["phase"] == "dynamics")
        b = R.batches[it % nbatch]
        H.eqv(f"x of batch {it}", x, b[0])
        H.eqv(f"y of batch {it}", y, b[1])
        out, v, g = R.loss(f"dynamics{it}")
        gd["dyn"] = g
        gd["dyn value"] = v
        return out

    def samples(x):
        if not torch.is_grad_enabled() and not state.get("threshold"):
            return [torch.tensor(v, dtype=F) for v in
                    gd["v" + str(len(state["vseen"]) - 1)][1:]]
        it = state["it"]
        H.eqv(f"samples of batch {it}", x, R.batches[it % nbatch][0])
        if not torch.is_grad_enabled():
            gd["now"] = [H.real(f"threshold{it}.{i}") for i in range(3)]
            return [torch.tensor(v, dtype=F) for v in gd["now"]]
        ls = [R.loss(f"sample{it}.{i}") for i in range(3)]
        R.due = [[sum(q) for q in zip(*gs)] for gs in zip(
            gd["dyn"], *[g for _, _, g in ls])]
        if freq > 0 and it % freq == 0:
            state["threshold"] = True
        else:
            state["it"] += 1
        return [o for o, _, _ in ls]

    def by_program(lyap_pos_threshold=0., lyap_der_lo_threshold=0.,
                   lyap_der_up_threshold=0.):
        it = state["it"]
        H.true(f"programs are due {it}", state.get("threshold") and
               R.due is None)
        for i, t in enumerate((lyap_pos_threshold, lyap_der_lo_threshold,
                               lyap_der_up_threshold)):
            H.eq(f"threshold {it}.{i}", t, gd["now"][i])
        ls = [R.loss(f"program{it}.{i}") for i in range(3)]
        R.due = [[sum(q) for q in zip(*gs)] for gs in zip(
            *[g for _, _, g in ls])]
        state["threshold"] = False
        state["it"] += 1
        return [o for o, _, _ in ls]

    stub(L, dynamics_loss=dynamics, lyapunov_loss_at_samples=samples,
         lyapunov_loss=by_program,
         save=lambda path: state["saved"].append((path, R.version)))
    written = []

    class Writer:

        def add_scalar(self, name, value, it):
            written.append((name, value, it))

    H.cover()
    with patched(torch.optim, Adam=R.adam()), patched(
            dl, SummaryWriter=Writer):
        # neither validation nor files, unless asked for
        kw = dict(validate=True) if validate else {}
        if save:
            kw.update(save_rate=save, save_path="somewhere")
        L.train(epochs, **kw)
    n = epochs * nbatch
    extra = len([i for i in range(n) if freq > 0 and i % freq == 0])
    H.true("steps", R.version == n + extra and R.due is None)
    H.true("iterations", L.n_iter == n and state["it"] == n)
    H.true("one optimizer", R.log == ["adam"])
    it = 0
    want = []
    for e in range(epochs):
        for b in range(nbatch):
            it += 1
        v = it + len([i for i in range(it) if freq > 0 and i % freq == 0])
        if save and e % save == 0:
            want.append(("somewhere", v))
    if save:
        want.append(("somewhere", n + extra))
    H.true("saved", state["saved"] == want)
    if not validate:
        H.true("no validation", not state["vseen"])
        return
    H.true("validated", len(state["vseen"]) == 2 * epochs)
    names = ["Dynamics", "LyapunovPosSamples", "LyapunovDerSamples/low",
             "LyapunovDerSamples/up"]
    for e in range(epochs):
        for i, nm in enumerate(names):
            got = [v for k, v, t in written if k == nm + "/validate" and
                   t == (e + 1) * nbatch]
            H.true(f"logged {nm}", len(got) == 1)
            a, b = gd[f"v{2 * e}"][i], gd[f"v{2 * e + 1}"][i]
            H.eq(f"mean over the samples {nm} {e}", got[0],
                 (a + 2 * b) / 3)


@case("C27", [D + "DynamicsLearning.reset_optimizer",
              D + "DynamicsLearning.get_lyapunov_parameters",
              D + "LatentSpaceDynamicsLearning.get_trainable_parameters",
              D + "StateSpaceDynamicsLearning.get_trainable_parameters"],
      params=[(a, b) for a in (False, True) for b in (False, True)])
def trained(H, lyapunov_only, images_):
    if images_:
        L, lyap, enc, dec = latent(H)
        more = list(enc.parameters()) + list(dec.parameters())
    else:
        L, lyap = learner(H)
        more = []
    want = list(lyap.lyapunov_relu.parameters())
    if not lyapunov_only:
        want += list(lyap.system.dynamics_relu.parameters()) + more
    got = []

    def adam(groups, **k):
        H.true("default settings", not k)
        for g in groups:
            got.extend(list(g["params"]))

    L.n_iter = 7
    H.cover()
    with patched(torch.optim, Adam=adam), patched(
            dl, SummaryWriter=lambda: None):
        if lyapunov_only:
            L.reset_optimizer(True)
        else:
            L.reset_optimizer()
    H.true("parameters", len(got) == len(want) and
           all(a is b for a, b in zip(got, want)))
    H.true("from the start", L.n_iter == 0)


# ---------------------------------------------------------------- save, load
@case("C27", [D + "StateSpaceDynamicsLearning.save",
              D + "StateSpaceDynamicsLearning.load",
              D + "LatentSpaceDynamicsLearning.save",
              D + "LatentSpaceDynamicsLearning.load"],
      params=["states", "images", "images with equilibrium"],
      scope="pickle by contract: objects come back in the order written")
def save_load(H, what):
    if what == "states":
        L, lyap = learner(H)
    else:
        L, lyap, enc, dec = latent(H, eq=what.endswith("equilibrium"))
    files, handles = {}, []

    def dump(obj, fh, protocol=None):
        if not any(fh is g for g in handles):  # opened anew
            handles.append(fh)
            files[fh.name] = []
        files[fh.name].append(obj)

    def load(fh):
        return files[fh.name].pop(0)

    d = tempfile.mkdtemp()
    H.cover()
    try:
        path = os.path.join(d, "new")
        with patched(dl.pickle, dump=dump, load=load):
            for _ in range(2):  # anew, and over the old one
                L.save(path)
            H.true("one file", list(files) == [
                os.path.join(path, "dyn_learner.pkl")])
            M = type(L).load(path, "train", "validation", L.opt)
    finally:
        shutil.rmtree(d)
    H.true("kind", type(M) is type(L))
    H.true("everything is read", files == {list(files)[0]: []})
    H.true("same function", M.lyap is lyap and M.opt is L.opt)
    H.true("loaders", M.train_dataloader == "train" and
           M.validation_dataloader == "validation")
    if what != "states":
        H.true("coders", M.encoder is enc and M.decoder is dec)
        H.true("equilibrium", M.decoded_equilibrium is
               L.decoded_equilibrium)
