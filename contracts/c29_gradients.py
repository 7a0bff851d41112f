"""Encodings, programs, values and losses carry their gradients."""
import types
import gurobipy
import numpy as np
import torch
from engine.cases import case
from contracts.c_history import (net, weights, fixed, num, box, closed_loop,
                                 relu_dynamics, program, certificates,
                                  box_bounds, extremes)
from contracts.gradients import differentiates
from contracts.dyn import IA
from contracts.c10_hybrid import patched, AUTO
from contracts.c20_trainer import trainer, barrier_trainer, Solved
from contracts.c27_learning import options as learning_options, learner, \
    programs, Program, solve
from engine.stubs import stub
import neural_network_lyapunov.relu_to_optimization as rto

F = torch.float64
NS = types.SimpleNamespace


def params(*nets):
    return [p for n in nets for p in n.parameters()]


def leaky(m):
    """The same layers with leaky units between."""
    return torch.nn.Sequential(*[
        torch.nn.LeakyReLU(0.25) if isinstance(k, torch.nn.ReLU) else k
        for k in m])


@case("C29", ["relu_to_optimization.ReLUFreePattern.output_constraint"],
      params=[("relu", 1, 1, 1), ("leaky", 1, 1, 1), ("relu", 2, 1, 1),
              ("relu", 1, 2, 1), ("relu", 1, 1, 1, 1),
              ("leaky", 1, 1, 1, 1), ("relu", 1, 1, 2)],
      scope="the listed widths")
def output(H, act, *widths):
    m = net(weights(H, "net", widths))
    m = leaky(m) if act == "leaky" else m
    lo, up = box(H, "box", widths[0])
    differentiates(H, "constraint", lambda: rto.ReLUFreePattern(
        m, F).output_constraint(lo, up, IA), params(m))
    H.cover()


@case("C29", ["relu_to_optimization.ReLUFreePattern."
              "output_gradient_times_vector"],
      params=[("relu", 1, 1, 1), ("leaky", 1, 1, 1), ("relu", 2, 1, 1),
              ("relu", 1, 1, 1, 1), ("relu", 1, 2, 1)],
      scope="the listed widths")
def product(H, act, *widths):
    m = net(weights(H, "net", widths))
    m = leaky(m) if act == "leaky" else m
    lo, up = box(H, "y", widths[0])
    differentiates(H, "product", lambda: rto.ReLUFreePattern(
        m, F).output_gradient_times_vector(lo, up), params(m))
    H.cover()


@case("C29", ["relu_to_optimization.ReLUFreePattern.output_gradient",
              "relu_to_optimization.ReLUGivenActivationPattern"],
      params=[("relu", 1, 1, 1), ("relu", 2, 2, 1)],
      scope="the listed widths")
def pieces(H, act, *widths):
    m = net(weights(H, "net", widths))
    m = leaky(m) if act == "leaky" else m
    p = rto.ReLUFreePattern(m, F)
    on = [[bool(k % 2) for k in range(widths[1])]]
    differentiates(H, "pieces", lambda: (
        p.output_gradient(), rto.ReLUGivenActivationPattern(
            m, widths[0], on, F)), params(m))
    H.cover()


@case("C29", [f"relu_system.{c}.{f}" for c in (
    "AutonomousReLUSystem", "AutonomousReLUSystemGivenEquilibrium",
    "AutonomousResidualReLUSystemGivenEquilibrium", "ReLUSystem",
    "ReLUSystemGivenEquilibrium", "ReLUSecondOrderSystemGivenEquilibrium",
    "ReLUSecondOrderResidueSystemGivenEquilibrium") for f in (
        "step_forward", "possible_dx", "add_dynamics_constraint")],
      params=[(*k, w) for k in (
          ("auto", 1, 0), ("auto eq", 1, 0), ("auto res", 1, 0),
          ("plain", 1, 1), ("eq", 1, 1), ("second", 2, 1),
          ("residue", 2, 1)) for w in ("value", "program")],
      scope="networks of one hidden unit; the listed sizes")
def dynamics(H, kind, nx, nu, which):
    build, now, _ = relu_dynamics(H, kind, nx, nu)
    o = build(now)

    def value():
        a = (now.x, now.u) if nu else (now.x, )
        return o.step_forward(*a), o.possible_dx(*a)

    def encode():
        p, x, xn, u = program(nx, nu)
        r = o.add_dynamics_constraint(p, x, xn, *([u] if nu else []), "s",
                                      "b")
        return p, r

    differentiates(H, which, value if which == "value" else encode,
                   params(o.dynamics_relu))
    H.cover()


@case("C29", ["feedback_system.FeedbackSystem." + f for f in (
    "compute_u", "step_forward", "possible_dx",
    "add_dynamics_mip_constraint")],
      params=[(c, w) for c in ("net", "linear") for w in (
          "value", "program")],
      scope="one state and control, one hidden unit")
def feedback(H, ctrl, which):
    build, now, _ = closed_loop(H, ctrl)
    o = build(now)

    def value():
        return (o.compute_u(now.x), o.compute_u(now.X),
                o.step_forward(now.x), o.possible_dx(now.x))

    def encode():
        p, x, xn, _ = program(1)
        r = o.add_dynamics_mip_constraint(p, x, xn, "u", "fs", "fb", "cs",
                                          "cb")
        return p, r

    differentiates(H, which, value if which == "value" else encode,
                   params(o.controller_network,
                          o.forward_system.dynamics_relu))
    H.cover()


@case("C29", ["control_affine_system.ReluSecondOrderControlAffineSystem." +
              f for f in ("a", "b", "_mixed_integer_constraints_v")] +
      ["control_affine_system.SecondOrderControlAffineSystem." +
       "mixed_integer_constraints"],
      params=[(n, w) for n in ("a", "b") for w in ("value", "program")],
      scope="one position and control, one hidden unit")
def affine(H, which, what):
    nq = nu = 1
    import neural_network_lyapunov.control_affine_system as cas
    w = (2 * nq, 1, nq), (2 * nq, 1, nq * nu)
    a = net(weights(H, "phi_a", w[0]) if which == "a" else fixed(w[0], 1))
    b = net(weights(H, "phi_b", w[1]) if which == "b" else fixed(w[1], 4))
    x, u = H.tensor("x", 2 * nq), H.tensor("u", nu)
    one = torch.ones((2 * nq, ), dtype=F)

    def build():
        return cas.ReluSecondOrderControlAffineSystem(
            -2. * one, 3. * one, -one[:nu], one[:nu], a, b, IA)

    def value():
        o = build()
        return o.f(x), o.G(x), o.dynamics(x, u)

    differentiates(H, what, value if what == "value" else
                   lambda: build().mixed_integer_constraints(),
                   params(a if which == "a" else b))
    H.cover()


def certificate(H, kind, group, which, calls):
    build, now, _, _ = certificates(H, kind, group)
    o = build(now)
    P = params(o.lyapunov_relu if hasattr(o, "lyapunov_relu") else
               o.barrier_relu, o.system.dynamics_relu)
    if kind != "barrier":
        P.append(now.R)
    f = calls[which]
    differentiates(H, which, lambda: f(o, now), P)
    H.cover()


@case("C29", ["lyapunov.LyapunovHybridLinearSystem.lyapunov_value",
              "lyapunov.LyapunovHybridLinearSystem."
              "lyapunov_positivity_as_milp",
              "lyapunov.LyapunovHybridLinearSystem."
              "lyapunov_positivity_loss_at_samples",
              "lyapunov.LyapunovDiscreteTimeHybridSystem."
              "lyapunov_derivative_as_milp"] +
      ["lyapunov.LyapunovDiscreteTimeHybridSystem." + f for f in (
          "lyapunov_derivative_loss_at_samples",
          "lyapunov_derivative_loss_at_samples_and_next_states")],
      params=[(w, g) for w in ("value", "positivity", "ExpLower", "ExpUpper",
                               "Asymp", "bounded", "loss", "losses", "next",
                               "positivity loss", "terms",
                               "max", "4norm", "no R")
              for g in ("net", "args")],
      scope="one state, one hidden unit, R of two rows")
def lyapunov_discrete(H, which, group):
    import neural_network_lyapunov.lyapunov as lyapunov
    T = lyapunov.ConvergenceEps

    def derivative(o, s, e, **k):
        return o.lyapunov_derivative_as_milp(s.xeq, s.lam, s.eps, e, R=s.R,
                                             **k)

    def terms(o, s):
        p, x, _, _ = program(1)
        return p, o._lyapunov_value_as_milp(p, x, s.xeq, s.lam, s.R)

    def losses(o, s, reduction):
        return (o.lyapunov_positivity_loss_at_samples(
            s.xeq, s.x, s.lam, s.eps, R=s.R, reduction=reduction),
            o.lyapunov_derivative_loss_at_samples_and_next_states(
                s.lam, s.eps, s.x, s.X, s.xeq, T.ExpLower, R=s.R,
                reduction=reduction))

    certificate(H, "discrete", group, which, {
        "value": lambda o, s: (
            o.lyapunov_value(s.x[0], s.xeq, s.lam, R=s.R),
            o.lyapunov_value(s.x, s.xeq, s.lam, R=s.R),
            o.lyapunov_derivative(s.x[0], s.xeq, s.lam, s.eps, R=s.R)),
        "terms": lambda o, s: terms(o, s),
        "no R": lambda o, s: (
            o.lyapunov_value(s.x, s.xeq, s.lam),
            o.lyapunov_positivity_as_milp(s.xeq, s.lam, s.eps, R=None)),
        "max": lambda o, s: losses(o, s, "max"),
        "4norm": lambda o, s: losses(o, s, "4norm"),
        "positivity": lambda o, s: o.lyapunov_positivity_as_milp(
            s.xeq, s.lam, s.eps, R=s.R),
        "ExpLower": lambda o, s: derivative(o, s, T.ExpLower),
        "ExpUpper": lambda o, s: derivative(o, s, T.ExpUpper),
        "Asymp": lambda o, s: derivative(o, s, T.Asymp),
        "bounded": lambda o, s: derivative(
            o, s, T.ExpLower, lyapunov_lower=s.lo, lyapunov_upper=s.up),
        "positivity loss": lambda o, s: o.lyapunov_positivity_loss_at_samples(
            s.xeq, s.x, s.lam, s.eps, R=s.R),
        "loss": lambda o, s: o.lyapunov_derivative_loss_at_samples(
            s.lam, s.eps, s.x[:1], s.xeq, T.ExpLower, R=s.R),
        "losses": lambda o, s: [o.lyapunov_derivative_loss_at_samples(
            s.lam, s.eps, s.x[:1], s.xeq, e, R=s.R) for e in (
                T.ExpUpper, T.Asymp)],
        "next": lambda o, s:
        o.lyapunov_derivative_loss_at_samples_and_next_states(
            s.lam, s.eps, s.x, s.X, s.xeq, T.ExpLower, R=s.R)})


@case("C29", [f"continuous_time_lyapunov.LyapunovContinuousTimeSystem.{f}"
              for f in ("lyapunov_derivative", "lyapunov_derivative_as_milp",
                        "lyapunov_derivative_loss_at_samples_and_next_states"
                        )],
      params=[(w, g) for w in ("value", "program", "bounded", "loss")
              for g in ("net", "args")],
      scope="one state, one hidden unit, R of two rows")
def lyapunov_continuous(H, which, group):
    import neural_network_lyapunov.lyapunov as lyapunov
    T = lyapunov.ConvergenceEps
    certificate(H, "continuous", group, which, {
        "value": lambda o, s: o.lyapunov_derivative(
            s.x[0], s.xeq, s.lam, s.eps, R=s.R),
        "program": lambda o, s: o.lyapunov_derivative_as_milp(
            s.xeq, s.lam, s.eps, T.ExpLower, R=s.R),
        "bounded": lambda o, s: o.lyapunov_derivative_as_milp(
            s.xeq, s.lam, s.eps, T.ExpLower, R=s.R, lyapunov_lower=s.lo,
            lyapunov_upper=s.up),
        "loss": lambda o, s:
        o.lyapunov_derivative_loss_at_samples_and_next_states(
            s.lam, s.eps, s.x[:1], s.X[:1], s.xeq, T.ExpLower, R=s.R)})


@case("C29", ["barrier.Barrier.value", "barrier.Barrier.value_as_milp",
              "barrier.DiscreteTimeBarrier.derivative",
              "barrier.DiscreteTimeBarrier.derivative_as_milp",
              "barrier.DiscreteTimeBarrier."
              "derivative_loss_at_samples_and_next_states"],
      params=[(w, g) for w in ("value", "safe", "unsafe", "derivative",
                               "loss") for g in ("net", "args")],
      scope="one state, one hidden unit")
def barriers(H, which, group):
    import neural_network_lyapunov.gurobi_torch_mip as gtm

    def region(o, s):
        r = gtm.MixedIntegerConstraintsReturn()
        r.Ain_input = num([1.], [-1.])
        r.rhs_in = torch.stack((s.X[0, 0], s.X[0, 0] + 1.))
        return o.value_as_milp(s.xeq, s.c, r, which == "safe")

    certificate(H, "barrier", group, which, {
        "value": lambda o, s: (
            o.value(s.x[0], s.xeq, s.c), o.value(s.x, s.xeq, s.c),
            o.derivative(s.x[0], s.xeq, s.c, s.eps)),
        "safe": region, "unsafe": region,
        "derivative": lambda o, s: o.derivative_as_milp(
            s.xeq, s.c, s.eps),
        "loss": lambda o, s: o.derivative_loss_at_samples_and_next_states(
            s.xeq, s.c, s.eps, s.x, s.X)})


@case("C29", ["lyapunov.LyapunovDiscreteTimeHybridSystem."
              "_construct_milp_for_roa", "lyapunov.LyapunovHybridLinearSystem."
              "_construct_milp_for_roa_boundary"],
      params=[(w, g) for w in ("inside", "outside", "boundary")
              for g in ("net", "args")],
      scope="one state, one hidden unit, R of two rows")
def region_of_attraction(H, which, group):
    calls = {
        "boundary": lambda o, s: o._construct_milp_for_roa_boundary(
            s.lam, s.R, s.xeq)}
    for n in ("inside", "outside"):
        calls[n] = lambda o, s: o._construct_milp_for_roa(
            s.lam, s.R, s.xeq, num(-4.), num(5.), which == "inside")
    certificate(H, "discrete", group, which, calls)


@case("C29", ["r_options.SearchRwithSPDOptions.R",
              "r_options.SearchRwithSVDOptions.R",
              "r_options.SearchRfreeOptions.R"],
      params=[("SPD", 2, 1), ("SPD", 2, 2), ("SPD", 3, 2), ("SVD", 2, 1),
              ("SVD", 2, 2), ("free", 2, 1)], scope="the listed sizes of R")
def options(H, kind, m, n):
    import neural_network_lyapunov.r_options as r_options
    eps = H.real("epsilon", 0.)
    H.assume(eps > 0.)
    if kind == "SPD":
        o = r_options.SearchRwithSPDOptions((m, n), eps)
    elif kind == "SVD":
        o = r_options.SearchRwithSVDOptions(
            (m, n), np.array([0.5, 0.25][:min(m, n)]))
    else:
        o = r_options.SearchRfreeOptions((m, n))
    P = list(o.variables())
    for i, v in enumerate(P):
        with torch.no_grad():
            v.data.copy_(H.tensor(f"v{i}", *v.shape))
    differentiates(H, "R", o.R, P)
    H.cover()


@case("C29", ["continuous_time_lyapunov.LyapunovContinuousTimeHybridSystem."
              + f for f in ("lyapunov_derivative_as_milp",
                            "lyapunov_derivative_as_milp2",
                            "lyapunov_derivative",
                            "lyapunov_derivative_loss_at_samples",
                            "lyapunov_derivative_loss_at_samples_and_next_"
                            "states")],
      params=["program", "bounded", "second", "value", "loss", "next"],
      scope="one state, two modes, one hidden unit")
def hybrid(H, which):
    import neural_network_lyapunov.hybrid_linear_system as hls
    import neural_network_lyapunov.continuous_time_lyapunov as ctl
    import neural_network_lyapunov.lyapunov as lyapunov
    import neural_network_lyapunov.utils as utils
    T = lyapunov.ConvergenceEps.ExpLower
    s = hls.AutonomousHybridLinearSystem(1, F)
    stub(s, **{AUTO: lambda i: extremes(H, s, i)})
    eye = num([1.], [-1.])
    with patched(utils, compute_bounds_from_polytope=box_bounds):
        s.add_mode(num([-0.5]), num(0.25), eye, num(0., 1.))
        s.add_mode(num([0.75]), num(0.125), eye, num(2., 0.))
    V = net(weights(H, "V", (1, 1, 1)))
    d = ctl.LyapunovContinuousTimeHybridSystem(s, V)
    xeq, lam, eps = num(0.5), 0.625, 0.75
    x, X = num([0.25], [-0.75]), num([0.375], [0.5])
    args = (xeq, lam, eps, T)
    calls = {
        "program": lambda: d.lyapunov_derivative_as_milp(*args, R=None),
        "bounded": lambda: d.lyapunov_derivative_as_milp(
            *args, R=None, lyapunov_lower=-0.5, lyapunov_upper=2.),
        "second": lambda: d.lyapunov_derivative_as_milp2(*args, R=None),
        "value": lambda: d.lyapunov_derivative(x[0], xeq, lam, eps, None),
        "loss": lambda: d.lyapunov_derivative_loss_at_samples(
            lam, eps, x, xeq, T, R=None),
        "next": lambda:
        d.lyapunov_derivative_loss_at_samples_and_next_states(
            lam, eps, x, X, xeq, T, R=None)}
    with patched(utils, compute_bounds_from_polytope=box_bounds):
        differentiates(H, which, calls[which], params(V))
    H.cover()


class Differentiable(Solved):
    """A solved program of a differentiable objective."""

    def compute_objective_from_mip_data_and_solution(self, *a, **k):
        super().compute_objective_from_mip_data_and_solution(*a, **k)
        return self.theta


@case("C29", ["train_lyapunov_barrier.Trainer.total_loss"],
      scope="one state, all terms")
def total(H):
    nx = 1
    t = trainer(H, nx)
    P = H.tensor("losses", 5)
    m = {}
    for i, n in enumerate(("positivity", "derivative")):
        m[n] = Differentiable(H, n, nx, 1)
        m[n].optimize()
    S = H.tensor("states", 3, nx)
    w = [H.real(f"weight{i}") for i in range(5)]

    def compute():
        for i, n in enumerate(("positivity", "derivative")):
            m[n].theta = P[2 + i]
        t.solve_positivity_mip = lambda: (
            m["positivity"], m["positivity"].obj[0], S[:1])
        t.solve_lyap_derivative_mip = lambda: (
            m["derivative"], m["derivative"].obj[0], S[:1], S[1:2])
        t.solve_boundary_gap_mip = lambda: (P[4], 0., 1., S[0], S[1])
        stub(t, lyapunov_sample_loss=lambda *a, **k: (P[0], P[1]))
        r = t.total_loss(S, S, S, *w)
        L = r.lyap_loss
        return (r.loss, L.positivity_sample_loss, L.derivative_sample_loss,
                L.positivity_mip_loss, L.derivative_mip_loss, L.gap_mip_loss)

    differentiates(H, "loss", compute, [P])
    H.cover()


@case("C29", ["train_lyapunov_barrier.Trainer.solve_boundary_gap_mip"],
      scope="one state, one hidden unit; the optima by contract")
def boundary_gap(H):
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    import neural_network_lyapunov.lyapunov as lyapunov
    import neural_network_lyapunov.relu_system as rs
    import neural_network_lyapunov.train_lyapunov_barrier as training
    system = rs.AutonomousReLUSystemGivenEquilibrium(
        F, num(-2.), num(3.), net(fixed((1, 1, 1), 2)), num(0.25))
    t = training.Trainer()
    t.lyapunov_hybrid_system = lyapunov.LyapunovDiscreteTimeHybridSystem(
        system, net(fixed((1, 1, 1), 4)))
    t.x_equilibrium, t.V_lambda = num(0.25), 0.375
    t.R_options = NS(R=lambda: num([0.5]))
    P = H.tensor("optima", 2)

    def optimize(m, callback=None):
        m.status = gurobipy.GRB.Status.OPTIMAL
        m._sols = [(0.5, [0.] * len(m.getVars()))]
        m.solCount = 1

    def optimum(self, solution_number=0, active_constraint_tolerance=1e-6,
                penalty=0.):
        return P[0 if self.gurobi_model.ModelSense ==
                 gurobipy.GRB.MAXIMIZE else 1]

    def gap():
        with patched(gurobipy.Model, optimize=optimize), patched(
                gtm.GurobiTorchMILP,
                compute_objective_from_mip_data_and_solution=optimum):
            return t.solve_boundary_gap_mip()[0]

    differentiates(H, "gap", gap, [P])
    H.cover()


@case("C29", ["dynamics_learning.DynamicsLearning.lyapunov_loss"],
      params=[(o, w) for o in (True, False) for w in (True, False)],
      scope="one state; the optima by contract")
def learned_programs(H, optimal, warm):
    L, lyap = learner(H, 1, lyap_loss_optimal=optimal,
                      lyap_loss_warmstart=warm)
    P = H.tensor("optima", 3)
    now = [H.real(f"objective{i}") for i in range(3)]

    def losses():
        programs(H, lyap, L.opt, lambda nm: Program(
            H, nm, [(now["PLU".index(nm)], [0.5])], P["PLU".index(nm)]))
        with patched(gurobipy.Model, optimize=solve):
            return L.lyapunov_loss()

    differentiates(H, "losses", losses, [P])
    H.cover()


@case("C29", ["train_lyapunov_barrier.Trainer.compute_barrier_loss"],
      scope="one state, two regions")
def barrier_terms(H):
    nx = 1
    t = barrier_trainer(H, nx)
    P = H.tensor("losses", 5)
    S = H.tensor("states", 3, nx)
    m = [Differentiable(H, f"program{i}", nx, 1) for i in range(5)]
    for k in m:
        k.optimize()
    w = [H.real(f"weight{i}") for i in range(6)]
    for k in w:
        H.assume(k != 0)

    def compute():
        for i in range(5):
            m[i].theta = P[i]
        stub(t, solve_barrier_value_mip=lambda safe_flag: (
            m[:2] if safe_flag else m[2:4],
            [k.obj[0] for k in (m[:2] if safe_flag else m[2:4])],
            [S[:1], S[1:]]))
        t.solve_barrier_derivative_mip = lambda: (m[4], m[4].obj[0], S[:1])
        stub(t, barrier_sample_loss=lambda *a, **k: (P[0], P[1], P[2]))
        r = t.compute_barrier_loss(S, S, S, *w)
        return (r.safe_sample_loss, r.unsafe_sample_loss,
                r.derivative_sample_loss, r.safe_mip_loss,
                r.unsafe_mip_loss, r.derivative_mip_loss)

    differentiates(H, "losses", compute, [P])
    H.cover()


@case("C29", ["train_lyapunov_barrier.Trainer.lyapunov_sample_loss",
              "train_lyapunov_barrier.Trainer.barrier_sample_loss"],
      params=["lyapunov", "barrier"],
      scope="one state, one hidden unit, two samples")
def sample_losses(H, which):
    import neural_network_lyapunov.train_lyapunov_barrier as tlb
    import neural_network_lyapunov.lyapunov as lyapunov
    import neural_network_lyapunov.r_options as r_options
    build, now, _, _ = certificates(
        H, "barrier" if which == "barrier" else "discrete", "net")
    o = build(now)
    t = tlb.Trainer()
    if which == "barrier":
        t.add_barrier(o, now.xeq, now.c, now.eps)
        P = params(o.barrier_relu, o.system.dynamics_relu)

        def f():
            return t.barrier_sample_loss(now.x, now.X, now.x, 0.5, 0.75,
                                         1.25)
    else:
        R = r_options.SearchRfreeOptions((2, 1))
        with torch.no_grad():
            R.variables()[0].data.copy_(now.R)
        t.add_lyapunov(o, now.lam, now.xeq, R)
        t.lyapunov_positivity_epsilon = 0.375
        t.lyapunov_derivative_epsilon = 0.25
        t.lyapunov_derivative_eps_type = lyapunov.ConvergenceEps.ExpLower
        P = params(o.lyapunov_relu, o.system.dynamics_relu) + list(
            R.variables())

        def f():
            return t.lyapunov_sample_loss(
                now.x, now.x, o.system.step_forward(now.x), 0.5, 0.75)
    differentiates(H, which, f, P)
    H.cover()


@case("C29", ["dynamics_learning.StateSpaceDynamicsLearning."
              "lyapunov_loss_at_samples",
              "dynamics_learning.StateSpaceDynamicsLearning.dynamics_loss",
              "dynamics_learning.LatentSpaceDynamicsLearning."
              "lyapunov_loss_at_samples",
              "dynamics_learning.LatentSpaceDynamicsLearning.dynamics_loss"],
      params=[(w, f) for w in ("state", "latent", "variational")
              for f in ("dynamics", "samples")],
      scope="one (latent) state, one hidden unit, two samples")
def learning(H, which, what):
    import neural_network_lyapunov.dynamics_learning as dl
    import neural_network_lyapunov.lyapunov as lyapunov
    import neural_network_lyapunov.relu_system as rs
    free = ("dynamics", ) if which == "state" else ("encoder", "decoder") \
        if what == "dynamics" else ("encoder", )
    W = weights(H, "dynamics", (1, 1, 1)) if "dynamics" in free else \
        fixed((1, 1, 1), 2)
    system = rs.AutonomousReLUSystemGivenEquilibrium(
        F, num(-2.), num(3.), net(W), num(0.25))
    lyap = lyapunov.LyapunovDiscreteTimeHybridSystem(
        system, net(fixed((1, 1, 1), 4)))
    lo, up = num(-1.5), num(1.75)
    opt = learning_options(H, 1, x_lo_stable=lo, x_up_stable=up,
                           z_lo_stable=lo, z_up_stable=up, z_dim=1,
                           use_variational=which == "variational",
                           use_bce=False, image_width=1, image_height=2,
                           decoded_equilibrium_loss_weight=0.5,
                           V_lambda=0.375, V_eps_pos=0.25, V_eps_der_lo=0.125,
                           V_eps_der_up=0.75, R=num([0.5]))
    P = params(system.dynamics_relu, lyap.lyapunov_relu)
    if which == "state":
        L = dl.StateSpaceDynamicsLearning((), (), lyap, opt)
        x, y = num([0.25], [-0.75]), num([0.5], [-0.25])
    else:
        L = latent_learner(H, lyap, opt, free)
        P += list(L.encoder.parameters()) + list(L.decoder.parameters())
        x = torch.tensor([[[[0.25, 0.75]], [[0.5, 0.125]]],
                          [[[0.625, 0.375]], [[0.875, 0.0625]]]], dtype=F)
        y = x[:, 1:]
        noise = num([0.375], [-0.25])
        stub(L, reparam=lambda mu, lv: mu + noise * torch.exp(0.5 * lv),
             kl_loss_weight=lambda n: 0.5)
    differentiates(H, what, (lambda: L.dynamics_loss(x, y))
                   if what == "dynamics" else
                   (lambda: L.lyapunov_loss_at_samples(x)), P)
    H.cover()


class Encoder:
    """Linear mean and variance of a picture of 2 x 2 pixels."""

    def __init__(self, W):
        self.mu, self.lv = (net([w])[0] for w in W)

    def type(self, dtype):
        return self

    def parameters(self):
        return list(self.mu.parameters()) + list(self.lv.parameters())

    def __call__(self, x):
        v = x.reshape((x.shape[0], 4))
        return self.mu(v), self.lv(v)


class Decoder:

    def __init__(self, W):
        self.px = net([W])[0]

    def type(self, dtype):
        return self

    def parameters(self):
        return list(self.px.parameters())

    def __call__(self, z):
        return self.px(z).reshape((z.shape[0], 2, 1, 2))

    forward = __call__


def latent_learner(H, lyap, opt, free):
    import neural_network_lyapunov.dynamics_learning as dl
    e = [weights(H, n, (4, 1))[0] if "encoder" in free else
         fixed((4, 1), k)[0] for k, n in enumerate(("mu", "lv"))]
    d = weights(H, "px", (1, 4))[0] if "decoder" in free else \
        fixed((1, 4), 3)[0]
    E = torch.tensor([[[0.25, 0.5]], [[0.75, 0.125]]], dtype=F)
    return dl.LatentSpaceDynamicsLearning(
        (), (), lyap, opt, Encoder(e), Decoder(d), decoded_equilibrium=E)
