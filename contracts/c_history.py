"""Contracts over histories: training, changed arguments and repeated calls
(see contracts/history.py)."""
import types
import numpy as np
import torch
import gurobipy
from engine.cases import case
from engine.stubs import stub
from contracts.c10_hybrid import patched, AUTO
from contracts.dyn import IA
from contracts.history import net, weights, fixed, train, replay, Refusing
import neural_network_lyapunov.relu_to_optimization as rto

F = torch.float64
G = gurobipy.GRB
NS = types.SimpleNamespace


def num(*v):
    return torch.tensor(v, dtype=F)


def box(H, name, n):
    lo = H.tensor(name + ".lo", n)
    return lo, lo + H.tensor(name + ".width", n, lo=0.)


@case("C01", ["relu_to_optimization.ReLUFreePattern.output_constraint"],
      params=[(1, 1, 1), (2, 1, 1)], scope="the listed widths")
def history(H, *widths):
    now = NS(W=weights(H, "net", widths), box=box(H, "box", widths[0]))
    n = widths[0]
    before = NS(W=fixed(widths), box=(num(*[-3.] * n), num(*[2.] * n)))

    def build(s):
        m = net(s.W)
        return NS(net=m, pattern=rto.ReLUFreePattern(m, F))

    replay(H, build, now, before, [
        ("constraint", lambda o, s: o.pattern.output_constraint(*s.box, IA))],
        lambda o, s: train(o.net, s.W))


@case("C05", ["relu_to_optimization.ReLUFreePattern."
              "output_gradient_times_vector"],
      params=[(1, 1, 1), (2, 1, 1)], scope="the listed widths")
def gradient_history(H, *widths):
    now = NS(W=weights(H, "net", widths), y=box(H, "y", widths[0]))
    n = widths[0]
    before = NS(W=fixed(widths), y=(num(*[-3.] * n), num(*[2.] * n)))

    def build(s):
        m = net(s.W)
        return NS(net=m, pattern=rto.ReLUFreePattern(m, F))

    replay(H, build, now, before, [
        ("product", lambda o, s: o.pattern.output_gradient_times_vector(
            *s.y))], lambda o, s: train(o.net, s.W))


@case("C06", ["relu_to_optimization.ComputeReLUActivationPattern",
              "relu_to_optimization.ReLUGivenActivationPattern",
              "relu_to_optimization.compute_all_relu_activation_patterns",
              "relu_to_optimization.ReLUFreePattern.output_gradient",
              "relu_to_optimization.ReLUFreePattern."
              "compute_relu_unit_outputs_and_activation"],
      params=[(1, 1, 1), (2, 1, 1), (1, 2, 1)], scope="the listed widths")
def pattern_history(H, *widths):
    n, m = widths[0], widths[1]
    now = NS(W=weights(H, "net", widths), x=H.tensor("x", n),
             on=[[bool(k % 2) for k in range(m)]])
    before = NS(W=fixed(widths), x=num(*[0.75] * n),
                on=[[not k for k in now.on[0]]])

    def build(s):
        k = net(s.W)
        return NS(net=k, pattern=rto.ReLUFreePattern(k, F))

    replay(H, build, now, before, [
        ("pattern", lambda o, s: rto.ComputeReLUActivationPattern(
            o.net, s.x)),
        ("patterns", lambda o, s: rto.compute_all_relu_activation_patterns(
            o.net, s.x)),
        ("affine", lambda o, s: rto.ReLUGivenActivationPattern(
            o.net, n, s.on, F)),
        ("units", lambda o, s:
         o.pattern.compute_relu_unit_outputs_and_activation(s.x)),
        ("gradient", lambda o, s: o.pattern.output_gradient())],
        lambda o, s: train(o.net, s.W))


def box_bounds(P, q, i):
    """compute_bounds_from_polytope for [I; -I] v <= q."""
    n = P.shape[1]
    return -q[n + i].item(), q[i].item()


def mode(H, name, nx, nu):
    n = nx + nu
    lo = H.tensor(name + ".lo", n)
    up = lo + H.tensor(name + ".width", n, lo=0.)
    return dict(A=H.tensor(name + ".A", nx, nx),
                B=H.tensor(name + ".B", nx, nu), c=H.tensor(name + ".c", nx),
                P=torch.cat((torch.eye(n, dtype=F), -torch.eye(n, dtype=F))),
                q=torch.cat((up, -lo)))


def extremes(H, o, i):
    """The range of A x over a box (one dimension)."""
    A, q = H.el(o.A[i], 0, 0), H.vecl(o.q[i])
    a, b = A * q[0], -A * q[1]
    return np.array([H.min(a, b)]), np.array([H.max(a, b)])


def add_mode(s, m):
    s.add_mode(*([m["A"], m["B"]] if hasattr(s, "u_dim") else [m["A"]]),
               m["c"], m["P"], m["q"])


@case("C10", ["hybrid_linear_system." + c + "." + f for c in (
    "HybridLinearSystem", "AutonomousHybridLinearSystem") for f in (
        "mixed_integer_constraints", "add_mode", "mode", "step_forward",
        "possible_dx", "add_dynamics_constraint")],
      params=[(1, 1), (1, 0)], scope="states and inputs of size 1; modes "
      "added one after another, up to 2")
def history(H, nx, nu):
    import neural_network_lyapunov.hybrid_linear_system as hls
    import neural_network_lyapunov.utils as utils
    modes = [mode(H, f"m{k}", nx, nu) for k in range(2)]
    x, u = H.tensor("x", nx), H.tensor("u", nu)
    given = [box(H, "given", nx), box(H, "given_u", nu)]
    now = NS(modes=modes, x=x, u=u, box=given[0] + (given[1] if nu else ()))
    before = NS(modes=modes[:1], x=num(*[0.5] * nx), u=num(*[0.25] * nu),
                box=[num(*[-2. + 3. * (k % 2)] * (nx if k < 2 else nu))
                     for k in range(4 if nu else 2)])

    def build(s):
        o = hls.HybridLinearSystem(nx, nu, F) if nu else \
            hls.AutonomousHybridLinearSystem(nx, F)
        if not nu:
            stub(o, **{AUTO: lambda i: extremes(H, o, i)})
        for m in s.modes:
            add_mode(o, m)
        return o

    def at(f):
        return Refusing(lambda o, s: getattr(o, f)(
            *((s.x, s.u) if nu else (s.x, ))))

    def move(o, s):
        for m in s.modes[o.num_modes:]:
            add_mode(o, m)

    with patched(utils, compute_bounds_from_polytope=box_bounds):
        replay(H, build, now, before, [
            ("constraints", lambda o, s: o.mixed_integer_constraints()),
            ("in a box", Refusing(
                lambda o, s: o.mixed_integer_constraints(*s.box))),
            *([] if nu else [("derivatives", lambda o, s: [
                o.mode_derivative_bounds(k) for k in range(o.num_modes)])]),
            ("mode", at("mode")), ("step", at("step_forward")),
            ("directions", at("possible_dx")),
            ("ranges", lambda o, s: (o.x_lo_all, o.x_up_all))], move)


def relu_dynamics(H, kind, nx, nu):
    """(build, now, before): a system of real networks, with or without an
    equilibrium."""
    import neural_network_lyapunov.relu_system as rs
    nin = nx + nu
    nout = nx
    ones = torch.ones((nx, ), dtype=F)
    uo = torch.ones((nu, ), dtype=F)
    if kind in ("second", "residue"):
        nout = nx // 2
    eq = num(*[0.25] * nx)
    ueq = num(*[0.125] * nu)
    if kind == "second":
        eq = torch.cat((eq[:nout], torch.zeros((nout, ), dtype=F)))
    widths = (nin, 1, nout)
    now = NS(W=weights(H, "net", widths), x=H.tensor("x", nx),
             u=H.tensor("u", nu))
    before = NS(W=fixed(widths), x=num(*[0.75] * nx), u=num(*[-0.5] * nu))

    def build(s):
        m = net(s.W)
        lo, up = -2. * ones, 3. * ones
        if kind == "auto":
            return rs.AutonomousReLUSystem(F, lo, up, m)
        if kind == "auto eq":
            return rs.AutonomousReLUSystemGivenEquilibrium(F, lo, up, m, eq)
        if kind == "auto res":
            return rs.AutonomousResidualReLUSystemGivenEquilibrium(
                F, lo, up, m, eq)
        if kind == "plain":
            return rs.ReLUSystem(F, lo, up, -uo, 2. * uo, m)
        if kind == "eq":
            return rs.ReLUSystemGivenEquilibrium(F, lo, up, -uo, 2. * uo, m,
                                                 eq, ueq, True)
        if kind == "second":
            return rs.ReLUSecondOrderSystemGivenEquilibrium(
                F, lo, up, -uo, 2. * uo, m, eq[:nout], ueq, 0.5)
        return rs.ReLUSecondOrderResidueSystemGivenEquilibrium(
            F, lo, up, -uo, 2. * uo, m, eq[:nout], ueq, 0.5,
            list(range(nx)))

    return build, now, before


def program(nx, nu=0):
    """A new program with states, next states and controls."""
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    p = gtm.GurobiTorchMILP(F)
    return (p, ) + tuple(p.addVars(n, lb=-G.INFINITY) for n in (nx, nx, nu))


@case("C11", [f"relu_system.{c}.{f}" for c in (
    "AutonomousReLUSystem", "AutonomousReLUSystemGivenEquilibrium",
    "AutonomousResidualReLUSystemGivenEquilibrium", "ReLUSystem",
    "ReLUSystemGivenEquilibrium", "ReLUSecondOrderSystemGivenEquilibrium",
    "ReLUSecondOrderResidueSystemGivenEquilibrium") for f in (
        "step_forward", "possible_dx", "add_dynamics_constraint")],
      params=[("auto", 1, 0), ("auto eq", 1, 0), ("auto res", 1, 0),
              ("plain", 1, 1), ("eq", 1, 1), ("second", 2, 1),
              ("residue", 2, 1)],
      scope="networks of one hidden unit; the listed sizes")
def history(H, kind, nx, nu):
    build, now, before = relu_dynamics(H, kind, nx, nu)

    def at(f):
        return lambda o, s: getattr(o, f)(*((s.x, s.u) if nu else (s.x, )))

    def encode(o, s):
        p, x, xn, u = program(nx, nu)
        o.add_dynamics_constraint(p, x, xn, *([u] if nu else []), "s", "b")
        return p

    replay(H, build, now, before, [
        ("step", at("step_forward")), ("directions", at("possible_dx")),
        ("program", encode)], lambda o, s: train(o.dynamics_relu, s.W))


def closed_loop(H, ctrl, nx=1):
    import neural_network_lyapunov.feedback_system as fs
    import neural_network_lyapunov.relu_system as rs
    widths = (nx, 1, 1) if ctrl == "net" else (nx, 1)
    now = NS(W=weights(H, "controller", widths), x=H.tensor("x", nx),
             X=H.tensor("X", 2, nx))
    before = NS(W=fixed(widths), x=num(*[0.75] * nx),
                X=num([0.5] * nx, [-0.5] * nx))

    def build(s):
        one = torch.ones((nx, ), dtype=F)
        eq = 0.25 * one
        plant = rs.ReLUSystemGivenEquilibrium(
            F, -2. * one, 3. * one, -one[:1], 2. * one[:1],
            net(fixed((nx + 1, 1, nx), 2)), eq, num(0.125), True)
        m = net(s.W)
        return fs.FeedbackSystem(
            plant, m if ctrl == "net" else m[0], eq, num(0.125),
            np.array([-1.]), np.array([1.5]))

    return build, now, before


@case("C12", ["feedback_system.FeedbackSystem." + f for f in (
    "compute_u", "step_forward", "possible_dx",
    "add_dynamics_mip_constraint")], params=["net", "linear"],
      scope="one state and control, one hidden unit")
def history(H, ctrl):
    build, now, before = closed_loop(H, ctrl)

    def encode(o, s):
        p, x, xn, _ = program(1)
        o.add_dynamics_mip_constraint(p, x, xn, "u", "fs", "fb", "cs", "cb")
        return p

    replay(H, build, now, before, [
        ("control", lambda o, s: o.compute_u(s.x)),
        ("controls", lambda o, s: o.compute_u(s.X)),
        ("step", lambda o, s: o.step_forward(s.x)),
        ("directions", lambda o, s: o.possible_dx(s.x)),
        ("program", encode)], lambda o, s: train(
            o.controller_network, s.W))


@case("C13", ["control_affine_system.ReluSecondOrderControlAffineSystem." +
              f for f in ("a", "b", "_mixed_integer_constraints_v")] +
      ["control_affine_system.SecondOrderControlAffineSystem." +
       "mixed_integer_constraints"], params=["a", "b"],
      scope="one position and control, one hidden unit")
def history(H, which):
    nq = nu = 1
    import neural_network_lyapunov.control_affine_system as cas
    w = (2 * nq, 1, nq), (2 * nq, 1, nq * nu)
    now = NS(a=weights(H, "phi_a", w[0]) if which == "a" else fixed(w[0], 1),
             b=weights(H, "phi_b", w[1]) if which == "b" else fixed(w[1], 4),
             x=H.tensor("x", 2 * nq), u=H.tensor("u", nu))
    before = NS(a=fixed(w[0]), b=fixed(w[1], 3), x=num(*[0.5] * (2 * nq)),
                u=num(*[0.25] * nu))

    def build(s):
        one = torch.ones((2 * nq, ), dtype=F)
        return cas.ReluSecondOrderControlAffineSystem(
            -2. * one, 3. * one, -one[:nu], one[:nu], net(s.a), net(s.b), IA)

    def move(o, s):
        train(o.phi_a, s.a)
        train(o.phi_b, s.b)

    replay(H, build, now, before, [
        ("f", lambda o, s: o.f(s.x)), ("G", lambda o, s: o.G(s.x)),
        ("dynamics", lambda o, s: o.dynamics(s.x, s.u)),
        ("constraints", lambda o, s: o.mixed_integer_constraints())], move)


def certificates(H, kind, group):
    """(build, now, before, move) of a Lyapunov function or barrier for a
    closed loop. All of the arguments and weights change; those of the group
    become any values ("net": the certificate's weights; "args": what it is
    asked with)."""
    import neural_network_lyapunov.lyapunov as lyapunov
    import neural_network_lyapunov.barrier as barrier
    import neural_network_lyapunov.continuous_time_lyapunov as ct
    import neural_network_lyapunov.relu_system as rs
    nx = 1
    widths = (nx, 1, 1)

    def real(name, value, **k):
        return H.real(name, **k) if group == "args" else value

    def tensor(name, value, **k):
        return H.tensor(name, *value.shape, **k) if group == "args" else value

    lam, c = real("lambda", 0.625), real("c", 0.375)
    if group == "args":
        H.assume(lam > 0.)
        H.assume(c > 0.)
    lo = real("V.lo", -0.25)
    up = lo + real("V.width", 1.5, lo=0.)
    now = NS(V=weights(H, "V", widths) if group == "net" else
             fixed(widths, 7), plant=fixed((nx, 1, nx), 5),
             x=tensor("x", num([0.25], [-0.75])),
             X=tensor("next", num([0.375], [-0.5])),
             xeq=tensor("xeq", num(0.5), lo=-2., up=3.), lam=lam, c=c,
             R=tensor("R", num([1.5], [-0.5])), eps=real("epsilon", 0.75),
             lo=lo, up=up, xdot=tensor("xdot", num(0.25)))
    before = NS(V=fixed(widths), plant=fixed((nx, 1, nx), 2),
                x=num([0.75], [-0.5]), X=num([0.5], [-0.25]),
                xeq=num(0.25), lam=0.5, c=0.25,
                R=num([0.5], [0.75]), eps=0.125, lo=-0.5, up=2.,
                xdot=num(-0.5))

    def build(s):
        plant = rs.AutonomousReLUSystem(F, num(-2.), num(3.), net(s.plant))
        cls = dict(discrete=lyapunov.LyapunovDiscreteTimeHybridSystem,
                   continuous=ct.LyapunovContinuousTimeSystem,
                   barrier=barrier.DiscreteTimeBarrier)[kind]
        return cls(plant, net(s.V))

    def move(o, s):
        train(o.lyapunov_relu if hasattr(o, "lyapunov_relu") else
              o.barrier_relu, s.V)
        train(o.system.dynamics_relu, s.plant)

    return build, now, before, move


@case("C14", ["lyapunov.LyapunovHybridLinearSystem.lyapunov_value",
              "lyapunov.LyapunovHybridLinearSystem."
              "lyapunov_positivity_as_milp",
              "lyapunov.LyapunovDiscreteTimeHybridSystem." +
              "lyapunov_derivative_as_milp"],
      params=[(w, g) for w in ("value", "positivity", "ExpLower", "ExpUpper",
                               "Asymp", "bounded")
              for g in ("net", "args")],
      scope="one state, one hidden unit, R of two rows")
def history(H, which, group):
    import neural_network_lyapunov.lyapunov as lyapunov
    build, now, before, move = certificates(H, "discrete", group)
    T = lyapunov.ConvergenceEps

    def derivative(o, s, e, **k):
        return o.lyapunov_derivative_as_milp(s.xeq, s.lam, s.eps, e, R=s.R,
                                             **k)

    calls = {
        "value": lambda o, s: (
            o.lyapunov_value(s.x[0], s.xeq, s.lam, R=s.R),
            o.lyapunov_value(s.x, s.xeq, s.lam, R=s.R),
            o.lyapunov_derivative(s.x[0], s.xeq, s.lam, s.eps, R=s.R)),
        "positivity": lambda o, s: o.lyapunov_positivity_as_milp(
            s.xeq, s.lam, s.eps, R=s.R),
        "ExpLower": lambda o, s: derivative(o, s, T.ExpLower),
        "ExpUpper": lambda o, s: derivative(o, s, T.ExpUpper),
        "Asymp": lambda o, s: derivative(o, s, T.Asymp),
        "bounded": lambda o, s: derivative(
            o, s, T.ExpLower, lyapunov_lower=s.lo, lyapunov_upper=s.up)}
    replay(H, build, now, before, [(which, calls[which])], move)


@case("C15", [f"continuous_time_lyapunov.LyapunovContinuousTimeSystem.{f}"
              for f in ("lyapunov_derivative", "lyapunov_derivative_as_milp",
                        "lyapunov_derivative_loss_at_samples_and_next_states"
                        )],
      params=[(w, g) for w in ("value", "program", "bounded", "loss")
              for g in ("net", "args")],
      scope="one state, one hidden unit, R of two rows")
def history(H, which, group):
    import neural_network_lyapunov.lyapunov as lyapunov
    build, now, before, move = certificates(H, "continuous", group)
    T = lyapunov.ConvergenceEps
    calls = {
        "value": lambda o, s: o.lyapunov_derivative(
            s.x[0], s.xeq, s.lam, s.eps, R=s.R),
        "program": lambda o, s: o.lyapunov_derivative_as_milp(
            s.xeq, s.lam, s.eps, T.ExpLower, R=s.R),
        "bounded": lambda o, s: o.lyapunov_derivative_as_milp(
            s.xeq, s.lam, s.eps, T.ExpLower, R=s.R, lyapunov_lower=s.lo,
            lyapunov_upper=s.up),
        "loss": lambda o, s:
        o.lyapunov_derivative_loss_at_samples_and_next_states(
            s.lam, s.eps, s.x[:1], s.X[:1], s.xeq, T.ExpLower, R=s.R)}
    replay(H, build, now, before, [(which, calls[which])], move)


@case("C16", ["barrier.Barrier.value", "barrier.Barrier.value_as_milp",
              "barrier.DiscreteTimeBarrier.derivative",
              "barrier.DiscreteTimeBarrier.derivative_as_milp"],
      params=[(w, g) for w in ("value", "safe", "unsafe", "derivative")
              for g in ("net", "args")],
      scope="one state, one hidden unit")
def history(H, which, group):
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    build, now, before, move = certificates(H, "barrier", group)

    def region(o, s):
        r = gtm.MixedIntegerConstraintsReturn()
        r.Ain_input = num([1.], [-1.])
        r.rhs_in = torch.stack((s.X[0, 0], s.X[0, 0] + 1.))
        return o.value_as_milp(s.xeq, s.c, r, which == "safe")

    calls = {
        "value": lambda o, s: (
            o.value(s.x[0], s.xeq, s.c), o.value(s.x, s.xeq, s.c),
            o.derivative(s.x[0], s.xeq, s.c, s.eps)),
        "safe": region, "unsafe": region,
        "derivative": lambda o, s: o.derivative_as_milp(s.xeq, s.c, s.eps)}
    replay(H, build, now, before, [(which, calls[which])], move)


@case("C17", ["lyapunov.LyapunovHybridLinearSystem."
              "lyapunov_positivity_loss_at_samples"] +
      ["lyapunov.LyapunovDiscreteTimeHybridSystem." + f for f in (
          "lyapunov_derivative_loss_at_samples",
          "lyapunov_derivative_loss_at_samples_and_next_states")] +
      ["barrier.DiscreteTimeBarrier."
       "derivative_loss_at_samples_and_next_states"],
      params=[(w, g) for w in ("positivity", "derivative", "next", "barrier")
              for g in ("net", "args")],
      scope="one state, one hidden unit, R of two rows, two samples")
def history(H, which, group):
    import neural_network_lyapunov.lyapunov as lyapunov
    build, now, before, move = certificates(
        H, "barrier" if which == "barrier" else "discrete", group)
    e = lyapunov.ConvergenceEps.ExpLower
    calls = {
        "positivity": lambda o, s: o.lyapunov_positivity_loss_at_samples(
            s.xeq, s.x, s.lam, s.eps, R=s.R),
        "derivative": lambda o, s: o.lyapunov_derivative_loss_at_samples(
            s.lam, s.eps, s.x[:1], s.xeq, e, R=s.R),
        "next": lambda o, s:
        o.lyapunov_derivative_loss_at_samples_and_next_states(
            s.lam, s.eps, s.x, s.X, s.xeq, e, R=s.R),
        "barrier": lambda o, s: o.derivative_loss_at_samples_and_next_states(
            s.xeq, s.c, s.eps, s.x, s.X)}
    replay(H, build, now, before, [(which, calls[which])], move)


@case("C24", ["lyapunov.LyapunovDiscreteTimeHybridSystem."
              "_construct_milp_for_roa", "lyapunov.LyapunovHybridLinearSystem."
              "_construct_milp_for_roa_boundary"],
      params=[(w, g) for w in ("inside", "outside", "boundary")
              for g in ("net", "args")],
      scope="one state, one hidden unit, R of two rows")
def history(H, which, group):
    build, now, before, move = certificates(H, "discrete", group)
    now.outer, before.outer = (num(-4.), num(5.)), (num(-3.), num(4.))
    calls = {
        "boundary": lambda o, s: o._construct_milp_for_roa_boundary(
            s.lam, s.R, s.xeq)}
    for n in ("inside", "outside"):
        calls[n] = lambda o, s: o._construct_milp_for_roa(
            s.lam, s.R, s.xeq, *s.outer, which == "inside")
    replay(H, build, now, before, [(which, calls[which])], move)


@case("C18", ["r_options.SearchRwithSPDOptions.R",
              "r_options.SearchRwithSVDOptions.R",
              "r_options.SearchRfreeOptions.R"],
      params=[("SPD", 2, 1), ("SPD", 2, 2), ("SVD", 2, 1), ("SVD", 2, 2),
              ("free", 2, 1)], scope="the listed sizes of R")
def history(H, kind, m, n):
    import neural_network_lyapunov.r_options as r_options
    eps = H.real("epsilon", 0.)
    H.assume(eps > 0.)
    size = dict(SPD=(n * (n + 1) // 2 + (m - n) * n, ), SVD=(min(m, n), ),
                free=(m, n))[kind]
    now = NS(v=H.tensor("variables", *size))
    before = NS(v=0.5 * torch.ones(size, dtype=F))

    def build(s):
        if kind == "SPD":
            o = r_options.SearchRwithSPDOptions((m, n), eps)
        elif kind == "SVD":
            o = r_options.SearchRwithSVDOptions(
                (m, n), np.array([0.5, 0.25][:min(m, n)]))
        else:
            o = r_options.SearchRfreeOptions((m, n))
        for v in o.variables():
            with torch.no_grad():
                v.data.copy_(s.v)
        return o

    def move(o, s):
        for v in o.variables():
            with torch.no_grad():
                v.data.copy_(s.v)

    replay(H, build, now, before, [("R", lambda o, s: o.R())], move)


def nothing(s):
    return None


def stay(o, s):
    pass


@case("C02", ["mip_utils.compute_range_by_IA", "mip_utils.propagate_bounds",
              "relu_to_optimization.ReLUFreePattern._compute_layer_bound"],
      params=["range", "linear", "relu", "leaky", "network"],
      scope="layers of one or two units")
def history(H, which):
    import neural_network_lyapunov.mip_utils as mip_utils
    n = 1 if which == "network" else 2
    widths = (1, 1, 1) if which == "network" else (n, 1)
    now = NS(W=weights(H, "net", widths), box=box(H, "x", n))
    before = NS(W=fixed(widths), box=(num(*[-3.] * n), num(*[2.] * n)))

    def build(s):
        m = net(s.W)
        return NS(net=m, pattern=rto.ReLUFreePattern(m, F) if
                  which == "network" else None,
                  leaky=torch.nn.LeakyReLU(0.125))

    calls = {
        "range": lambda o, s: mip_utils.compute_range_by_IA(
            *s.W[0], *s.box),
        "linear": lambda o, s: mip_utils.propagate_bounds(o.net[0], *s.box),
        "relu": lambda o, s: mip_utils.propagate_bounds(
            torch.nn.ReLU(), *s.box),
        "leaky": lambda o, s: mip_utils.propagate_bounds(o.leaky, *s.box),
        "network": lambda o, s: o.pattern._compute_layer_bound(*s.box, IA)}
    replay(H, build, now, before, [(which, calls[which])],
           lambda o, s: train(o.net, s.W))


@case("C04", ["utils." + f for f in (
    "replace_binary_continuous_product",
    "replace_relu_with_mixed_integer_constraint",
    "replace_leaky_relu_mixed_integer_constraint",
    "leaky_relu_gradient_times_x", "max_as_mixed_integer_constraint",
    "absolute_value_as_mixed_integer_constraint", "leaky_relu_interval",
    "add_saturation_as_mixed_integer_constraint", "box_boundary",
    "minkowski_sum")], params=list(range(10)), scope="vectors of 2")
def history(H, k):
    import neural_network_lyapunov.utils as utils
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    now = NS(box=box(H, "x", 2), c=H.real("c", 0., 1.))
    before = NS(box=(num(-3., -1.), num(2., 1.)), c=0.25)

    def saturate(o, s):
        p = gtm.GurobiTorchMILP(F)
        x, y = p.addVars(1, lb=-G.INFINITY), p.addVars(1, lb=-G.INFINITY)
        b = utils.add_saturation_as_mixed_integer_constraint(
            p, x[0], y[0], s.box[0][1], s.box[1][1], s.box[0][0],
            s.box[1][0])
        return p, b

    def first(f, *extra):
        return lambda o, s: f(s.box[0][0], s.box[1][0],
                              *[getattr(s, e) for e in extra])

    f = [first(utils.replace_binary_continuous_product),
         first(utils.replace_relu_with_mixed_integer_constraint),
         first(utils.replace_leaky_relu_mixed_integer_constraint),
         first(utils.leaky_relu_gradient_times_x, "c"),
         lambda o, s: utils.max_as_mixed_integer_constraint(*s.box),
         first(utils.absolute_value_as_mixed_integer_constraint),
         lambda o, s: utils.leaky_relu_interval(s.c, *s.box),
         saturate, lambda o, s: utils.box_boundary(*s.box),
         lambda o, s: utils.minkowski_sum(*s.box)][k]
    if k == 2:
        def f(o, s):
            return utils.replace_leaky_relu_mixed_integer_constraint(
                s.c, s.box[0][0], s.box[1][0])
    replay(H, nothing, now, before, [("encoding", Refusing(f))], stay)


def constraint_set(H, tag, values=None):
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    c = gtm.MixedIntegerConstraintsReturn()
    k = 0

    def t(name, *shape):
        if values is None:
            return H.tensor(f"{tag}.{name}", *shape)
        n = int(np.prod(shape))
        return (values + 0.25 * torch.arange(n, dtype=F)).reshape(shape)

    for kind, n in (("Ain", 2), ("Aeq", 1), ("Aout", 1)):
        for part, m in (("input", 2), ("slack", 1), ("binary", 1)):
            setattr(c, f"{kind}_{part}", t(f"{kind}.{part}", n, m))
        k += 1
    c.rhs_in, c.rhs_eq, c.Cout = t("rhs_in", 2), t("rhs_eq", 1), t("C", 1)
    for part, m in (("slack", 1), ("binary", 1)):
        setattr(c, part + "_lo", t(part + ".lo", m))
        setattr(c, part + "_up", t(part + ".up", m))
    return c


@case("C08", ["gurobi_torch_mip.concatenate_mixed_integer_constraints"] +
      ["gurobi_torch_mip.MixedIntegerConstraintsReturn." + f for f in (
          "clone", "transform_input")] +
      ["gurobi_torch_mip.GurobiTorchMIP.add_mixed_integer_linear_constraints"
       ], params=["join", "share", "clone", "transform", "add"],
      scope="two inputs, one slack and binary each")
def history(H, which):
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    now = NS(a=constraint_set(H, "a"), A=H.tensor("A", 2, 2),
             b=H.tensor("b", 2))
    if which in ("join", "share"):
        now.c = constraint_set(H, "c")
    before = NS(a=constraint_set(H, "a'", 0.5), A=num([1., 2.], [3., 4.]),
                b=num(5., 6.), c=constraint_set(H, "c'", -0.5))

    def transform(o, s):
        c = s.a.clone()
        c.transform_input(s.A, s.b)
        return c

    def add(o, s):
        p = gtm.GurobiTorchMILP(F)
        x, y = p.addVars(2, lb=-G.INFINITY), p.addVars(1, lb=-G.INFINITY)
        return p, p.add_mixed_integer_linear_constraints(
            s.a, x, y, "s", "z", "i", "e", "o")

    calls = {
        "join": lambda o, s: gtm.concatenate_mixed_integer_constraints(
            s.a, s.c, False, False, True),
        "share": lambda o, s: gtm.concatenate_mixed_integer_constraints(
            s.a, s.c, True, True, True),
        "clone": lambda o, s: s.a.clone(), "transform": transform,
        "add": add}
    replay(H, nothing, now, before, [(which, calls[which])], stay)


@case("C09", ["gurobi_torch_mip.GurobiTorchMIP." + f for f in (
    "get_inequality_constraints", "get_active_constraints")] +
      ["gurobi_torch_mip.GurobiTorchMILP.compute_objective_from_mip_data",
       "gurobi_torch_mip.GurobiTorchMIQP.compute_objective_from_mip_data",
       "gurobi_torch_mip.GurobiTorchMILP.setObjective",
       "gurobi_torch_mip.GurobiTorchMIQP.setObjective"],
      params=[(k, w) for k in ("MILP", "MIQP")
              for w in ("grow", "restate", "widen")],
      scope="one continuous and one binary variable, or one more of each; "
      "two inequalities and one equality; rows, variables or another "
      "objective set after an answer")
def history(H, kind, how):
    import neural_network_lyapunov.gurobi_torch_mip as gtm
    names = ("c", "cz", "k", "b1", "b2", "be")
    now = NS(active={0, 1}, z=num(float(H.bit("zeta"))), wide=(),
             **{n: H.tensor(n, 1) for n in names})
    data = {n: num(0.25 * i - 0.5) for i, n in enumerate(names)}
    data.update(b1=now.b1, b2=now.b2, be=now.be)
    before = NS(active={0} if how == "grow" else {0, 1}, z=num(0.), wide=(),
                **data)
    if how == "widen":
        now.wide = H.choice("new", [("B", ), ("C", ), ("B", "C")])
        if "B" in now.wide:
            now.z = num(now.z[0], 1.)

    def objective(p, r, z, s):
        if kind == "MILP":
            return p.setObjective([s.c, s.cz], [r, z], s.k[0], G.MINIMIZE)
        p.setObjective([torch.eye(1, dtype=F)], [(r, r)], [s.c, s.cz],
                       [r, z], s.k[0], G.MINIMIZE)

    def second(o, s):
        o.p.addLConstr([num(2.), num(1.)], [o.r, o.z], G.LESS_EQUAL,
                       s.b2[0])
        o.p.addLConstr([num(-1.), num(3.)], [o.r, o.z], G.EQUAL, s.be[0])

    def build(s):
        p = {"MILP": gtm.GurobiTorchMILP, "MIQP": gtm.GurobiTorchMIQP}[kind](
            F)
        o = NS(p=p, r=p.addVars(1, lb=-G.INFINITY),
               z=p.addVars(1, vtype=G.BINARY))
        p.addLConstr([num(1.5), num(-1.)], [o.r, o.z], G.LESS_EQUAL,
                     s.b1[0])
        if len(s.active) == 2:
            second(o, s)
        widen(o, s)
        objective(p, o.r, o.z, s)
        return o

    def widen(o, s):
        for k in s.wide:
            o.p.addVars(1, lb=-G.INFINITY if k == "C" else 0., vtype=k)

    def move(o, s):
        if how == "grow":
            second(o, s)
        widen(o, s)
        objective(o.p, o.r, o.z, s)

    H.contract(gtm.np.linalg, "cond", lambda M: H.num(1.))
    replay(H, build, now, before, [
        ("rows", lambda o, s: o.p.get_inequality_constraints()),
        ("active", Refusing(lambda o, s: o.p.get_active_constraints(
            s.active, s.z))),
        ("cost", Refusing(lambda o, s: o.p.compute_objective_from_mip_data(
            s.active, s.z)))], move)
