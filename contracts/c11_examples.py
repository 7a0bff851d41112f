"""The network plants of the examples: encoding and simulation."""
import inspect
import numpy as np
import torch
import gurobipy
from engine.cases import case
from contracts import dyn, mip
from contracts.c10_hybrid import patched
from contracts.dyn import IA, LP, MIP, Phi, Pattern
from contracts.c11_relu_system import (about, new_program, solved, kinds_are)
import neural_network_lyapunov.relu_system as rs
import neural_network_lyapunov.relu_to_optimization as rto
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.examples.pendulum.pendulum as pendulum
import neural_network_lyapunov.examples.quadrotor2d.quadrotor_2d as quad2d
import neural_network_lyapunov.examples.quadrotor3d.quadrotor as quad3d
import neural_network_lyapunov.examples.pole.pole_relu_system as pole
import neural_network_lyapunov.examples.car.acceleration_car as acar
import neural_network_lyapunov.examples.car.unicycle as unicycle

F = torch.float64
G = gurobipy.GRB


def accepts(sys, name):
    ps = inspect.signature(sys.add_dynamics_constraint).parameters
    return name in ps or any(p.kind == p.VAR_KEYWORD for p in ps.values())


class Points:
    """The pattern of a network that is encoded at several inputs."""

    def __init__(self, phi, dtype=None):
        self.subs, self.model = [], phi
        self.k = 0
        phi.pattern = self

    def at(self, *xins):
        for i, x in enumerate(xins):
            p = Pattern(self.model)
            p.name = f"{self.model.name}@{i}"
            p.at(x)
            self.subs.append(p)
        self.model.pattern = self

    def output_constraint(self, lo, up, method):
        self.k += 1
        return self.subs[self.k - 1].output_constraint(lo, up, method)


class Plant:
    """One of the plants, with its documented dynamics."""
    discrete = True
    method = LP

    def __init__(self, H):
        self.H = H
        nx, nu, nin, nout = self.dims
        self.nx, self.nu = nx, nu
        self.phi = Phi(H, "phi", nin, nout)
        self.x, self.u = H.tensor("x", nx), H.tensor("u", nu)
        self.dt = H.real("dt", 0.)
        H.assume(self.dt > 0)
        self.e, self.ue = [H.num(0.)] * nx, [H.num(0.)] * nu
        self.lo, self.up = about(H, "x", [H.vecl(self.x)])
        self.ulo, self.uup = about(H, "u", [H.vecl(self.u)])
        with patched(rto, ReLUFreePattern=Points):
            self.sys = self.make(self.lo, self.up, self.ulo, self.uup)
        self.pat = self.phi.pattern
        self.pat.at(*self.inputs(H.vecl(self.x), H.vecl(self.u)))

    def net(self, x, u):
        """phi(input) - phi(input of the equilibrium)"""
        y = self.phi.value(self.inputs(x, u)[0])
        ye = self.phi.value(self.inputs(self.e, self.ue)[0])
        return [a - b for a, b in zip(y, ye)]

    def next(self, x, u):
        return self.step(self.H.vecl(x), self.H.vecl(u))

    def args(self, box):
        return (F, ) + box + (self.phi, )

    def input_vars(self, x, u):
        return self.inputs(x, u)[0]


class Pendulum(Plant):
    dims = (2, 1, 3, 1)
    discrete = False

    def make(self, *box):
        self.e = [H_pi(self.H), self.H.num(0.)]
        return pendulum.PendulumReluContinuousTime(*self.args(box))

    def inputs(self, x, u):
        return [list(x) + list(u)]

    def step(self, x, u):
        return [x[1], self.net(x, u)[0]]


def H_pi(H):
    return H.num(float(np.pi))


class Quad2d(Plant):
    dims = (6, 2, 3, 3)
    discrete = False

    def make(self, *box):
        ue = self.H.tensor("ueq", 2)
        self.ue = self.H.vecl(ue)
        return quad2d.QuadrotorReluContinuousTime(*self.args(box), ue)

    def inputs(self, x, u):
        return [[x[2], u[0], u[1]]]

    def step(self, x, u):
        return x[3:] + self.net(x, u)


class Pole(Plant):
    dims = (7, 3, 7, 5)

    def make(self, *box):
        w = self.H.real("uz")
        self.ue = [self.H.num(0.), self.H.num(0.), w]
        return pole.PoleReluSystem(*box, self.phi, self.dt, w)

    def inputs(self, x, u):
        return [[x[0], x[1], x[5], x[6]] + list(u)]

    def step(self, x, u):
        v = [a + b for a, b in zip(x[2:], self.net(x, u))]
        return [x[i] + (x[5 + i] + v[3 + i]) * self.dt / 2
                for i in range(2)] + v


class Car(Plant):
    dims = (4, 2, 4, 2)

    def make(self, *box):
        return acar.AccelerationCarReLUModel(*self.args(box), self.dt)

    def inputs(self, x, u):
        return [[x[2], x[3], u[0], u[1]]]

    def step(self, x, u):
        p = [a + b for a, b in zip(x[:2], self.net(x, u))]
        return p + [x[2] + u[0] * self.dt, x[3] + u[1] * self.dt]


class Unicycle(Plant):
    tdot = True
    dims = (3, 2, 3, 2)

    def make(self, *box):
        return unicycle.UnicycleReLUModel(*self.args(box), self.dt, self.tdot)

    def inputs(self, x, u):
        return [[x[2]] + list(u[:2 if self.tdot else 1])]

    def step(self, x, u):
        p = [a + b for a, b in zip(x[:2], self.net(x, u))]
        return p + [x[2] + u[1] * self.dt]


class Unicycle2(Unicycle):
    tdot = False
    dims = (3, 2, 2, 2)


class ZeroVel(Unicycle):
    def make(self, *box):
        return unicycle.UnicycleReLUZeroVelModel(*self.args(box), self.dt,
                                                 self.tdot)

    def inputs(self, x, u):
        a, = super().inputs(x, u)
        return [a, [a[0], self.H.num(0.)] + a[2:]]

    def input_vars(self, x, u):
        return [x[2]] + list(u[:2 if self.tdot else 1])

    def net(self, x, u):
        a, b = self.inputs(x, u)
        return [s - t for s, t in zip(self.phi.value(a), self.phi.value(b))]


class ZeroVel2(ZeroVel):
    tdot = False
    dims = (3, 2, 2, 2)


class Pixhawk(Plant):
    dims = (9, 4, 7, 6)

    def make(self, *box):
        h = self.H.real("hover")
        self.ue = [self.H.num(0.)] * 3 + [h]
        return quad3d.QuadrotorWithPixhawkReLUSystem(*self.args(box), h,
                                                     self.dt)

    def inputs(self, x, u):
        return [list(x[3:6]) + list(u)]

    def step(self, x, u):
        y = self.net(x, u)
        v = [a + b for a, b in zip(x[6:9], y[:3])]
        r = [a + b for a, b in zip(x[3:6], y[3:])]
        return [x[i] + (x[6 + i] + v[i]) * self.dt / 2
                for i in range(3)] + r + v


class Quad3d(Plant):
    dims = (12, 4, 10, 9)

    def make(self, *box):
        h = self.H.real("hover")
        self.ue = [h] * 4
        return quad3d.QuadrotorReLUSystem(*self.args(box), h, self.dt)

    def inputs(self, x, u):
        return [list(x[3:6]) + list(x[9:12]) + list(u)]

    def step(self, x, u):
        y = self.net(x, u)
        v = [a + b for a, b in zip(x[6:9], y[3:6])]
        return [x[i] + (x[6 + i] + v[i]) * self.dt / 2
                for i in range(3)] + y[:3] + v + y[6:]


PLANTS = {c.__name__: c for c in (Pendulum, Quad2d, Pole, Car, Unicycle,
                                  Unicycle2, ZeroVel, ZeroVel2, Pixhawk,
                                  Quad3d)}
WHERE = {"Pendulum": "examples.pendulum.pendulum.PendulumReluContinuousTime.",
         "Quad2d":
         "examples.quadrotor2d.quadrotor_2d.QuadrotorReluContinuousTime.",
         "Pole": "examples.pole.pole_relu_system.PoleReluSystem.",
         "Car": "examples.car.acceleration_car.AccelerationCarReLUModel.",
         "Unicycle": "examples.car.unicycle.UnicycleReLUModel.",
         "ZeroVel": "examples.car.unicycle.UnicycleReLUZeroVelModel.",
         "Pixhawk":
         "examples.quadrotor3d.quadrotor.QuadrotorWithPixhawkReLUSystem.",
         "Quad3d": "examples.quadrotor3d.quadrotor.QuadrotorReLUSystem."}


@case("C11", [w + f for w in WHERE.values()
              for f in ("step_forward", "possible_dx", "x_lo_all",
                        "x_up_all")],
      params=[(p, ) for p in PLANTS],
      scope="the dimensions of the plant; batches of 3")
def example_simulation(H, plant):
    P = PLANTS[plant](H)
    H.cover()
    want = P.next(P.x, P.u)
    H.eqv("successor", P.sys.step_forward(P.x, P.u), want)
    if hasattr(P.sys, "possible_dx"):       # whether: C12, offers
        dx = P.sys.possible_dx(P.x, P.u)
        H.true("one", len(dx) == 1)
        H.eqv("possible", dx[0], want)
    X, U = H.tensor("X", 3, P.nx), H.tensor("U", 3, P.nu)
    Y = P.sys.step_forward(X, U)
    H.true("shape", tuple(Y.shape) == (3, P.nx))
    for i in range(3):
        H.eqv(f"batch[{i}]", Y[i], P.next(X[i], U[i]))
    H.eqv("lower limits", P.sys.x_lo_all, P.lo)
    H.eqv("upper limits", P.sys.x_up_all, P.up)
    # the equilibrium is kept; it is in the box of the user
    H.eqv("state", P.sys.x_equilibrium, P.e)
    H.eqv("control", P.sys.u_equilibrium, P.ue)
    E = P.sys.x_equilibrium.reshape((1, -1))
    UE = P.sys.u_equilibrium.reshape((1, -1))
    at = P.sys.step_forward(E, UE)
    H.eqv("kept", at[0], P.e if P.discrete else [0.] * P.nx)


@case("C11", [w + "add_dynamics_constraint" for w in WHERE.values()] +
      [WHERE[w] + "mixed_integer_constraints" for w in ("Pendulum",
                                                        "Quad2d")] +
      [WHERE["Quad3d"] + "_add_dynamics_constraint_given_relu_bounds",
       "relu_system._add_forward_dynamics_mip_constraints"],
      params=[(p, m) for p in PLANTS for m in (IA, LP, MIP)
              if m == IA or p in ("Pendulum", "Quad2d", "Pole", "Quad3d")],
      scope="the dimensions of the plant; encodings of one slack and binary, "
      "of 2 rows")
def example_program(H, plant, method):
    P = PLANTS[plant](H)
    P.sys.network_bound_propagate_method = method
    nx, nu = P.nx, P.nu
    xv, uv = H.vecl(P.x), H.vecl(P.u)
    kw = {}
    limits = H.choice("limits", ["", "lo", "lo,up"])
    if "lo" in limits:
        kw["additional_u_lo"] = dyn.vec([a - H.real(f"ul{i}", 0.)
                                         for i, a in enumerate(uv)])
    if "up" in limits:
        kw["additional_u_up"] = dyn.vec([a + H.real(f"uu{i}", 0.)
                                         for i, a in enumerate(uv)])
    # which arguments it takes: C12, offers
    takes = [a for a in ("binary_var_type", "u_input_prog")
             if accepts(P.sys, a)]
    bt = H.choice("type", ["B", "R"] if takes[:1] == ["binary_var_type"]
                  else ["B"])
    if "binary_var_type" in takes:
        kw.update(mip.kind_argument(bt))
    given = "u_input_prog" in takes and H.bit("given")
    if given:
        cb = rs.ControlBoundProg(gtm.GurobiTorchMILP(F), None, None)
        cb.x_var = cb.prog.addVars(nx, lb=-G.INFINITY)
        cb.u_var = cb.prog.addVars(nu, lb=-G.INFINITY)
        kw["u_input_prog"] = cb
    prog, x, u, xn = new_program(H, nx, nu)
    if plant == "Quad3d":
        P.sys.dynamics_relu_free_pattern = P.pat.subs[0]
    H.cover()
    ret = P.sys.add_dynamics_constraint(
        prog, x, xn, u, "s", "g", **kw)
    record = not isinstance(ret, tuple)     # whether: example_record
    subs = P.pat.subs
    ins = P.inputs(xv, uv)
    gaps = []
    for q, xin in zip(subs, ins):
        q.contains("box", xin)
        gaps += q.gaps(xin, q.s, q.z)
    s, z = (list(ret.slack), list(ret.binary)) if record else map(list, ret)
    known = mip.ids(x, u, xn, s, z)
    rest = [v for v in prog.gurobi_model.getVars() if id(v) not in known]
    zeros = []
    if plant.startswith("ZeroVel"):
        zeros = [v for v in rest if v.lb == 0. and v.ub == 0.]
        H.true("zero", len(zeros) == 1)
        rest = [v for v in rest if v is not zeros[0]]
        H.true("unknowns", len(rest) == 2)
        s, z = s + rest[:1], z + rest[1:]
    else:
        H.true("no more unknowns", rest == [])
    kinds_are(H, "kind", s, z, bt)
    fixed = dict(zip(x + u + zeros + s + z, xv + uv + [H.num(0.)] *
                     len(zeros) + [v for q in subs for v in q.s] +
                     [v for q in subs for v in q.z]))
    want = P.next(P.x, P.u)
    solved(H, "program", prog, fixed, xn, want, gaps, z, zeros)
    if not record:
        return
    if plant == "Quad3d":
        for a, t in zip(dyn.UNITS, subs[0].units()):
            H.same_tensor("field " + a, getattr(ret, a), t)
        H.lev("field nn_input_lo", ret.nn_input_lo, ins[0])
        H.lev("field nn_input_up", ins[0], ret.nn_input_up)
    else:
        for a, v in subs[0].bounds.items():
            H.true(f"field {a}", getattr(ret, a) is v)
    if plant not in ("Pendulum", "Quad2d"):
        return
    if method == IA:
        H.lev("lower bound", ret.x_next_lb_IA, want)
        H.lev("upper bound", want, ret.x_next_ub_IA)
        H.true("no program", ret.x_next_bound_prog is None)
        return
    bp = ret.x_next_bound_prog
    H.true("program is apart", bp is not prog)
    if given:
        H.true("program is the one given", bp is cb.prog and
               ret.x_var is cb.x_var)
        ub = cb.u_var
        rest = [v for v in bp.gurobi_model.getVars() if id(v) not in
                mip.ids(cb.x_var, cb.u_var, ret.x_next_bound_var)]
    else:
        rest = [v for v in bp.gurobi_model.getVars() if id(v) not in
                mip.ids(ret.x_var, ret.x_next_bound_var)]
        ub, rest = rest[:nu], rest[nu:]
    H.true("its unknowns", len(rest) == 2)
    H.true("kind of the bound program", rest[1].vtype == (
        "C" if method == LP else "B"))
    q = subs[0]
    fixed = dict(zip(ret.x_var + ub + rest, xv + uv + q.s + q.z))
    solved(H, "bound program", bp, fixed, ret.x_next_bound_var, want, gaps,
           rest[1:])


@case("C11", [w + "add_dynamics_constraint" for w in WHERE.values()],
      params=[(p, ) for p in PLANTS], scope="the dimensions of the plant")
def example_record(H, plant):
    """The record of what was added, and the inputs of the network in it."""
    P = PLANTS[plant](H)
    prog, x, u, xn = new_program(H, P.nx, P.nu)
    if plant == "Quad3d":
        P.sys.dynamics_relu_free_pattern = P.pat.subs[0]
    H.cover()
    ret = P.sys.add_dynamics_constraint(prog, x, xn, u, "s", "g")
    H.true("record", isinstance(ret, rs.ReLUDynamicsConstraintReturn))
    if not isinstance(ret, tuple):
        H.true("nn_input", mip.ids(ret.nn_input) == mip.ids(
            P.input_vars(x, u)))


@case("C12", [w + f for w in WHERE.values()
              for f in ("add_dynamics_constraint", "possible_dx")],
      params=[(p, a) for p in PLANTS for a in (
          "additional_u_lo", "additional_u_up", "binary_var_type",
          "u_input_prog", "possible_dx", "step_forward")],
      scope="the plant")
def offers(H, plant, what):
    """What the closed loop asks of a plant."""
    P = PLANTS[plant](H)
    H.cover()
    H.true(what, hasattr(P.sys, what) if what in (
        "possible_dx", "step_forward") else accepts(P.sys, what))
