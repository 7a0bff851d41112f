"""The closed loop: its program and its simulation."""
import types
import numpy as np
import torch
import gurobipy
from engine.cases import case
from engine.stubs import stub, stands_for, as_called
from contracts import dyn, mip
from contracts.dyn import IA, LP, MIP, Phi
from contracts.c10_hybrid import patched
from contracts.c11_relu_system import about, kinds_are, const_zero
import neural_network_lyapunov.feedback_system as fs
import neural_network_lyapunov.relu_system as rs
import neural_network_lyapunov.hybrid_linear_system as hls
import neural_network_lyapunov.dynamic_system as ds
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.mip_utils as mip_utils

F = torch.float64
G = gurobipy.GRB


class Plant:
    """An arbitrary affine plant x' = Ax + Bu + c, by the interface that the
    closed loop uses."""

    def __init__(self, H, x, nu):
        self.H, self.x_dim, self.u_dim, self.dtype = H, len(x), nu, F
        lo, up = about(H, "x", [x])
        self.x_lo, self.x_up = lo, up
        self.A = H.tensor("A", len(x), len(x))
        self.B = H.tensor("B", len(x), nu)
        self.c = H.tensor("c", len(x))
        self.calls = []
        self.dynamics_relu_free_pattern = None

    @property
    def x_lo_all(self):
        return self.x_lo.detach().numpy()

    @property
    def x_up_all(self):
        return self.x_up.detach().numpy()

    def next(self, x, u):
        H = self.H
        return [a + b + c for a, b, c in zip(
            H.mv(self.A, x), H.mv(self.B, u), H.vecl(self.c))]

    def step_forward(self, x, u):
        if len(x.shape) == 1:
            return self.A @ x + self.B @ u + self.c
        return x @ self.A.T + u @ self.B.T + self.c

    def possible_dx(self, x, u):
        return [self.step_forward(x, u)]

    def add_dynamics_constraint(self, prog, x_var, x_next_var, u_var,
                                slack_var_name, binary_var_name,
                                additional_u_lo=None, additional_u_up=None,
                                binary_var_type=G.BINARY, u_input_prog=None):
        self.calls.append(types.SimpleNamespace(
            prog=prog, x=x_var, xn=x_next_var, u=u_var, lo=additional_u_lo,
            up=additional_u_up, type=binary_var_type, bound=u_input_prog))
        m = prog.gurobi_model
        for i in range(self.x_dim):
            e = gurobipy.LinExpr()
            for j in range(self.x_dim):
                e = e + gurobipy.LinExpr(self.A[i, j].item(), x_var[j])
            for j in range(self.u_dim):
                e = e + gurobipy.LinExpr(self.B[i, j].item(), u_var[j])
            e = e - gurobipy.LinExpr(1., x_next_var[i])
            m.addLConstr(e, sense="=", rhs=-self.c[i].item())
        m.update()
        n = 1
        self.ret = rs.ReLUDynamicsConstraintReturn(
            prog.addVars(n, lb=-G.INFINITY, name="forward_s"), [],
            "low", "high", "program", "successor", "state")
        return self.ret


class Loop:
    """A closed loop with controller phi (network or linear)."""

    def __init__(self, H, ctrl, limits, nx, method):
        self.H, self.nx, self.nu = H, nx, len(limits)
        nu = self.nu
        self.x = H.tensor("x", nx)
        self.plant = Plant(H, H.vecl(self.x), nu)
        self.eq, self.ueq = H.tensor("xeq", nx), H.tensor("ueq", nu)
        self.lo, self.up = H.nparr("ulo", nu), H.nparr("uwidth", nu)
        for i, fin in enumerate(limits):
            if fin:
                w = H.absv(H.scalar(self.up[i]))
                H.assume(w > 0)
                self.up[i] = self.lo[i] + w
            else:
                self.lo[i], self.up[i] = -np.inf, np.inf
        self.limits = limits
        if ctrl == "net":
            self.phi = Phi(H, "phi", nx, nu)
        else:
            self.phi = linear(H, nx, nu, ctrl == "bias")
        self.ctrl = ctrl
        with dyn.stub_networks():
            self.sys = fs.FeedbackSystem(self.plant, self.phi, self.eq,
                                         self.ueq, self.lo, self.up)
        self.sys.controller_network_bound_propagate_method = method
        if ctrl == "net":
            self.pat = self.phi.pattern
            self.pat.at(self.x)

    def value(self, x):
        H = self.H
        if self.ctrl == "net":
            return self.phi.value(x)
        y = H.mv(self.phi.weight.detach(), H.vecl(x))
        if self.ctrl == "bias":
            y = [a + b for a, b in zip(y, H.vecl(self.phi.bias.detach()))]
        return y

    def before(self, x):
        """The control before saturation."""
        return [a - b + c for a, b, c in zip(
            self.value(x), self.value(self.eq), self.H.vecl(self.ueq))]

    def saturate(self, v):
        H = self.H
        return [H.clampv(a, H.scalar(self.lo[i]), H.scalar(self.up[i]))
                if self.limits[i] else a for i, a in enumerate(v)]

    def bounds(self, layer, lo, up):
        """propagate_bounds of a linear layer by its contract (C02)."""
        H = self.H
        H.true("bounds of the controller", layer is self.phi)
        H.eqv("box lower", lo, self.plant.x_lo)
        H.eqv("box upper", up, self.plant.x_up)
        if not hasattr(self, "range"):
            y = self.value(self.x)
            self.range = (
                dyn.vec([a - H.real(f"ylo{i}", 0.) for i, a in enumerate(y)]),
                dyn.vec([a + H.real(f"yup{i}", 0.) for i, a in enumerate(y)]))
        return self.range

    def control(self, x):
        return self.saturate(self.before(x))


def linear(H, nx, nu, bias):
    m = torch.nn.Linear(nx, nu, bias=bias, dtype=F)
    m.weight.data = H.tensor("K", nu, nx)
    if bias:
        m.bias.data = H.tensor("k", nu)
    return m


class Saturations:
    """add_saturation_as_mixed_integer_constraint by its contract (C04): the
    output is the input clamped, for every input within the bounds given."""

    def __init__(self, L):
        self.L, self.H, self.calls = L, L.H, []

    def __call__(self, mip, input_var, output_var, lower_limit, upper_limit,
                 input_lower_bound, input_upper_bound, binary_var_type):
        self.calls.append((mip, input_var, output_var, lower_limit,
                           upper_limit, input_lower_bound, input_upper_bound,
                           binary_var_type))
        return []

    def settle(self, name, prog, u_vars, btype, sy, wit, rows):
        """One block per limited control, between its unsaturated value and
        itself."""
        H, L = self.H, self.L
        b, u = L.before(L.x), L.control(L.x)
        mine = [c for c in self.calls if c[0] is prog]
        H.true(name + ".blocks", len(mine) == sum(L.limits))
        for c in mine:
            i = [k for k, v in enumerate(u_vars) if v is c[2]]
            H.true(name + ".output", len(i) == 1 and L.limits[i[0]])
            i = i[0]
            H.eq(f"{name}.lower limit[{i}]", c[3], L.lo[i])
            H.eq(f"{name}.upper limit[{i}]", c[4], L.up[i])
            H.le(f"{name}.lower bound[{i}]", c[5], b[i])
            H.le(f"{name}.upper bound[{i}]", b[i], c[6])
            H.true(name + ".type", c[7] == btype)
            H.entail(f"{name}.before saturation[{i}]", sy, {sy.ix[c[1]]: 1.},
                     0., b[i])
            wit[sy.ix[c[1]]] = b[i]
            # the postcondition of the block
            rows.append(({sy.ix[c[2]]: 1.}, "=", u[i], "saturation"))


def network_rows(H, name, sy, L):
    """The system without the rows that only concern the network, which are
    those of its encoding."""
    mine, nets = [], []
    for r in sy.rows:
        if [k for k in r[0].values() if not const_zero(k)]:
            mine.append(r)
        elif not r[3].endswith((".lb", ".ub")):
            nets.append(r)
    want = L.pat.gaps(H.vecl(L.x), L.pat.s, L.pat.z) \
        if L.ctrl == "net" else []
    mip.same_rows(H, name + ".network",
                  [(r[1], -H.scalar(r[2])) for r in nets], want)
    return type(sy)(sy.kinds, mine, sy.names)


def settled(H, name, prog, fixed, L, u_vars, sat, btype, xn=(), aux=0):
    """With state and network fixed, the program has one control and one
    successor: those of the simulation."""
    full = H.model_system(prog.gurobi_model, fixed)
    sy = network_rows(H, name, full, L)
    sy.ix = full.ix
    u = L.control(L.x)
    wit = [None] * len(sy.kinds)
    rows = []
    if sat:
        sat.settle(name, prog, u_vars, btype, sy, wit, rows)
    for i, v in enumerate(u_vars):
        H.entail(f"{name}.control[{i}]", sy, {sy.ix[v]: 1.}, 0., u[i],
                 where=rows)
        wit[sy.ix[v]] = u[i]
    now = [({sy.ix[v]: 1.}, "=", u[i], "u") for i, v in enumerate(u_vars)]
    want = L.plant.next(H.vecl(L.x), u)
    for i, v in enumerate(xn):
        H.entail(f"{name}.successor[{i}]", sy, {sy.ix[v]: 1.}, 0., want[i],
                 where=rows + now)
        wit[sy.ix[v]] = want[i]
    if not sat:
        return
    rest = [k for k in range(len(wit)) if wit[k] is None]
    b = L.before(L.x)
    # unsaturated values of the unlimited controls; the plant's own unknowns
    pres = [i for i, f in enumerate(L.limits) if not f]
    H.true(name + ".unknowns", len(rest) == len(pres) + aux)
    for i in pres:
        # found from the row that ties it to the control
        k = [k for k in rest for r in sy.rows if r[1] == "=" and
             set(r[0]) == {k, sy.ix[u_vars[i]]}]
        H.true(f"{name}.unlimited[{i}]", len(set(k)) == 1)
        wit[k[0]] = b[i]
    wit = [H.num(0.) if w is None else w for w in wit]
    H.satisfied(name + ".exists", sy, wit)


FNS = ["feedback_system.FeedbackSystem." + f for f in (
    "__init__", "add_dynamics_mip_constraint",
    "_add_controller_mip_constraint", "_add_network_controller_mip_constraint",
    "_add_network_controller_mip_constraint_given_relu_bound",
    "_add_linear_controller_mip_constraint")] + [
    "feedback_system._add_input_saturation_constraint"]


@case("C12", FNS + ["dynamic_system._add_system_constraint"],
      params=[(c, l, nx, m, bt)
              for c, l, nx, m in (("net", (1, ), 1, IA), ("net", (0, ), 2, IA),
                                  ("net", (1, 0), 1, IA),
                                  ("net", (1, 1), 2, IA),
                                  ("net", (1, ), 1, LP),
                                  ("net", (0, 1), 1, MIP),
                                  ("bias", (1, ), 2, IA),
                                  ("bias", (1, 0), 1, IA),
                                  ("plain", (0, 1), 1, IA),
                                  ("plain", (1, ), 1, LP),
                                  ("bias", (1, 1), 1, MIP))
              for bt in ("B", "R")],
      scope="state and control of 1 or 2; encodings of one slack and binary")
def program(H, ctrl, limits, nx, method, btype):
    L = Loop(H, ctrl, limits, nx, method)
    through = H.bit("through")
    prog = gtm.GurobiTorchMIP(F)
    x = prog.addVars(nx, lb=-G.INFINITY, name="x")
    xn = prog.addVars(nx, lb=-G.INFINITY, name="xn")
    H.cover()
    bt = G.BINARY if btype == "B" else gtm.BINARYRELAX
    sat = Saturations(L)
    with patched(fs.utils, add_saturation_as_mixed_integer_constraint=sat), \
            patched(fs.mip_utils, propagate_bounds=L.bounds):
        if through:
            ret = ds._add_system_constraint(L.sys, prog, x, xn,
                                            **mip.kind_argument(btype))
            fwd, con = ret.forward_dynamics_return, \
                ret.controller_mip_cnstr_return
            u = L.plant.calls[0].u
            H.true("slack", mip.ids(ret.slack) == mip.ids(
                u, fwd.slack, con.slack))
            H.true("binary", mip.ids(ret.binary) == mip.ids(
                fwd.binary, con.binary))
            H.true("successor bounds", (
                ret.x_next_lb_IA, ret.x_next_ub_IA, ret.x_next_bound_prog,
                ret.x_next_bound_var, ret.x_var) == (
                    "low", "high", "program", "successor", "state"))
        else:
            u, fwd, con = L.sys.add_dynamics_mip_constraint(
                prog, x, xn, "u", "fs", "fb", "cs", "cb", bt)
    H.true("plant asked once", len(L.plant.calls) == 1)
    c = L.plant.calls[0]
    H.true("plant arguments", c.prog is prog and c.type == bt and
           mip.ids(c.x) == mip.ids(x) and mip.ids(c.xn) == mip.ids(xn) and
           mip.ids(c.u) == mip.ids(u))
    H.true("forward record", fwd is L.plant.ret)
    now = L.control(L.x)
    H.lev("lower bound of control", c.lo, now)
    H.lev("upper bound of control", now, c.up)
    H.true("range of control", all(H.unbounded(v)
                                   for v in u))
    xv = H.vecl(L.x)
    fixed = dict(zip(x, xv))
    s = z = []
    if ctrl == "net":
        P = L.pat
        P.domain("box", L.plant.x_lo, L.plant.x_up, method)
        s, z = P.s, P.z
        kinds_are(H, "kind", con.slack, con.binary, btype)
        H.true("sizes", len(con.slack) == len(s) and
               len(con.binary) == len(z))
        fixed.update(zip(con.slack + con.binary, s + z))
        H.true("network input", mip.ids(con.nn_input) == mip.ids(x))
        for a, t in zip(dyn.UNITS, P.units()):
            H.same_tensor("record " + a, getattr(con, a), t)
    else:
        H.true("no network", con.slack == [] and con.binary == [] and
               con.nn_input is None)
    settled(H, "program", prog, fixed, L, u, sat, bt, xn, aux=len(fwd.slack))
    # the program for the bounds
    bp = con.control_bound_prog
    H.true("bound program", c.bound is bp and bp.prog is not prog and
           len(bp.x_var) == nx and len(bp.u_var) == len(limits))
    for v in bp.x_var + bp.u_var:
        H.true("bound range", H.unbounded(v))
    rest = [v for v in bp.prog.gurobi_model.getVars()
            if id(v) not in mip.ids(bp.x_var, bp.u_var)]
    if method == IA:
        H.true("bound program is empty", rest == [] and
               len(bp.prog.gurobi_model.getConstrs()) == 0)
        return
    n = len(s) + len(z)
    fixed = dict(zip(bp.x_var + rest[:n], xv + s + z))
    want = "C" if method == LP else "B"
    for v in rest[len(s):n]:
        H.true("bound kind", v.vtype == want and
               (v.vtype == "B" or (v.lb, v.ub) == (0., 1.)))
    settled(H, "bound program", bp.prog, fixed, L, bp.u_var, sat,
            mip_utils.binary_var_type_per_method(method))


@case("C12", FNS[-1:] + FNS[1:2] +
      ["utils.add_saturation_as_mixed_integer_constraint"],
      params=[("net", ), ("bias", )],
      scope="one state, one limited control")
def whole_program(H, ctrl):
    """Without replacing the saturation by its contract."""
    L = Loop(H, ctrl, (1, ), 1, IA)
    prog = gtm.GurobiTorchMIP(F)
    x = prog.addVars(1, lb=-G.INFINITY, name="x")
    xn = prog.addVars(1, lb=-G.INFINITY, name="xn")
    H.cover()
    u, fwd, con = L.sys.add_dynamics_mip_constraint(
        prog, x, xn, "u", "fs", "fb", "cs", "cb")
    fixed = dict(zip(x, H.vecl(L.x)))
    if ctrl == "net":
        fixed.update(zip(con.slack + con.binary, L.pat.s + L.pat.z))
    settled(H, "program", prog, fixed, L, u, None, G.BINARY, xn)


@case("C12", ["feedback_system.FeedbackSystem." + f for f in (
    "compute_u", "step_forward", "possible_dx")],
      params=[(c, l, nx) for c in ("net", "bias", "plain")
              for l, nx in (((1, ), 1), ((0, ), 2), ((1, 0), 1),
                            ((1, 1), 2))],
      scope="state and control of 1 or 2, batches of 3")
def simulation(H, ctrl, limits, nx):
    L = Loop(H, ctrl, limits, nx, IA)
    H.cover()
    u = L.control(L.x)
    H.eqv("control", L.sys.compute_u(L.x), u)
    want = L.plant.next(H.vecl(L.x), u)
    H.eqv("successor", L.sys.step_forward(L.x), want)
    dx = L.sys.possible_dx(L.x)
    H.true("one", len(dx) == 1)
    H.eqv("possible", dx[0], want)
    X = H.tensor("X", 3, nx)
    U, Y = L.sys.compute_u(X), L.sys.step_forward(X)
    H.true("batch shape", tuple(U.shape) == (3, len(limits)) and
           tuple(Y.shape) == (3, nx))
    for i in range(3):
        ui = L.control(X[i])
        H.eqv(f"batch control[{i}]", U[i], ui)
        H.eqv(f"batch successor[{i}]", Y[i], L.plant.next(H.vecl(X[i]), ui))
    # the equilibrium
    H.eqv("control at equilibrium", L.sys.compute_u(L.eq),
          L.saturate(H.vecl(L.ueq)))
    inside = H.and_(*[H.and_(H.scalar(L.lo[i]) <= v, v <= H.scalar(L.up[i]))
                      for i, v in enumerate(H.vecl(L.ueq)) if limits[i]],
                    H.num(0.) <= 0.)
    for i, v in enumerate(H.vecl(L.sys.compute_u(L.eq))):
        H.true(f"equilibrium kept[{i}]",
               H.implies(inside, v == H.vecl(L.ueq)[i]))
    nx_eq = H.vecl(L.sys.step_forward(L.eq))
    fix = H.and_(*[a == b for a, b in zip(
        L.plant.next(H.vecl(L.eq), H.vecl(L.ueq)), H.vecl(L.eq))])
    for i, v in enumerate(nx_eq):
        H.true(f"state kept[{i}]", H.implies(H.and_(inside, fix),
                                             v == H.vecl(L.eq)[i]))
    H.true("parameters", len(L.sys.controller_variables()) ==
           len(list(L.phi.parameters())))


@case("C12", ["feedback_system.FeedbackSystem.step_forward",
              "feedback_system.FeedbackSystem.possible_dx"],
      scope="a hybrid plant of one mode")
def hybrid_simulation(H):
    s = hls.HybridLinearSystem(1, 1, F)
    A, B, c = H.tensor("A", 1, 1), H.tensor("B", 1, 1), H.tensor("c", 1)
    s.A, s.B, s.c = [A], [B], [c]
    s.P, s.q = [torch.zeros((1, 2), dtype=F)], [torch.ones((1, ), dtype=F)]
    s.num_modes = 1
    s.x_lo_all = s.u_lo_all = -np.ones(1)
    s.x_up_all = s.u_up_all = np.ones(1)
    phi = Phi(H, "phi", 1, 1)
    e, ue, x = H.tensor("xeq", 1), H.tensor("ueq", 1), H.tensor("x", 1)
    with dyn.stub_networks():
        L = fs.FeedbackSystem(s, phi, e, ue, np.array([-np.inf]),
                              np.array([np.inf]))
    H.cover()
    u = phi.value(x)[0] - phi.value(e)[0] + H.vecl(ue)[0]
    want = H.el(A, 0, 0) * H.vecl(x)[0] + H.el(B, 0, 0) * u + H.vecl(c)[0]
    H.eqv("successor", L.step_forward(x), [want])
    dx = L.possible_dx(x)
    H.true("one", len(dx) == 1)
    H.eqv("possible", dx[0], [want])
