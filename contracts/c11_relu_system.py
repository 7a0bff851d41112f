"""Dynamics given by networks: encoding and simulation."""
import torch
import gurobipy
from engine.cases import case
from contracts import dyn, mip
from contracts.dyn import IA, LP, MIP, IA_MIP, Phi
import neural_network_lyapunov.relu_system as rs
import neural_network_lyapunov.dynamic_system as ds
import neural_network_lyapunov.gurobi_torch_mip as gtm

F = torch.float64
G = gurobipy.GRB


def within(H, name, n):
    """lo <= value <= up, all arbitrary."""
    v = H.tensor(name, n)
    lo = dyn.vec([a - H.real(f"{name}.below{i}", 0.)
                  for i, a in enumerate(H.vecl(v))])
    up = dyn.vec([a + H.real(f"{name}.above{i}", 0.)
                  for i, a in enumerate(H.vecl(v))])
    return v, lo, up


def about(H, name, v):
    """A box around several points."""
    lo, up = [], []
    for i in range(len(v[0])):
        ps = [p[i] for p in v]
        lo.append(H.min(*ps) - H.real(f"{name}.below{i}", 0.))
        up.append(H.max(*ps) + H.real(f"{name}.above{i}", 0.))
    return dyn.vec(lo), dyn.vec(up)


class Auto:
    """An autonomous system and its specification."""

    def __init__(self, H, kind, discrete, nx, method, box=None):
        self.H, self.kind, self.nx = H, kind, nx
        self.phi = Phi(H, "phi", nx, nx)
        self.x = H.tensor("x", nx)
        self.eq = None
        self.discrete = discrete
        pts = [H.vecl(self.x)]
        if kind != "plain":
            self.eq = H.tensor("xeq", nx)
        self.lo, self.up = about(H, "x", pts)
        with dyn.stub_networks():
            if kind == "plain":
                self.sys = rs.AutonomousReLUSystem(
                    F, self.lo, self.up, self.phi, method)
            else:
                cls = rs.AutonomousReLUSystemGivenEquilibrium \
                    if kind == "eq" else \
                    rs.AutonomousResidualReLUSystemGivenEquilibrium
                self.sys = cls(F, self.lo, self.up, self.phi, self.eq,
                               discrete, method)
        self.pat = self.phi.pattern

    def next(self, x):
        """The documented successor (or derivative)."""
        x = self.H.vecl(x)
        y = self.phi.value(x)
        if self.kind == "plain":
            return y
        ye = self.phi.value(self.eq)
        e = self.H.vecl(self.eq)
        out = [a - b for a, b in zip(y, ye)]
        if self.discrete:
            out = [a + b for a, b in
                   zip(out, e if self.kind == "eq" else x)]
        return out


KINDS = [("plain", True), ("eq", True), ("eq", False), ("res", True),
         ("res", False)]
AUTO_FNS = [f"relu_system.{c}.{f}" for c in (
    "AutonomousReLUSystem", "AutonomousReLUSystemGivenEquilibrium",
    "AutonomousResidualReLUSystemGivenEquilibrium") for f in (
        "mixed_integer_constraints", "add_dynamics_constraint")] + [
    "relu_system._add_dynamics_constraint_autonmous",
    "relu_system.ReLUDynamicsConstraintReturn.from_mip_cnstr_return",
    "gurobi_torch_mip.GurobiTorchMIP.add_mixed_integer_linear_constraints"]


def new_program(H, nx, nu=0):
    """A program with variables of the caller."""
    m = gtm.GurobiTorchMIP(F)
    x = m.addVars(nx, lb=-G.INFINITY, name="x")
    u = m.addVars(nu, lb=-G.INFINITY, name="u") if nu else []
    xn = m.addVars(nx, lb=-G.INFINITY, name="xn")
    return m, x, u, xn


def solved(H, name, prog, fixed, xn, want, network, binary=(), zeros=()):
    """With the network's unknowns fixed, the program has exactly the network's
    rows and one value for the successor, the wanted one.

    network: [(sense, gap)] of the rows of the encoding"""
    sy = H.model_system(prog.gurobi_model, fixed)
    H.true(name + ".variables", all(any(v is w for w in xn) for v in sy.ix)
           and len(sy.ix) == len(xn))
    mine, nets = [], []
    for r in sy.rows:
        cs = [k for k in r[0].values() if not const_zero(k)]
        if cs:
            mine.append(r)
        elif not r[3].endswith((".lb", ".ub")):
            nets.append(r)
    # bounds of the fixed unknowns are stated apart
    for v in list(fixed) + list(xn):
        own = v.vtype == "B" or (v.lb, v.ub) == (0., 1.) \
            if id(v) in mip.ids(binary) else (v.lb, v.ub) == (0., 0.) \
            if id(v) in mip.ids(zeros) else H.unbounded(v)
        H.true(name + ".range", own)
    mip.same_rows(H, name + ".network", [(r[1], -H.num(0.) - H.scalar(r[2]))
                                         for r in nets], network,
                  extra=True)
    own = type(sy)(sy.kinds, mine, sy.names)
    for j, w in enumerate(want):
        H.entail(f"{name}.only[{j}]", own, {sy.ix[xn[j]]: 1.}, 0., w)
    wit = [None] * len(xn)
    for j, v in enumerate(xn):
        wit[sy.ix[v]] = want[j]
    H.satisfied(name + ".exists", own, wit)


def const_zero(k):
    if isinstance(k, (int, float)):
        return k == 0
    return k.is_const() and k.sp is None and k.const() == 0


def kinds_are(H, name, slack, binary, btype):
    H.true(name + ".slack", all(v.vtype == "C" and H.unbounded(v) for v in slack))
    if btype == "B":
        H.true(name + ".binary", all(v.vtype == "B" for v in binary))
    else:
        H.true(name + ".binary", all(
            v.vtype == "C" and v.lb == 0. and v.ub == 1. for v in binary))


def fields(H, ret, pat, inputs):
    for a, v in pat.bounds.items():
        H.true(f"field {a}", getattr(ret, a) is v)
    H.true("field nn_input", mip.ids(ret.nn_input) == mip.ids(inputs))


@case("C11", AUTO_FNS + ["dynamic_system._add_system_constraint"],
      params=[(k, d, n, m, bt) for k, d in KINDS
              for n, m, bt in ((1, IA, "B"), (2, IA, "B"), (1, LP, "B"),
                               (1, MIP, "B"), (1, IA_MIP, "B"),
                               (1, IA, "R"))],
      scope="state of 1 or 2; encodings of one slack and binary, of 2 rows")
def autonomous(H, kind, discrete, nx, method, btype):
    A = Auto(H, kind, discrete, nx, method)
    A.pat.at(A.x)
    direct = H.bit("direct")
    prog, x, _, xn = new_program(H, nx)
    H.cover()
    kw = mip.kind_argument(btype)
    if direct:
        ret = A.sys.add_dynamics_constraint(prog, x, xn, "s", "g", **kw)
    else:
        ret = ds._add_system_constraint(A.sys, prog, x, xn, **kw)
    P = A.pat
    P.domain("box", A.lo, A.up, method)
    xv, want = H.vecl(A.x), A.next(A.x)
    kinds_are(H, "kind", ret.slack, ret.binary, btype)
    fixed = dict(zip(x + ret.slack + ret.binary, xv + P.s + P.z))
    net = P.gaps(xv, P.s, P.z)
    solved(H, "program", prog, fixed, xn, want, net, ret.binary)
    fields(H, ret, P, x)
    if method in (IA, IA_MIP):
        H.lev("lower bound", ret.x_next_lb_IA, want)
        H.lev("upper bound", want, ret.x_next_ub_IA)
    else:
        H.true("no bound", ret.x_next_lb_IA is None and
               ret.x_next_ub_IA is None)
    if method == IA:
        H.true("no program", ret.x_next_bound_prog is None)
        return
    bp = ret.x_next_bound_prog
    H.true("its variables are its own", bp is not prog)
    rest = [v for v in bp.gurobi_model.getVars() if not any(
        v is w for w in ret.x_var + ret.x_next_bound_var)]
    H.true("unknowns", len(rest) == len(P.s) + len(P.z))
    for v in rest[len(P.s):]:
        H.true("kind of the bound program", v.vtype == (
            "C" if method == LP else "B"))
    for v in ret.x_var + ret.x_next_bound_var + rest[:len(P.s)]:
        H.true("unbounded", H.unbounded(v))
    fixed = dict(zip(ret.x_var + rest, xv + P.s + P.z))
    solved(H, "bound program", bp, fixed, ret.x_next_bound_var, want,
           net, rest[len(P.s):])


@case("C11", [f"relu_system.{c}.{f}" for c in (
    "AutonomousReLUSystem", "AutonomousReLUSystemGivenEquilibrium",
    "AutonomousResidualReLUSystemGivenEquilibrium")
    for f in ("step_forward", "possible_dx", "x_lo_all", "x_up_all")],
      params=[(k, d, n) for k, d in KINDS for n in (1, 2)],
      scope="state of 1 or 2, batches of 3")
def autonomous_simulation(H, kind, discrete, nx):
    A = Auto(H, kind, discrete, nx, IA)
    H.cover()
    want = A.next(A.x)
    H.eqv("successor", A.sys.step_forward(A.x), want)
    dx = A.sys.possible_dx(A.x)
    H.true("one derivative", len(dx) == 1)
    H.eqv("possible", dx[0], want)
    X = H.tensor("X", 3, nx)
    Y = A.sys.step_forward(X)
    H.true("batch shape", tuple(Y.shape) == (3, nx))
    for i in range(3):
        H.eqv(f"batch[{i}]", Y[i], A.next(X[i]))
    H.eqv("lower limits", A.sys.x_lo_all, A.lo)
    H.eqv("upper limits", A.sys.x_up_all, A.up)
    if kind != "plain":
        at = A.sys.step_forward(A.eq)
        H.eqv("equilibrium", at, A.eq if discrete else [0.] * nx)


# ---------------------------------------------------------- with a control
class Ctrl:
    def __init__(self, H, kind, discrete, nx, nu, indices=None):
        self.H, self.kind, self.nx, self.nu = H, kind, nx, nu
        self.discrete = discrete
        self.x, self.u = H.tensor("x", nx), H.tensor("u", nu)
        self.ind = list(range(nx)) if indices is None else indices
        second = kind in ("second", "residue")
        self.nv = nx // 2 if second else nx
        self.nq = nx - self.nv
        self.phi = Phi(H, "phi", len(self.ind) + nu, self.nv)
        self.eq = self.ueq = None
        xs, us = [H.vecl(self.x)], [H.vecl(self.u)]
        if kind != "plain":
            self.ueq = H.tensor("ueq", nu)
            us.append(H.vecl(self.ueq))
            if second:
                self.q = H.tensor("qeq", self.nq)
                self.eq = torch.cat((self.q, torch.zeros((self.nv, ),
                                                         dtype=F)))
            else:
                self.eq = H.tensor("xeq", nx)
            xs.append(H.vecl(self.eq))
        self.lo, self.up = about(H, "x", xs)
        self.ulo, self.uup = about(H, "u", us)
        a = (F, self.lo, self.up, self.ulo, self.uup, self.phi)
        self.dt = H.real("dt", 0.) if second else None
        if second:
            H.assume(self.dt > 0)
        with dyn.stub_networks():
            if kind == "plain":
                self.sys = rs.ReLUSystem(*a)
            elif kind == "eq":
                self.sys = rs.ReLUSystemGivenEquilibrium(
                    *a, self.eq, self.ueq, discrete)
            elif kind == "second":
                self.sys = rs.ReLUSecondOrderSystemGivenEquilibrium(
                    *a, self.q, self.ueq, self.dt)
            else:
                self.sys = rs.ReLUSecondOrderResidueSystemGivenEquilibrium(
                    *a, self.q, self.ueq, self.dt, self.ind)
        self.pat = self.phi.pattern

    def part(self, x):
        x = self.H.vecl(x)
        return [x[i] for i in self.ind]

    def next(self, x, u):
        H = self.H
        x, u = H.vecl(x), H.vecl(u)
        y = self.phi.value(self.part(x) + u)
        if self.kind == "plain":
            return y
        ye = self.phi.value(self.part(self.eq) + H.vecl(self.ueq))
        y = [a - b for a, b in zip(y, ye)]
        if self.kind == "eq":
            return [a + b for a, b in zip(y, H.vecl(self.eq))] \
                if self.discrete else y
        q, v = x[:self.nq], x[self.nq:]
        if self.kind == "residue":
            y = [a + b for a, b in zip(v, y)]
        qn = [a + (b + c) * self.dt / 2 for a, b, c in zip(q, v, y)]
        return qn + y


CTRL = [("plain", True, 1, 1, None), ("plain", True, 2, 2, None),
        ("eq", True, 1, 1, None), ("eq", False, 2, 1, None),
        ("second", True, 2, 1, None), ("second", True, 4, 2, None),
        ("residue", True, 2, 1, [1]), ("residue", True, 4, 1, [1, 3]),
        ("residue", True, 2, 1, [1, 0]), ("residue", True, 4, 1, [3, 0, 1])]
NAMES = ("ReLUSystem", "ReLUSystemGivenEquilibrium",
         "ReLUSecondOrderSystemGivenEquilibrium",
         "ReLUSecondOrderResidueSystemGivenEquilibrium")


@case("C11", [f"relu_system.{c}.add_dynamics_constraint" for c in NAMES] +
      [f"relu_system.{c}.mixed_integer_constraints" for c in NAMES[:3]] +
      ["relu_system._add_dynamics_mip_constraints",
       "relu_system.ReLUDynamicsConstraintReturn.from_mip_cnstr_return"],
      params=[(c, l) for c in CTRL for l in ((), ("lo", ), ("lo", "up"))],
      scope="the listed dimensions; encodings of one slack and binary, of 2 "
      "rows")
def controlled(H, cfg, limits):
    kind, discrete, nx, nu, ind = cfg
    C = Ctrl(H, kind, discrete, nx, nu, ind)
    xin = C.part(C.x) + H.vecl(C.u)
    C.pat.at(xin)
    uv = H.vecl(C.u)
    kw, ulo, uup = {}, H.vecl(C.ulo), H.vecl(C.uup)
    if "lo" in limits:
        kw["additional_u_lo"] = dyn.vec([a - H.real(f"ul{i}", 0.)
                                         for i, a in enumerate(uv)])
        ulo = [H.max(a, b) for a, b in zip(ulo,
                                           H.vecl(kw["additional_u_lo"]))]
    if "up" in limits:
        kw["additional_u_up"] = dyn.vec([a + H.real(f"uu{i}", 0.)
                                         for i, a in enumerate(uv)])
        uup = [H.min(a, b) for a, b in zip(uup,
                                           H.vecl(kw["additional_u_up"]))]
    bt = H.choice("type", ["B", "R"])
    prog, x, u, xn = new_program(H, nx, nu)
    H.cover()
    ret = C.sys.add_dynamics_constraint(
        prog, x, xn, u, "s", "g", **mip.kind_argument(bt), **kw)
    P = C.pat
    P.domain("box", [H.vecl(C.lo)[i] for i in C.ind] + ulo,
             [H.vecl(C.up)[i] for i in C.ind] + uup, IA)
    kinds_are(H, "kind", ret.slack, ret.binary, bt)
    fixed = dict(zip(x + u + ret.slack + ret.binary,
                     H.vecl(C.x) + uv + P.s + P.z))
    net = P.gaps(xin, P.s, P.z)
    solved(H, "program", prog, fixed, xn, C.next(C.x, C.u), net,
           ret.binary)
    fields(H, ret, P, [x[i] for i in C.ind] + u)


@case("C11", [f"relu_system.{c}.{f}" for c in NAMES
              for f in ("step_forward", "possible_dx", "x_lo_all",
                        "x_up_all")],
      params=[(c, ) for c in CTRL], scope="the listed dimensions, batches of 3")
def controlled_simulation(H, cfg):
    kind, discrete, nx, nu, ind = cfg
    C = Ctrl(H, kind, discrete, nx, nu, ind)
    H.cover()
    want = C.next(C.x, C.u)
    H.eqv("successor", C.sys.step_forward(C.x, C.u), want)
    dx = C.sys.possible_dx(C.x, C.u)
    H.true("one derivative", len(dx) == 1)
    H.eqv("possible", dx[0], want)
    X, U = H.tensor("X", 3, nx), H.tensor("U", 3, nu)
    Y = C.sys.step_forward(X, U)
    H.true("batch shape", tuple(Y.shape) == (3, nx))
    for i in range(3):
        H.eqv(f"batch[{i}]", Y[i], C.next(X[i], U[i]))
    H.eqv("lower limits", C.sys.x_lo_all, C.lo)
    H.eqv("upper limits", C.sys.x_up_all, C.up)
    if kind != "plain":
        at = C.sys.step_forward(C.eq, C.ueq)
        H.eqv("equilibrium", at, C.eq if discrete else [0.] * nx)


@case("C11", [f"relu_system.{c}.mixed_integer_constraints" for c in (
    "AutonomousReLUSystemGivenEquilibrium",
    "AutonomousResidualReLUSystemGivenEquilibrium",
    "ReLUSystemGivenEquilibrium",
    "ReLUSecondOrderSystemGivenEquilibrium")] +
      ["relu_to_optimization.ReLUFreePattern.output_constraint"],
      params=[("auto", ), ("res", ), ("ctrl", ), ("second", )],
      scope="a real network of one hidden unit; second call after the first")
def network_is_kept(H, kind):
    """Encoding leaves the network as it was; the encoding is for the
    network, with the terms of the system added to it once."""
    from contracts.nets import Net
    nin = {"auto": 1, "res": 1, "ctrl": 2, "second": 3}[kind]
    net = Net(H, "net", [nin, 1, 1])
    e = H.tensor("xeq", 1)
    one = torch.ones((1, ), dtype=F)
    B = H.real("B", 0.)
    B = H.max(B, *[H.absv(v) for v in H.vecl(e)])
    lo, up = dyn.vec([-B]), dyn.vec([B])
    if kind in ("auto", "res"):
        cls = rs.AutonomousReLUSystemGivenEquilibrium if kind == "auto" \
            else rs.AutonomousResidualReLUSystemGivenEquilibrium
        s = cls(F, lo, up, net.model, e)
        at = H.vecl(e)
    elif kind == "ctrl":
        s = rs.ReLUSystemGivenEquilibrium(F, lo, up, -one, one, net.model, e,
                                          0. * one, True)
        at = H.vecl(e) + [0.]
    else:
        s = rs.ReLUSecondOrderSystemGivenEquilibrium(
            F, torch.cat((lo, lo)), torch.cat((up, up)), -one, one,
            net.model, e, 0. * one, 0.5)
        at = H.vecl(e) + [0., 0.]
    old = [p.detach().clone() for p in net.model.parameters()]
    y0 = net.value(at)[0]
    H.cover()
    a = s.mixed_integer_constraints()
    b = s.mixed_integer_constraints()
    H.same_tensor("constant", a.Cout, b.Cout)
    H.same_tensor("slope", a.Aout_slack, b.Aout_slack)
    bias = H.vecl(old[-1])[0]
    v = bias - y0
    if kind in ("auto", "ctrl"):
        v = v + H.vecl(e)[0]
    H.eq("value", H.vecl(a.Cout)[-1], v)
    for i, (p, q) in enumerate(zip(net.model.parameters(), old)):
        H.same_tensor(f"parameter{i}", p.detach(), q)


@case("C11", [f"relu_system.{c}.mixed_integer_constraints"
              for c in NAMES[:3]],
      params=[(c, l) for c in (("plain", True, 2, 1, None),
                               ("eq", True, 2, 1, None),
                               ("eq", False, 1, 1, None),
                               ("second", True, 2, 1, None))
              for l in ((), ("lo", ), ("up", ), ("lo", "up"))],
      scope="the listed dimensions; encodings of one slack and binary")
def controlled_constraints(H, cfg, limits):
    """The constraint data: for the limits given, or the system's own."""
    kind, discrete, nx, nu, ind = cfg
    C = Ctrl(H, kind, discrete, nx, nu, ind)
    xu = H.vecl(C.x) + H.vecl(C.u)
    C.pat.at(xu)
    uv = H.vecl(C.u)
    kw, ulo, uup = {}, H.vecl(C.ulo), H.vecl(C.uup)
    if "lo" in limits:
        kw["u_lo"] = dyn.vec([a - H.real(f"ul{i}", 0.)
                              for i, a in enumerate(uv)])
        ulo = H.vecl(kw["u_lo"])
    if "up" in limits:
        kw["u_up"] = dyn.vec([a + H.real(f"uu{i}", 0.)
                              for i, a in enumerate(uv)])
        uup = H.vecl(kw["u_up"])
    H.cover()
    r = C.sys.mixed_integer_constraints(**kw)
    P = C.pat
    P.domain("box", H.vecl(C.lo) + ulo, H.vecl(C.up) + uup, IA)
    y = H.vecl(r.Cout)
    for M, v in ((r.Aout_input, xu), (r.Aout_slack, P.s),
                 (r.Aout_binary, P.z)):
        if M is not None:
            y = [a + b for a, b in zip(y, H.mv(M, v))]
    H.eqv("successor", y, C.next(C.x, C.u))
    for k in ("in", "eq"):
        for a, b in zip(("input", "slack", "binary"), P.rows[k]):
            H.same_tensor(f"A{k}_{a}", getattr(r, f"A{k}_{a}"), b)
        H.same_tensor(f"rhs_{k}", getattr(r, f"rhs_{k}"), P.rows[k][3])
