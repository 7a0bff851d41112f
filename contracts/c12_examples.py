"""The closed loop: strengthening, and the loops of the examples."""
import types
import numpy as np
import torch
import gurobipy
from engine.cases import case
from engine.stubs import stub, stands_for, as_called
from contracts import dyn, mip
from contracts.dyn import IA, LP, MIP, Phi
from contracts.c10_hybrid import patched
from contracts.c11_relu_system import kinds_are
from contracts.c12_feedback import Loop, Saturations, settled
from contracts.c11_examples import Quad3d
import neural_network_lyapunov.feedback_system as fs
import neural_network_lyapunov.relu_system as rs
import neural_network_lyapunov.relu_to_optimization as rto
import neural_network_lyapunov.hybrid_linear_system as hls
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.mip_utils as mip_utils
import neural_network_lyapunov.r_options as ro
import neural_network_lyapunov.examples.car.unicycle_feedback_system as ufs
import neural_network_lyapunov.examples.quadrotor3d.quadrotor_feedback_system \
    as qfs

F = torch.float64
G = gurobipy.GRB


@stands_for(rto.ReLUFreePattern)
class Strengthen:
    """strengthen_mip_at_point by its contract: any rows, or none."""

    def __init__(self, H, name, n, rows):
        self.H, self.calls = H, []
        if rows:
            self.ret = tuple(H.tensor(f"{name}.{k}", 2, m) for k, m in
                             zip("xsz", n)) + (H.tensor(name + ".b", 2), )
        else:
            self.ret = (None, ) * 4

    def strengthen_mip_at_point(self, pt, lo, up):
        self.calls.append((pt, lo, up))
        return self.ret


@case("C12", ["feedback_system.FeedbackSystem." + f for f in (
    "strengthen_dynamics_constraint", "strengthen_controller_mip_constraint")],
      params=[(p, c, a, b) for p in ("relu", "hybrid")
              for c in ("net", "plain") for a in (0, 1) for b in (0, 1)
              if (p == "relu" or not a) and (c == "net" or not b)],
      scope="networks of three inputs, three units; two rows each")
def strengthening(H, plant, ctrl, prows, crows):
    L = Loop(H, ctrl, (0, ), 3, IA)
    prog = gtm.GurobiTorchMIP(F)
    n = 3
    groups = {k: prog.addVars(n, lb=-G.INFINITY) for k in
              ("x", "fx", "fs", "fz", "s", "z")}
    allv = [v for g in groups.values() for v in g]
    val = [H.real(f"sol{i}") for i in range(len(allv))]
    prog.gurobi_model._sols = [(0., val)]
    at = dict(zip((id(v) for v in allv), val))
    values = lambda *g: [at[id(v)] for k in g for v in groups[k]]  # noqa
    P = Strengthen(H, "plant", (n, n, n), prows)
    C = Strengthen(H, "ctrl", (n, n, n), crows)
    L.plant.dynamics_relu_free_pattern = P
    L.sys.controller_relu_free_pattern = C
    if plant == "relu":
        fwd = rs.ReLUDynamicsConstraintReturn(groups["fs"], groups["fz"])
        fwd.nn_input = groups["fx"]
        for a in ("nn_input_lo", "nn_input_up", "relu_output_lo",
                  "relu_output_up"):
            setattr(fwd, a, H.tensor("fwd." + a, n))
    else:
        fwd = hls.DynamicsConstraintReturn(groups["fs"], groups["fz"])
    lo, up = H.tensor("out_lo", n), H.tensor("out_up", n)
    con = fs.ControllerMipConstraintReturn(
        groups["x"] if ctrl == "net" else None, groups["s"], groups["z"],
        None, None, None, None, lo, up, None)
    H.cover()
    L.sys.strengthen_dynamics_constraint(prog, fwd, con)
    want = []
    if plant == "relu":
        (pt, a, b), = P.calls
        H.eqv("plant point", pt[0], values("fx", "fs"))
        H.eqv("plant activation", pt[1], values("fz"))
        H.eqv("plant lower", a, H.vecl(fwd.nn_input_lo) +
              H.vecl(fwd.relu_output_lo))
        H.eqv("plant upper", b, H.vecl(fwd.nn_input_up) +
              H.vecl(fwd.relu_output_up))
        if prows:
            want.append((P.ret, ("fx", "fs", "fz")))
    else:
        H.true("no network", P.calls == [])
    if ctrl == "net":
        (pt, a, b), = C.calls
        H.eqv("controller point", pt[0], values("x", "s"))
        H.eqv("controller activation", pt[1], values("z"))
        H.eqv("controller lower", a, H.vecl(L.plant.x_lo) + H.vecl(lo))
        H.eqv("controller upper", b, H.vecl(L.plant.x_up) + H.vecl(up))
        if crows:
            want.append((C.ret, ("x", "s", "z")))
    else:
        H.true("no controller network", C.calls == [])
    g = mip.ghosts(H, prog)
    rows = []
    for r, ks in want:
        for i in range(2):
            e = -H.el1(r[3], i)
            for M, k in zip(r, ks):
                for j, v in enumerate(groups[k]):
                    e = e + H.el(M, i, j) * g[v]
            rows.append(("<", e))
    mip.same_rows(H, "rows", mip.model_rows(H, prog, g), rows)
    mip.same_rows(H, "record", mip.recorded_rows(H, prog, g), rows)


# ------------------------------------------------------------------ unicycle
class Car:
    """A plant of 3 states and 2 controls, with the box the loop uses."""

    def __init__(self, H, x):
        self.x_dim, self.u_dim, self.dtype = 3, 2, F
        xv = H.vecl(x)
        self.x_lo_all, self.x_up_all = np.zeros(3), np.zeros(3)
        self.lo = dyn.vec([v - H.real(f"below{i}", 0.)
                           for i, v in enumerate(xv)])
        self.up = dyn.vec([v + H.real(f"above{i}", 0.)
                           for i, v in enumerate(xv)])
        self.x_lo_all = self.lo.detach().numpy()
        self.x_up_all = self.up.detach().numpy()


class CarLoop:
    def __init__(self, H, rows, method=IA):
        self.H = H
        self.x = H.tensor("x", 3)
        self.plant = Car(H, self.x)
        self.phi = Phi(H, "phi", 3, 2)
        vmax = H.real("vmax", 0.)
        w = H.real("wwidth", 0.)
        H.assume(vmax > 0)
        H.assume(w > 0)
        wlo = H.real("wlo")
        self.lo, self.up = [H.num(0.), wlo], [vmax, wlo + w]
        self.R = H.tensor("R", rows, 2)
        self.lam = H.real("lambda", 0.)
        H.assume(self.lam > 0)
        with dyn.stub_networks():
            self.sys = ufs.UnicycleFeedbackSystem(
                self.plant, self.phi, np.array([0., 0.]) + nps(H, self.lo),
                nps(H, self.up), self.lam, ro.FixedROptions(self.R))
        self.pat = self.phi.pattern
        self.limits = (1, 1)
        self.rows = rows

    def norm(self, x):
        H = self.H
        t = H.num(0.)
        for r in H.mv(self.R, H.vecl(x)[:2]):
            t = t + H.absv(r)
        return t

    def before(self, x):
        y = [a - b for a, b in zip(self.phi.value(x),
                                   self.phi.value([0., 0., 0.]))]
        return [y[0] + self.lam * self.norm(x), y[1]]

    def control(self, x):
        return [self.H.clampv(a, lo, up) for a, lo, up in
                zip(self.before(x), self.lo, self.up)]


def nps(H, vals):
    return dyn.vec(vals).detach().numpy()


UFS = "examples.car.unicycle_feedback_system.UnicycleFeedbackSystem."


@case("C12", [UFS + "compute_u", UFS + "controller_variables"],
      params=[(1, ), (2, ), (3, )], scope="R of 1 to 3 rows; batches of 4")
def unicycle_simulation(H, rows):
    C = CarLoop(H, rows)
    H.cover()
    H.eqv("control", C.sys.compute_u(C.x), C.control(C.x))
    X = H.tensor("X", 4, 3)
    U = C.sys.compute_u(X)
    H.true("shape", tuple(U.shape) == (4, 2))
    for i in range(4):
        H.eqv(f"batch[{i}]", U[i], C.control(X[i]))
    # the speed is positive wherever the network part is nonnegative and
    # |Rp| > 0
    at0 = C.sys.compute_u(torch.zeros((3, ), dtype=F))
    H.eqv("at the origin", at0, [H.clampv(H.num(0.), a, b)
                                 for a, b in zip(C.lo, C.up)])
    s = ro.SearchRwithSVDOptions((2, 2), np.array([1., 1.]))
    C.sys.Ru_options = s
    v = C.sys.controller_variables()
    H.true("variables", len(v) == len(list(C.phi.parameters())) + 1 and
           v[-1] is s._variables)


@case("C12", [UFS + "_add_network_controller_mip_constraint_given_relu_bound",
              "feedback_system.FeedbackSystem."
              "_add_network_controller_mip_constraint",
              "feedback_system._add_input_saturation_constraint",
              ],
      params=[(1, IA), (2, IA), (1, LP)],
      scope="R of 1 or 2 rows; encodings of one slack and binary")
def unicycle_program(H, rows, method):
    C = CarLoop(H, rows, method)
    C.sys.controller_network_bound_propagate_method = method
    C.pat.at(C.x)
    prog = gtm.GurobiTorchMIP(F)
    x = prog.addVars(3, lb=-G.INFINITY, name="x")
    u = prog.addVars(2, lb=-G.INFINITY, name="u")
    H.cover()
    sat, ab = Saturations(C), Absolute(C)
    with patched(fs.utils, add_saturation_as_mixed_integer_constraint=sat,
                 absolute_value_as_mixed_integer_constraint=ab), \
            patched(ufs.mip_utils, compute_range_by_IA=ab.range):
        con = C.sys._add_network_controller_mip_constraint(
            prog, x, u, "s", "z", G.BINARY)
    P = C.pat
    P.domain("box", C.plant.lo, C.plant.up, method)
    now = C.control(C.x)
    H.lev("lower bound of control", con.u_lower_bound, now)
    H.lev("upper bound of control", now, con.u_upper_bound)
    kinds_are(H, "kind", con.slack, con.binary, "B")
    H.true("input", mip.ids(con.nn_input) == mip.ids(x))
    for a, t in zip(dyn.UNITS, P.units()):
        H.same_tensor("record " + a, getattr(con, a), t)
    unicycle_settled(H, "program", prog, C, x, u, con.slack + con.binary,
                     sat, ab, G.BINARY)
    bp = con.control_bound_prog
    if method == IA:
        H.true("empty", len(bp.prog.gurobi_model.getConstrs()) == 0)
        return
    rest = [v for v in bp.prog.gurobi_model.getVars()
            if id(v) not in mip.ids(bp.x_var, bp.u_var)]
    unicycle_settled(H, "bound program", bp.prog, C, bp.x_var, bp.u_var,
                     rest[:2], sat, ab, mip_utils.binary_var_type_per_method(
                         method))


class Absolute:
    """absolute_value_as_mixed_integer_constraint by its contract (C04): rows
    that hold at (x, |x|, z) for the value x of the input, which must lie in
    the range given."""

    def __init__(self, C):
        self.C, self.H, self.n = C, C.H, 0
        self.Rp = C.H.mv(C.R, C.H.vecl(C.x)[:2])
        self.z = [C.H.choice(f"alpha{i}", [0., 1.]) for i in range(C.rows)]
        self.k = [{kind: C.H.vecl(C.H.tensor(f"abs{i}.{kind}", 3))
                   for kind in ("in", "eq")} for i in range(C.rows)]
        self.b = []
        for i, k in enumerate(self.k):
            v = [self.Rp[i], C.H.absv(self.Rp[i]), C.H.num(self.z[i])]
            self.b.append({kind: sum((a * b for a, b in zip(t, v)),
                                     C.H.num(0.)) for kind, t in k.items()})
            self.b[i]["in"] = self.b[i]["in"] + C.H.real(f"abs{i}.t", 0.)
        self.r = [(r - C.H.real(f"range.below{i}", 0.),
                   r + C.H.real(f"range.above{i}", 0.))
                  for i, r in enumerate(self.Rp)]

    def range(self, W, b, x_lo, x_up):
        """compute_range_by_IA by its contract (C02)."""
        H = self.H
        H.eqv("range of", W, self.C.R)
        H.eqv("range bias", b, [0.] * self.C.rows)
        H.eqv("range box lower", x_lo, H.vecl(self.C.plant.lo)[:2])
        H.eqv("range box upper", x_up, H.vecl(self.C.plant.up)[:2])
        return tuple(dyn.vec([r[k] for r in self.r]) for k in (0, 1))

    def __call__(self, x_lo, x_up, binary_for_zero_input=False):
        H, i = self.H, self.n % self.C.rows
        self.n += 1
        H.true("one binary", not binary_for_zero_input)
        H.eq(f"range lower[{i}]", x_lo, self.r[i][0])
        H.eq(f"range upper[{i}]", x_up, self.r[i][1])
        c = gtm.MixedIntegerConstraintsReturn()
        for kind, k in self.k[i].items():
            for a, v in zip(("input", "slack", "binary"), k):
                setattr(c, f"A{kind}_{a}", dyn.vec([v]).reshape((1, 1)))
            setattr(c, f"rhs_{kind}", dyn.vec([self.b[i][kind]]))
        c.Aout_slack = torch.tensor([[1.]], dtype=F)
        return c

    def gaps(self, i, Rp, s, z):
        return [(sense, k[0] * Rp + k[1] * s + k[2] * z - self.b[i][kind])
                for (kind, k), sense in zip(self.k[i].items(), "<=")]


def unicycle_settled(H, name, prog, C, x, u, net, sat, ab, btype):
    """With the unknowns of the encodings fixed: their rows are there, and the
    control before the saturation is the documented one."""
    P = C.pat
    xv = H.vecl(C.x)
    mine = [c for c in sat.calls if c[0] is prog]
    pre = {}
    H.true(name + ".blocks", len(mine) == 2)
    want = C.before(C.x)
    for c in mine:
        i, = [k for k, v in enumerate(u) if v is c[2]]
        pre[i] = c[1]
        H.eq(f"{name}.lower limit[{i}]", c[3], C.lo[i])
        H.eq(f"{name}.upper limit[{i}]", c[4], C.up[i])
        H.le(f"{name}.lower bound[{i}]", c[5], want[i])
        H.le(f"{name}.upper bound[{i}]", want[i], c[6])
        H.true(name + ".type", c[7] == btype)
    H.true(name + ".both", sorted(pre) == [0, 1])
    known = mip.ids(x, u, net, pre.values())
    rest = [v for v in prog.gurobi_model.getVars() if id(v) not in known]
    H.true(name + ".unknowns", len(rest) == 2 * C.rows)
    ss, al = rest[::2], rest[1::2]
    kinds_are(H, name + ".abs", ss, al, "B")
    fixed = dict(zip(x + net + ss + al, xv + P.s + P.z + [
        H.absv(r) for r in ab.Rp] + ab.z))
    sy = H.model_system(prog.gurobi_model, fixed)
    rows, enc = [], []
    for r in sy.rows:
        if [k for k in r[0].values() if not const_zero(k)]:
            rows.append(r)
        elif not r[3].endswith((".lb", ".ub")):
            enc.append(r)
    gaps = P.gaps(xv, P.s, P.z)
    for i in range(C.rows):
        gaps += ab.gaps(i, ab.Rp[i], H.absv(ab.Rp[i]), ab.z[i])
    mip.same_rows(H, name + ".encodings",
                  [(r[1], -H.scalar(r[2])) for r in enc], gaps)
    own = type(sy)(sy.kinds, rows, sy.names)
    w = [H.num(0.)] * len(sy.kinds)
    for i in range(2):
        H.entail(f"{name}.before[{i}]", own, {sy.ix[pre[i]]: 1.}, 0.,
                 want[i])
        w[sy.ix[pre[i]]] = want[i]
    H.satisfied(name + ".exists", own, w)


def const_zero(k):
    if isinstance(k, (int, float)):
        return k == 0
    return k.is_const() and k.sp is None and k.const() == 0


# --------------------------------------------------------------- quadrotor
class QuadLoop(Loop):
    """The closed loop of the quadrotor: its plant is the real one, with
    add_dynamics_constraint replaced by a record of the call."""

    def __init__(self, H, limits, method, plant_method):
        self.H, self.nx, self.nu, self.limits = H, 12, 4, limits
        q = Quad3d(H)
        self.q = q
        self.x = q.x
        self.eq, self.ueq = dyn.vec(q.e), dyn.vec(q.ue)
        self.ctrl = "net"
        self.phi = Phi(H, "ctrl", 12, 4)
        self.lo = np.full(4, -np.inf)
        self.up = np.full(4, np.inf)
        for i, fin in enumerate(limits):
            if fin:
                w = H.real(f"uwidth{i}", 0.)
                H.assume(w > 0)
                lo = H.real(f"ulo{i}")
                self.lo = self.lo + nps(H, [0. if k != i else 0.
                                            for k in range(4)])
                self.lo[i], self.up[i] = lo, lo + w
        with dyn.stub_networks():
            self.sys = qfs.QuadrotorFeedbackSystem(q.sys, self.phi, self.lo,
                                                   self.up)
        self.sys.controller_network_bound_propagate_method = method
        q.sys.network_bound_propagate_method = plant_method
        self.pat = self.phi.pattern
        self.pat.at(self.x)
        self.plant = types.SimpleNamespace(
            x_lo=q.lo, x_up=q.up, next=lambda x, u: [])
        self.calls = []
        q.sys.add_dynamics_constraint = self.record

    def record(self, mip, x_var, x_next_var, u_var, slack_var_name,
               binary_var_name, additional_u_lo=None, additional_u_up=None,
               create_lp_prog_callback=None, binary_var_type=G.BINARY,
               u_input_prog=None):
        self.calls.append(types.SimpleNamespace(
            prog=mip, x=x_var, xn=x_next_var, u=u_var, lo=additional_u_lo,
            up=additional_u_up, back=create_lp_prog_callback,
            type=binary_var_type, bound=u_input_prog))
        return "plant record"


@case("C12", ["examples.quadrotor3d.quadrotor_feedback_system."
              "QuadrotorFeedbackSystem." + f for f in (
                  "__init__", "add_dynamics_mip_constraint")],
      params=[(m, p, t) for m, p in ((IA, IA), (IA, LP), (LP, IA), (LP, LP),
                                     (MIP, LP), (LP, MIP)) for t in "BR"],
      scope="one limited control; encodings of one slack and binary")
def quadrotor_program(H, method, plant_method, btype):
    L = QuadLoop(H, (0, 0, 1, 0), method, plant_method)
    prog = gtm.GurobiTorchMIP(F)
    x = prog.addVars(12, lb=-G.INFINITY, name="x")
    xn = prog.addVars(12, lb=-G.INFINITY, name="xn")
    H.cover()
    bt = G.BINARY if btype == "B" else gtm.BINARYRELAX
    sat = Saturations(L)
    with patched(fs.utils, add_saturation_as_mixed_integer_constraint=sat):
        u, fwd, con = L.sys.add_dynamics_mip_constraint(
            prog, x, xn, "u", "fs", "fb", "cs", "cb", bt)
    H.true("plant asked once", len(L.calls) == 1)
    c, = L.calls
    H.true("plant arguments", c.prog is prog and c.type == bt and
           mip.ids(c.x) == mip.ids(x) and mip.ids(c.xn) == mip.ids(xn) and
           mip.ids(c.u) == mip.ids(u) and fwd == "plant record")
    now = L.control(L.x)
    H.lev("lower bound of control", c.lo, now)
    H.lev("upper bound of control", now, c.up)
    H.true("range of control", all(H.unbounded(v)
                                   for v in u))
    P = L.pat
    P.domain("box", L.plant.x_lo, L.plant.x_up, method)
    s, z, xv = P.s, P.z, H.vecl(L.x)
    kinds_are(H, "kind", con.slack, con.binary, btype)
    H.true("input", mip.ids(con.nn_input) == mip.ids(x))
    for a, t in zip(dyn.UNITS, P.units()):
        H.same_tensor("record " + a, getattr(con, a), t)
    fixed = dict(zip(x + xn + con.slack + con.binary,
                     xv + [H.num(0.)] * 12 + s + z))
    settled(H, "program", prog, fixed, L, u, sat, bt)
    bp = con.control_bound_prog
    H.true("bound program", bp.prog is not prog and len(bp.x_var) == 12 and
           len(bp.u_var) == 4)
    rest = [v for v in bp.prog.gurobi_model.getVars()
            if id(v) not in mip.ids(bp.x_var, bp.u_var)]
    if method == IA:
        H.true("bound program is empty", rest == [] and
               len(bp.prog.gurobi_model.getConstrs()) == 0)
    else:
        fixed = dict(zip(bp.x_var + rest[:2], xv + s + z))
        settled(H, "bound program", bp.prog, fixed, L, bp.u_var, sat,
                mip_utils.binary_var_type_per_method(method))
    if IA in (method, plant_method):
        H.true("no callback", c.back is None)
        return
    # the boxes are full-dimensional (else addVars adds an equality, C07)
    for lo, up in zip(H.vecl(L.q.lo) + H.vecl(L.q.ulo),
                      H.vecl(L.q.up) + H.vecl(L.q.uup)):
        H.assume(lo < up)
    for a, b in zip(zip(H.vecl(L.q.ulo), H.vecl(c.lo)),
                    zip(H.vecl(L.q.uup), H.vecl(c.up))):
        H.assume(H.max(*a) < H.min(*b))
    # the program of the callback has the point of every state of the box
    # (with a control within the limits of the plant)
    with patched(fs.utils, add_saturation_as_mixed_integer_constraint=sat):
        p, vin = c.back()
    for i, v in enumerate(now):
        H.assume(H.scalar(L.q.ulo[i]) <= v)
        H.assume(v <= H.scalar(L.q.uup[i]))
    vs = p.gurobi_model.getVars()
    xs, us = vs[:12], vs[12:16]
    H.true("callback input", mip.ids(vin) == mip.ids(xs[3:6], xs[9:12], us))
    for v, a in zip(xs + us, xv + now):
        if not H.no_lower(v.lb):
            H.le("callback lower", v.lb, a)
        if not H.no_upper(v.ub):
            H.le("callback upper", a, v.ub)
    for v, a in zip(vs[16:], s + z):
        if not H.no_lower(v.lb):
            H.le("callback unknown lower", v.lb, a)
        if not H.no_upper(v.ub):
            H.le("callback unknown upper", a, v.ub)
    for v in us:
        # their ranges are judged above
        v.lb, v.ub = -G.INFINITY, G.INFINITY
    fixed = dict(zip(xs + vs[16:18], xv + s + z))
    settled(H, "callback", p, fixed, L, us, sat,
            "C" if method == LP else "B")
