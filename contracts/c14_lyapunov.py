"""The programs of the Lyapunov conditions."""
import collections
import types
import torch
import gurobipy
from engine.cases import case
from engine.stubs import stub, stands_for
from contracts import dyn, mip
from contracts.c10_hybrid import patched
from contracts.c11_relu_system import about
from contracts.dyn import IA, LP, MIP, IA_MIP
from contracts.lyap import (Net, Code, Abs, Adds, Plant, R_of, blocks,
                            free_states, abs_by_contract,
                            plant_unknowns)
import neural_network_lyapunov.lyapunov as lyapunov
import neural_network_lyapunov.feedback_system as fs
import neural_network_lyapunov.relu_to_optimization as rto
import neural_network_lyapunov.gurobi_torch_mip as gtm

F = torch.float64
G = gurobipy.GRB
BASE = "lyapunov.LyapunovHybridLinearSystem."
DISC = "lyapunov.LyapunovDiscreteTimeHybridSystem."
Eps = lyapunov.ConvergenceEps


class World:
    """A network, a plant and an equilibrium; x* and the points in the box."""

    def __init__(self, H, nx, npts, rows, ns=2, nbin=1, method=None,
                 cls=lyapunov.LyapunovDiscreteTimeHybridSystem, succ=True,
                 inside=None, larger=False, code=Code):
        self.H, self.nx = H, nx
        self.xeq = H.tensor("xeq", nx)
        self.pts = [H.tensor(f"x{k}", nx) for k in range(npts)]
        vs = [H.vecl(p) for p in self.pts] + [H.vecl(self.xeq)]
        if not H.sym:
            # the values of the network at the points are drawn apart
            for i, a in enumerate(vs):
                H.assume(all(a != b for b in vs[:i]))
        ins = vs if inside is None else [vs[i] for i in inside] + vs[-1:]
        self.lo, self.up = self.elo, self.eup = about(H, "x", ins)
        if inside is not None:
            self.Lo, self.Up = about(H, "larger", vs + [
                H.vecl(self.lo), H.vecl(self.up)])
            if larger:      # where the encodings have to be valid
                self.elo, self.eup = self.Lo, self.Up
        self.net = Net(H, "phi", nx, 1)
        self.plant = Plant(H, nx, self.lo, self.up, [
            (self.pts[0], self.pts[1])] if npts == 2 and succ else ())
        with patched(rto, ReLUFreePattern=code):
            self.dut = cls(self.plant, self.net)
        self.code = self.net.pattern
        self.code.at(self.pts, ns=ns)
        self.Rarg, self.R = R_of(H, rows, nx)
        self.abs = Abs(H, self.R, self.xeq, self.pts, self.elo, self.eup,
                       nbin)
        self.lam = H.real("lambda")
        self.eps = H.real("epsilon")
        self.method = method or IA
        if method is not None:
            self.dut.network_bound_propagate_method = method

    def V(self, x):
        return self.net.value(x)[0] - self.net.value(self.xeq)[0] + \
            self.lam * self.abs.norm(x)

    def run(self, f):
        a, b = abs_by_contract(self.abs)
        self.adds = Adds()
        with a, b, self.adds, patched(
                rto, set_activation_warmstart=self.warm):
            return f()

    def warm(self, relu, beta, x):
        self.warms = getattr(self, "warms", []) + [(relu, beta, x)]

    def warmed(self, want):
        """want: [(network, binaries, state)]"""
        H, left = self.H, list(getattr(self, "warms", []))
        for i, (net, beta, x) in enumerate(want):
            hit = [w for w in left if w[0] is net and
                   mip.ids(w[1]) == mip.ids(beta)]
            H.true(f"warm start {i}", len(hit) == 1)
            left.remove(hit[0])
            H.eqv(f"warm start {i} at", hit[0][2], x)
        H.true("no other warm start", left == [])


@case("C14", [BASE + f for f in (
    "__init__", "lyapunov_value")] + ["lyapunov._get_R",
                                      DISC + "lyapunov_derivative"],
      params=[(1, 0, 1), (1, 2, 2), (2, 0, 2), (2, 3, 2), (2, 2, 3),
              (3, 3, 1)],
      scope="state of 1 to 3, batches of 1 to 3")
def value(H, nx, rows, batch):
    W = World(H, nx, 2, rows)
    x, y = W.pts
    H.cover()
    kw = dict(R=W.Rarg)
    v = W.dut.lyapunov_value(x, W.xeq, W.lam, **kw)
    H.eq("value", v, W.V(x))
    X = torch.stack([x, y, W.xeq][:batch])
    v = W.dut.lyapunov_value(X, W.xeq, W.lam, **kw)
    H.true("batch shape", tuple(v.shape) == (batch, ))
    for i in range(batch):
        H.eq(f"batch[{i}]", v[i], W.V(X[i]))
    H.eq("at the equilibrium",
         W.dut.lyapunov_value(W.xeq, W.xeq, W.lam, **kw), 0.)
    three = [x, y, W.xeq]
    for n in range(4):
        W.plant.possible_dx = lambda t: three[:n]
        d = W.dut.lyapunov_derivative(y, W.xeq, W.lam, W.eps, **kw)
        H.true(f"number {n}", len(d) == n)
        for i in range(n):
            H.eq(f"derivative {n}[{i}]", d[i], W.V(three[i]) - W.V(y) +
                 W.eps * W.V(y))


@case("C14", [BASE + "add_lyap_relu_output_constraint"],
      params=[(1, 2, IA, "B", ""), (2, 2, LP, "B", "lo"),
              (2, 1, MIP, "R", "up"), (1, 3, IA_MIP, "R", "lo up"),
              (2, 2, IA, "B", "")],
      scope="state of 1 or 2, encodings of 1 to 3 unknowns")
def network(H, nx, ns, method, btype, given):
    W = World(H, nx, 1, 0, ns=ns, method=method)
    prog = gtm.GurobiTorchMIP(F)
    x = prog.addVars(nx, lb=-G.INFINITY, name="x")
    lo, up, kw = W.lo, W.up, {}
    if "lo" in given:
        lo = kw["x_lo"] = dyn.vec([v - H.real(f"nearer{i}", 0.) for i, v in
                                   enumerate(H.vecl(W.pts[0]))])
    if "up" in given:
        up = kw["x_up"] = dyn.vec([v + H.real(f"above{i}", 0.) for i, v in
                                   enumerate(H.vecl(W.pts[0]))])
    H.cover()
    z, beta, a, b, c = W.run(
        lambda: W.dut.add_lyap_relu_output_constraint(
            prog, x, "zz", "bb", **kw, **mip.kind_argument(btype)))
    W.code.boxes(lo, up, method, 1)
    val = dict(zip(x, H.vecl(W.pts[0])))
    rows, g = blocks(H, "program", W.adds, prog, W.net, W.abs, {
        "x": (x, 0, ("net", ))}, val, btype)
    H.true("unknowns", mip.ids(z, beta) == mip.ids(*g["x"][:2]) and
           len(val) == len(prog.gurobi_model.getVars()))
    mip.same_rows(H, "rows", mip.model_rows(H, prog, val, False), rows)
    a = [H.scalar(t) for t in a.reshape((-1, ))]
    H.eq("output", sum((p * q for p, q in zip(a, W.code.s[0])),
                       H.scalar(b)), W.net.value(W.pts[0])[0])
    H.same_tensor("fields", c.relu_input_lo, W.code.units["relu_input_lo"])


@case("C14", [BASE + "add_state_error_l1_constraint"],
      params=[(1, 0, 1, "B"), (2, 0, 3, "B"), (2, 3, 1, "R"), (1, 2, 3, "R"),
              (2, 2, 1, "B")],
      scope="state of 1 or 2, R of 1 to 3 rows")
def norm(H, nx, rows, nbin, btype):
    W = World(H, nx, 1, rows, nbin=nbin)
    prog = gtm.GurobiTorchMIP(F)
    x = prog.addVars(nx, lb=-G.INFINITY, name="x")
    H.cover()
    s, alpha = W.run(lambda: W.dut.add_state_error_l1_constraint(
        prog, W.xeq, x, R=W.Rarg, slack_name="n", binary_var_name="m",
        **mip.kind_argument(btype),
        **(dict(binary_for_zero_input=True) if nbin == 3 else {})))
    val = dict(zip(x, H.vecl(W.pts[0])))
    rws, g = blocks(H, "program", W.adds, prog, W.net, W.abs, {
        "x": (x, 0, ("abs", ))}, val, btype)
    m = W.abs.m
    H.true("unknowns", mip.ids(s) == mip.ids(g["x"][2]) and
           len(val) == len(prog.gurobi_model.getVars()))
    H.true("binaries", len(alpha) == m and mip.ids(
        *([a] if nbin == 1 else a for a in alpha)) == mip.ids(*g["x"][3]))
    mip.same_rows(H, "rows", mip.model_rows(H, prog, val, False), rws)


@case("C14", [BASE + "add_state_error_l1_constraint",
              BASE + "validate_x_equilibrium"],
      params=[(n, i, up) for n in (1, 2) for i in range(n)
              for up in (0, 1)], scope="state of 1 or 2")
def equilibrium_outside(H, nx, i, above):
    W = World(H, nx, 1, 0)
    prog = gtm.GurobiTorchMIP(F)
    x = prog.addVars(nx, lb=-G.INFINITY, name="x")
    d = H.real("d", 0.)
    H.assume(d > 0)
    e = H.vecl(W.xeq)
    e[i] = H.scalar(W.up[i]) + d if above else H.scalar(W.lo[i]) - d
    bad = dyn.vec(e)
    H.cover()
    H.raises("refused", lambda: W.dut.add_state_error_l1_constraint(
        prog, bad, x))
    H.raises("invalid", lambda: W.dut.validate_x_equilibrium(bad))
    W.dut.validate_x_equilibrium(W.xeq)


POS = [(1, 0, 2, 0), (2, 2, 2, 1), (2, 3, 1, 0), (1, 2, 1, 1), (2, 0, 3, 1)]


@case("C14", [BASE + f for f in (
    "lyapunov_positivity_as_milp", "add_lyap_relu_output_constraint",
    "add_state_error_l1_constraint")], params=POS,
      scope="state of 1 or 2, encodings of 1 to 3 unknowns, R of 1 to 3 rows")
def positivity(H, nx, rows, ns, warm):
    W = World(H, nx, 1, rows, ns=ns)
    xw = H.tensor("warm", nx) if warm else None
    H.cover()
    prog, x = W.run(lambda: W.dut.lyapunov_positivity_as_milp(
        W.xeq, W.lam, W.eps, R=W.Rarg, x_warmstart=xw))
    H.true("class", isinstance(prog, gtm.GurobiTorchMILP))
    W.code.boxes(W.lo, W.up, W.method, 1)
    free_states(H, "x", x)
    val = dict(zip(x, H.vecl(W.pts[0])))
    rws, g = blocks(H, "program", W.adds, prog, W.net, W.abs, {
        "x": (x, 0, ("net", "abs"))}, val, "B")
    H.true("unknowns", len(val) == len(prog.gurobi_model.getVars()))
    mip.same_rows(H, "rows", mip.model_rows(H, prog, val, False), rws)
    mip.same_rows(H, "record", mip.recorded_rows(H, prog, val), rws)
    p = W.pts[0]
    H.eq("objective", mip.objective_at(H, prog, val),
         W.eps * W.abs.norm(p) - W.V(p))
    H.true("sense", prog.gurobi_model.ModelSense == G.MAXIMIZE and
           prog.sense == G.MAXIMIZE)
    W.warmed([(W.net, g["x"][1], xw)] if warm else [])


@case("C14", [BASE + "_lyapunov_value_as_milp"], params=POS[:],
      scope="state of 1 or 2, encodings of 1 to 3 unknowns, R of 1 to 3 rows")
def value_as_program(H, nx, rows, ns, _):
    W = World(H, nx, 1, rows, ns=ns)
    prog = gtm.GurobiTorchMIP(F)
    x = prog.addVars(nx, lb=-G.INFINITY, name="x")
    H.cover()
    co, vs, k, s = W.run(lambda: W.dut._lyapunov_value_as_milp(
        prog, x, W.xeq, W.lam, W.Rarg))
    W.code.boxes(W.lo, W.up, W.method, 1)
    val = dict(zip(x, H.vecl(W.pts[0])))
    rws, g = blocks(H, "program", W.adds, prog, W.net, W.abs, {
        "x": (x, 0, ("net", "abs"))}, val, "B")
    H.true("unknowns", len(val) == len(prog.gurobi_model.getVars()) and
           mip.ids(s) == mip.ids(g["x"][2]))
    mip.same_rows(H, "rows", mip.model_rows(H, prog, val, False), rws)
    t = H.scalar(k)
    for c, w in zip(co, vs):
        H.true("coefficients", tuple(c.shape) == (len(w), ))
        for a, v in zip(H.vecl(c), w):
            t = t + a * val[v]
    H.eq("value", t, W.V(W.pts[0]))


@case("C14", [BASE + "add_lyapunov_bounds_constraint"],
      params=[(lo, up, n) for lo in (0, 1) for up in (0, 1) for n in (1, 2)],
      scope="networks of 2 unknowns, norms of 1 or 2 terms")
def bounds_rows(H, lo, up, n):
    W = World(H, 1, 1, 0)
    prog = gtm.GurobiTorchMIP(F)
    z = prog.addVars(2, lb=-G.INFINITY)
    s = prog.addVars(n, lb=-G.INFINITY)
    a, b = H.tensor("a", 2), H.tensor("b", 1)
    at = H.tensor("at", 1)
    lower = H.real("lower") if lo else None
    upper = H.real("upper") if up else None
    H.cover()
    W.dut.add_lyapunov_bounds_constraint(lower, upper, prog, a, b, W.lam, z,
                                         at, s)
    val = mip.ghosts(H, prog)
    V = H.el1(b, 0) - H.el1(at, 0)
    for i, v in enumerate(z):
        V = V + H.el1(a, i) * val[v]
    for v in s:
        V = V + W.lam * val[v]
    rows = ([("<", lower - V)] if lo else []) + (
        [("<", V - upper)] if up else [])
    mip.same_rows(H, "rows", mip.model_rows(H, prog, val), rows)
    mip.same_rows(H, "record", mip.recorded_rows(H, prog, val), rows)


@case("C14", [DISC + "lyapunov_derivative_as_milp"] + [BASE + f for f in (
    "add_lyap_relu_output_constraint", "add_state_error_l1_constraint",
    "add_lyapunov_bounds_constraint")] + [
        "dynamic_system._add_system_constraint"],
      params=[(e, n, r, ns, lo, up, bt, w) for e in
              ("ExpLower", "ExpUpper", "Asymp")
              for n, r, ns, lo, up, bt, w in (
                  (1, 0, 2, 0, 0, "B", 0), (2, 2, 2, 1, 1, "B", 1),
                  (1, 2, 1, 1, 0, "R", 1), (2, 3, 2, 0, 1, "B", 0),
                  (2, 0, 2, 1, 1, "R", 0))],
      scope="state of 1 or 2, encodings of 1 or 2 unknowns, R of 1 to 3 rows")
def derivative(H, eps, nx, rows, ns, lo, up, btype, warm):
    W = World(H, nx, 2, rows, ns=ns)
    xw = H.tensor("warm", nx) if warm else None
    lower = H.real("lower") if lo else None
    upper = H.real("upper") if up else None
    H.cover()
    bt = G.BINARY if btype == "B" else gtm.BINARYRELAX
    r = W.run(lambda: W.dut.lyapunov_derivative_as_milp(
        W.xeq, W.lam, W.eps, getattr(Eps, eps), R=W.Rarg,
        lyapunov_lower=lower, lyapunov_upper=upper, x_warmstart=xw,
        **mip.kind_argument(btype)))
    prog = r.milp
    H.true("class", isinstance(prog, gtm.GurobiTorchMILP))
    W.code.boxes(W.lo, W.up, W.method, 2)
    free_states(H, "states", r.x, r.x_next)
    c, = W.plant.calls
    H.true("plant asked", c[0] is prog and mip.ids(c[1], c[2]) == mip.ids(
        r.x, r.x_next) and c[-1] == bt and c[-2] is
        r.system_constraint_return)
    H.true("plant unknowns", mip.ids(r.s, r.gamma) == mip.ids(c[3], c[4]))
    x, y = W.pts
    val = dict(zip(r.x + r.x_next, H.vecl(x) + H.vecl(y)))
    plant_unknowns(H, c, val)
    rws, g = blocks(H, "program", W.adds, prog, W.net, W.abs, {
        "x": (r.x, 0, ("net", "abs")),
        "x_next": (r.x_next, 1, ("net", "abs"))}, val, btype)
    H.true("unknowns", len(val) == len(prog.gurobi_model.getVars()) and
           mip.ids(r.z, r.beta, r.z_next, r.beta_next) ==
           mip.ids(*g["x"][:2], *g["x_next"][:2]))
    rws.append(W.plant.gap(0, val))
    Vx, Vn = W.V(x), W.V(y)
    if lo:
        rws.append(("<", lower - Vx))
    if up:
        rws.append(("<", Vx - upper))
    got = mip.model_rows(H, prog, val, False)
    mip.same_rows(H, "rows", got, rws)
    if btype == "B":
        mip.same_rows(H, "record", mip.recorded_rows(H, prog, val), rws)
    want = {"ExpLower": Vn - Vx + W.eps * Vx,
            "ExpUpper": -(Vn - Vx + W.eps * Vx),
            "Asymp": Vn - Vx + W.eps * W.abs.norm(x)}[eps]
    H.eq("objective", mip.objective_at(H, prog, val), want)
    H.true("sense", prog.gurobi_model.ModelSense == G.MAXIMIZE and
           prog.sense == G.MAXIMIZE)
    W.warmed([(W.plant.dynamics_relu, r.gamma, xw), (W.net, r.beta, xw),
              (W.net, r.beta_next, W.plant.step(xw))] if warm else [])
    for k, c in (("x", r.lyap_relu_x_mip_cnstr_ret),
                 ("x_next", r.lyap_relu_x_next_mip_cnstr_ret)):
        for a, t in W.code.units.items():
            H.same_tensor(f"{k} {a}", getattr(c, a), t)


# --------------------------------------------------------- strengthening
Ret = collections.namedtuple("Ret", [
    "milp", "x", "beta", "gamma", "x_next", "s", "z", "z_next", "beta_next",
    "system_constraint_return", "lyap_relu_x_mip_cnstr_ret",
    "lyap_relu_x_next_mip_cnstr_ret"])
STATUS = ["OPTIMAL", "INFEASIBLE", "SOLUTION_LIMIT", "TIME_LIMIT",
          "INF_OR_UNBD"]


def given_program(H, n, relaxed=False):
    """Any program with the variables of the derivative program."""
    prog = gtm.GurobiTorchMILP(F)
    groups = {k: prog.addVars(n, lb=-G.INFINITY) for k in
              ("x", "x_next", "z", "z_next")}
    for k in ("beta", "beta_next"):
        groups[k] = prog.addVars(n, vtype=gtm.BINARYRELAX if relaxed
                                 else G.BINARY)
    allv = [v for g in groups.values() for v in g]
    prog.addLConstr([H.tensor("row", len(allv))], [allv],
                    sense=G.LESS_EQUAL, rhs=H.tensor("rhs", 1)[0])
    prog.setObjective([H.tensor("obj", len(allv))], [allv],
                      H.tensor("objc", 1)[0], G.MAXIMIZE)
    bs = []
    for k in ("x", "x_next"):
        c = types.SimpleNamespace()
        for a in dyn.UNITS:
            setattr(c, a, H.tensor(f"{k}.{a}", n))
        bs.append(c)
    scr = types.SimpleNamespace(forward_dynamics_return="fwd",
                                controller_mip_cnstr_return="con")
    return Ret(milp=prog, gamma=[], s=[], system_constraint_return=scr,
               lyap_relu_x_mip_cnstr_ret=bs[0],
               lyap_relu_x_next_mip_cnstr_ret=bs[1], **groups)


@case("C14", [DISC + "strengthen_lyapunov_derivative_milp_binary"],
      params=[(1, 0), (1, 1), (2, 0), (3, 0)], scope="1 to 3 units of the network")
def equal_activations(H, n, opts):
    r = given_program(H, n)
    prog, m = r.milp, r.milp.gurobi_model
    m.update()
    val = mip.ghosts(H, prog)
    before = mip.model_rows(H, prog, val)
    obj = mip.objective_at(H, prog, val)
    b, bn = [[val[v] for v in g] for g in (r.beta, r.beta_next)]
    undecided = []
    for i in range(n):
        undecided.append(all(
            H.holds(H.el1(c.relu_input_lo, i) < 0) and
            H.holds(H.el1(c.relu_input_up, i) > 0)
            for c in r[-2:]))
    todo = [i for i in range(n) if undecided[i]]
    pairs = []
    left = list(todo)
    seen = []

    def optimize(cb=None):
        i = left.pop(0)
        # no stronger than a point with unequal activations that matters
        mip.same_rows(
            H, f"asked {i}", mip.model_rows(H, prog, val),
            before + [("=", b[j] - bn[j]) for j in pairs] +
            [(">", obj), ("=", b[i] + bn[i] - 1.)])
        st = H.choice(f"status{i}", STATUS)
        m.status = getattr(G.Status, st)
        seen.append(m.getParamInfo(G.Param.DualReductions)
                    if False else None)
        if st == "INFEASIBLE":
            pairs.append(i)

    m.optimize = optimize
    H.cover()
    W = lyapunov.LyapunovDiscreteTimeHybridSystem.__new__(
        lyapunov.LyapunovDiscreteTimeHybridSystem)
    W.strengthen_lyapunov_derivative_milp_binary(
        r, {G.Param.TimeLimit: 3., G.Param.MIPFocus: 1,
            G.Param.Threads: 2} if opts else None)
    H.true("each unit asked", left == [])
    m.update()
    want = before + [("=", b[j] - bn[j]) for j in pairs]
    mip.same_rows(H, "rows", mip.model_rows(H, prog, val), want)
    mip.same_rows(H, "record", mip.recorded_rows(H, prog, val), want)
    H.eq("objective", mip.objective_at(H, prog, val), obj)


@stands_for(rto.ReLUFreePattern)
class Net1:
    """strengthen_relu_mip_at_solution by its contract (C03): adds rows."""

    def __init__(self, log):
        self.log = log

    def strengthen_relu_mip_at_solution(self, prog, x, z, beta, ret):
        self.log.append((prog, mip.ids(x), mip.ids(z), mip.ids(beta), ret))


@stands_for(fs.FeedbackSystem)
class Loop(fs.FeedbackSystem):
    def __init__(self, log):
        self.log = log

    def strengthen_dynamics_constraint(self, prog, fwd, con):
        self.log.append((prog, fwd, con))


@case("C14", [DISC + "strengthen_lyapunov_derivative_as_milp"],
      params=[(loop, n) for loop in (0, 1) for n in (0, 1, 2, 3)],
      scope="up to 3 points")
def strengthened(H, loop, npts):
    log, plog, solves, asked = [], [], [], []
    r = given_program(H, 2, relaxed=True)
    prog, m = r.milp, r.milp.gurobi_model
    m.update()
    val = mip.ghosts(H, prog)
    before = mip.model_rows(H, prog, val)
    W = lyapunov.LyapunovDiscreteTimeHybridSystem.__new__(
        lyapunov.LyapunovDiscreteTimeHybridSystem)
    W.system = Loop(plog) if loop else "system"
    W.lyapunov_relu_free_pattern = Net1(log)

    def derivative(*a, **k):
        asked.append((a, k))
        return r

    def optimize(cb=None):
        solves.append((len(log), len(plog)))
        m.status = G.Status.OPTIMAL

    m.optimize = optimize
    W.lyapunov_derivative_as_milp = derivative
    xeq, lo, up = H.tensor("xeq", 1), H.real("lo"), H.real("up")
    lam, eps, xw = H.real("lam"), H.real("eps"), H.tensor("xw", 1)
    H.cover()
    got = W.strengthen_lyapunov_derivative_as_milp(
        xeq, lam, eps, Eps.Asymp, npts, R="R", lyapunov_lower=lo,
        lyapunov_upper=up, x_warmstart=xw)
    H.true("result", got is r)
    (a, k), = asked
    k = dict(zip(("x_equilibrium", "V_lambda", "epsilon", "eps_type"), a),
             **k)
    want = dict(x_equilibrium=xeq, V_lambda=lam, epsilon=eps,
                eps_type=Eps.Asymp, R="R", lyapunov_lower=lo,
                lyapunov_upper=up, x_warmstart=xw,
                binary_var_type=gtm.BINARYRELAX)
    H.true("arguments", set(k) == set(want) and all(
        k[i] is want[i] for i in want))
    H.true("solves", solves == [(2 * i, i * loop) for i in range(npts)])
    one = [(prog, mip.ids(r.x), mip.ids(r.z), mip.ids(r.beta), r[-2]),
           (prog, mip.ids(r.x_next), mip.ids(r.z_next),
            mip.ids(r.beta_next), r[-1])]
    for i in range(npts):
        H.true(f"cuts {i}", all(c in log[2 * i:2 * i + 2] for c in one))
    H.true("number of cuts", len(log) == 2 * npts)
    H.true("plant cuts", plog == [(prog, "fwd", "con")] * npts * loop)
    H.true("binaries", all(v.vtype == "B" for v in r.beta + r.beta_next))
    H.true("bounds", all(H.unbounded(v)
                         for v in r.x + r.x_next + r.z + r.z_next))
    mip.same_rows(H, "rows", mip.model_rows(H, prog, val, False),
                  [q for q in before])
