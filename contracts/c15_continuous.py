"""The derivative condition in continuous time."""
import types
import torch
import gurobipy
from engine.cases import case
from engine.stubs import stub, stands_for
from contracts import dyn, mip
from contracts.c10_hybrid import patched
from contracts.c14_lyapunov import World, BASE
from contracts.dyn import IA, LP, MIP, IA_MIP
from contracts.lyap import (Abs, Code, Plant, blocks, free_states,
                            plant_unknowns, same)
import neural_network_lyapunov.continuous_time_lyapunov as ctl
import neural_network_lyapunov.lyapunov as lyapunov
import neural_network_lyapunov.relu_to_optimization as rto
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.hybrid_linear_system as hls
import neural_network_lyapunov.utils as utils

F = torch.float64
G = gurobipy.GRB
CT = "continuous_time_lyapunov.LyapunovContinuousTimeSystem."
HY = "continuous_time_lyapunov.LyapunovContinuousTimeHybridSystem."
Eps = lyapunov.ConvergenceEps


def linear(H, co, vals):
    t = H.num(0.)
    for a, b in zip(H.vecl(co), vals):
        t = t + a * b
    return t


@stands_for(rto.ReLUFreePattern)
class GradCode(Code):
    """ReLUFreePattern, also with the gradient times a vector (C05): rows and
    an output that are those of the gradient of the activation, for every
    vector between the bounds."""

    def __init__(self, net, dtype=None):
        super().__init__(net, dtype)
        self.grads, self.tokens, self.world = [], [], None

    def _bounds(self):
        t = tuple([torch.zeros((1, ), dtype=F)] for _ in range(4))
        self.tokens.append(t)
        return t

    def _compute_Wz_bounds_IA(self, lo, up):
        H, v = self.model.H, self.vector
        H.lev("gradient lower", lo, v)
        H.lev("gradient upper", v, up)
        return self._bounds()

    def _compute_Wz_bounds_optimization(self, prog, z0, beta):
        H, b = self.model.H, self.bound
        H.true("gradient program", prog is b.prog.gurobi_model and
               mip.ids(z0) == mip.ids(b.v))
        b.check()
        H.true("gradient activations", mip.ids(beta) == mip.ids(b.net()[3]))
        return self._bounds() + (None, )

    def output_gradient_times_vector_w_bounds(self, zlo, zup, Wlo, Wup):
        self.model.H.true("bounds of the gradient", any(
            all(a is b for a, b in zip(t, (zlo, zup, Wlo, Wup)))
            for t in self.tokens))
        return self.encoding(None, None)

    def output_gradient_times_vector(self, lo, up):
        return self.encoding(lo, up)

    def encoding(self, lo, up):
        H, k, n = self.model.H, len(self.grads), 2
        c = rto.ReLUGradientTimesVecMixedIntegerConstraintsReturn()
        c.Ain_input = H.tensor(f"grad{k}.y", 1, self.model.nin)
        c.Ain_slack = H.tensor(f"grad{k}.z", 1, n)
        c.Ain_binary = H.tensor(f"grad{k}.beta", 1, self.nz)
        c.rhs_in = H.tensor(f"grad{k}.rhs", 1)
        c.Aout_slack = H.tensor(f"grad{k}.out", 1, n)
        g = types.SimpleNamespace(
            k=k, lo=lo, up=up, M=[H.matl(c.Ain_input)[0], H.matl(
                c.Ain_slack)[0], H.matl(c.Ain_binary)[0], H.el1(c.rhs_in, 0)],
            out=H.matl(c.Aout_slack)[0], z=[
                H.real(f"grad{k}.unknown{j}") for j in range(n)])
        g.value = linear(H, dyn.vec(g.out), g.z)
        c.tag = ("grad", g)
        self.grads.append(g)
        return c

    def grad_gap(self, g, y, beta):
        t = -g.M[3]
        for m, vs in zip(g.M, (y, g.z, beta)):
            for a, b in zip(m, vs):
                t = t + a * b
        return ("<", t)


class AbsDot(Abs):
    """compute_range_by_IA also for R xdot."""

    def range(self, W, b, x_lo, x_up):
        H = self.H
        lo, up, xdot, ends = self.dot
        if not same(H, H.vecl(x_lo), H.vecl(lo)):
            return super().range(W, b, x_lo, x_up)
        H.eqv("rate of", W.reshape((-1, )), self.R.reshape((-1, )))
        H.eqv("rate bias", b, [H.num(0.)] * self.m)
        H.eqv("rate box upper", x_up, up)
        return tuple(dyn.vec([e[k] for e in ends]) for k in (0, 1))


class Bound:
    """The program that bounds the derivative of the state: any relaxation of
    the dynamics, satisfied by (x, xdot)."""

    def __init__(self, H, W, x, xdot):
        self.H, self.W = H, W
        n = len(x)
        self.prog = gtm.GurobiTorchMILP(F)
        self.x = self.prog.addVars(n, lb=-G.INFINITY)
        self.v = self.prog.addVars(n, lb=-G.INFINITY)
        M = H.tensor("bound.row", 2 * n)
        self.slack = H.real("bound.slack", 0.)
        self.prog.addLConstr([M], [self.x + self.v], sense=G.LESS_EQUAL,
                             rhs=linear(H, M, x + xdot) + self.slack)
        self.val = dict(zip(self.x + self.v, x + xdot))
        self.asked = 0

    def net(self):
        r = [r for r in self.W.adds.of(self.prog)
             if r[0] and r[0][0] == "net"]
        self.H.true("bound program: network", len(r) == 1 and mip.ids(
            r[0][1]) == mip.ids(self.x))
        return r[0]

    def check(self):
        """(x, xdot) is still feasible."""
        H = self.H
        rows = [("<", -self.slack)]
        pat = self.W.net.pattern
        rs = self.W.adds.of(self.prog)
        if rs:
            tag, _, s, z, c = self.net()
            for v, t in zip(s + z, pat.s[0] + pat.z[0]):
                self.val[v] = t
            rows += pat.gaps(pat.points[0], pat.s[0], pat.z[0])
        H.true("bound program: unknowns", len(rs) <= 1 and len(self.val) ==
               len(self.prog.gurobi_model.getVars()))
        mip.same_rows(H, "bound program", mip.model_rows(
            H, self.prog, self.val, False), rows)
        for v in self.prog.gurobi_model.getVars():
            H.true("bound program: box", H.unbounded(v)
                   if v.index < 2 * len(self.x) else v.vtype in "BC")

    def optimize(self, m, callback=None):
        H = self.H
        H.true("bound program solved", m is self.prog.gurobi_model)
        self.check()
        o = mip.objective_at(H, self.prog, self.val)
        e = H.real(f"bound.loose{self.asked}", 0.)
        self.asked += 1
        m.status = G.Status.OPTIMAL
        m._sols = [(o - e if m.ModelSense == G.MINIMIZE else o + e,
                    [H.num(0.)] * len(m.getVars()))]


class DotPlant(Plant):
    """A plant with bounds on the derivative."""

    def add_dynamics_constraint(self, *a, **k):
        ret = super().add_dynamics_constraint(*a, **k)
        lo, up, b = self.bounds
        ret.x_next_lb_IA, ret.x_next_ub_IA = lo, up
        ret.x_next_bound_prog, ret.x_next_bound_var = b.prog, b.v
        ret.x_var = b.x
        return ret


def box(H, name, v):
    """Any box that contains the vector."""
    return tuple(dyn.vec([a + s * H.real(f"{name}.{k}{i}", 0.)
                          for i, a in enumerate(v)])
                 for k, s in (("below", -1.), ("above", 1.)))


@case("C15", [CT + "lyapunov_derivative_as_milp",
              CT + "_add_dl1dx_times_xdot",
              "dynamic_system._add_system_constraint"] + [BASE + f for f in (
                  "add_lyap_relu_output_constraint",
                  "add_state_error_l1_constraint")],
      params=[(n, r, ns, m, lo, up, bt) for m in (IA, LP, MIP)
              for n, r, ns, lo, up, bt in (
                  (1, 0, 2, 0, 0, "B"), (1, 2, 1, 1, 0, "R"),
                  (2, 2, 2, 1, 1, "B"), (2, 0, 1, 0, 1, "R"))] +
      [(3, 0, 3, IA, 0, 0, "B")],
      scope="state of 1 to 3, encodings of 1 or 2 unknowns, R of 1 or 2 rows")
def program(H, nx, rows, ns, method, lo, up, btype):
    """max Vdot + epsilon V: exactly the states of the box, with each
    derivative of an admissible activation and sign."""
    W = World(H, nx, 1, rows, ns=ns, method=method,
              cls=ctl.LyapunovContinuousTimeSystem, code=GradCode)
    xdot = H.vecl(H.tensor("xdot", nx))
    x = H.vecl(W.pts[0])
    W.plant.__class__ = DotPlant
    b = Bound(H, W, x, xdot)
    dlo, dup = box(H, "xdot", xdot)
    W.plant.bounds = (dlo, dup, b)
    W.code.vector, W.code.bound = xdot, b
    Rx = H.mv(W.R, xdot)
    W.abs.__class__ = AbsDot
    W.abs.dot = (dlo, dup, xdot, list(zip(*map(H.vecl, box(H, "rate",
                                                           Rx)))))
    lower = H.real("lower") if lo else None
    upper = H.real("upper") if up else None
    H.cover()
    bt = G.BINARY if btype == "B" else gtm.BINARYRELAX
    with patched(gurobipy.Model, optimize=lambda m, cb=None: b.optimize(m)):
        r = W.run(lambda: W.dut.lyapunov_derivative_as_milp(
            W.xeq, W.lam, W.eps, Eps.ExpLower, R=W.Rarg,
            lyapunov_lower=lower, lyapunov_upper=upper,
            **mip.kind_argument(btype)))
    prog = r.milp
    H.true("class", isinstance(prog, gtm.GurobiTorchMILP))
    W.code.boxes(W.lo, W.up, method, 1)
    free_states(H, "states", r.x, r.xdot)
    c, = W.plant.calls
    H.true("plant asked", c[0] is prog and mip.ids(c[1], c[2]) == mip.ids(
        r.x, r.xdot) and c[-1] == bt)
    val = dict(zip(r.x + r.xdot, x + xdot))
    plant_unknowns(H, c, val)
    # the gradient of the network along xdot
    g, = W.code.grads
    mine = [a for a in W.adds.of(prog) if a[0] and a[0][0] == "grad"]
    W.adds.list = [a for a in W.adds.list if not (a[1] and
                                                  a[1][0] == "grad")]
    H.true("gradient added", len(mine) == 1 and mip.ids(mine[0][1]) ==
           mip.ids(r.xdot))
    alpha = {}

    def sign(i, j):
        alpha[i] = float(H.bit(f"alpha{i}"))
        return H.num(alpha[i])

    rws, grp = blocks(H, "program", W.adds, prog, W.net, W.abs, {
        "x": (r.x, 0, ("net", "abs"))}, val, btype, alpha=sign)
    H.true("gradient unknowns", mip.ids(mine[0][3]) == mip.ids(grp["x"][1])
           == mip.ids(r.relu_binary) and len(mine[0][2]) == len(g.z))
    H.true("signs", mip.ids(r.l1_binary) == mip.ids(*grp["x"][3]))
    for v, t in zip(mine[0][2], g.z):
        H.true("gradient unknown free", v.vtype == "C" and H.unbounded(v))
        val[v] = t
    rws.append(W.code.grad_gap(g, xdot, W.code.z[0]))
    rws.append(W.plant.gap(0, val))
    V = W.V(W.pts[0])
    if lo:
        rws.append(("<", lower - V))
    if up:
        rws.append(("<", V - upper))
    s = mip.rest(H, "program", prog, val, rws)
    H.true("slacks", all(k == "C" for k in s.kinds))
    want = g.value + W.eps * V
    for i in range(W.abs.m):
        want = want + W.lam * (2 * alpha[i] - 1) * Rx[i]
    objective(H, "objective", s, prog, val, want,
              lambda idx: [alpha[i] * Rx[i] for i in range(W.abs.m)])
    H.true("sense", prog.gurobi_model.ModelSense == G.MAXIMIZE and
           prog.sense == G.MAXIMIZE)


def objective(H, name, s, prog, val, want, witness):
    """In every solution of the rest the objective is the wanted value; there
    is one."""
    m = prog.gurobi_model
    k, co = H.scalar(m._obj.const), {}
    for v, a in m._obj.c.items():
        if v in val:
            k = k + H.scalar(a) * val[v]
        else:
            co[s.ix[v]] = H.scalar(a)
    H.exists(name + " reached", s, witness(s.ix), [(co, k, want)])
    H.entail(name, s, co, k, want)


@case("C15", [CT + "lyapunov_derivative_as_milp"],
      params=["IA_MIP", "ExpUpper", "Asymp"], scope="state of 1")
def refused(H, what):
    """What is not supported is refused, not answered wrongly."""
    W = World(H, 1, 1, 0, method=IA_MIP if what == "IA_MIP" else IA,
              cls=ctl.LyapunovContinuousTimeSystem, code=GradCode)
    W.plant.__class__ = DotPlant
    xdot = H.vecl(H.tensor("xdot", 1))
    W.plant.bounds = box(H, "xdot", xdot) + (Bound(H, W, H.vecl(W.pts[0]),
                                                   xdot), )
    H.cover()
    H.raises("refused", lambda: W.run(
        lambda: W.dut.lyapunov_derivative_as_milp(
            W.xeq, W.lam, W.eps, Eps.ExpLower if what == "IA_MIP" else
            getattr(Eps, what), R=W.Rarg)))


# ---------------------------------------------------------- values
def same_family(H, name, got, want):
    """The same values, in any order, each as often."""
    left = list(want)
    H.true(name + " number", len(got) == len(left))
    for k, g in enumerate(got):
        hit = next((i for i, w in enumerate(left) if mip.zero(H, g - w)),
                   None)
        if hit is None:
            H.true(f"{name} {k}", H.or_(*[g == w for w in left]) if H.sym and
                   left else False)
        else:
            H.true(f"{name} {k}", True)
            left.pop(hit)


@case("C15", [CT + "lyapunov_derivative", BASE + "_lyapunov_gradient",
              "lyapunov._get_R"],
      params=[(1, 0, 1, 1), (2, 0, 2, 1), (2, 3, 1, 2), (2, 2, 2, 2),
              (1, 2, 3, 2), (1, 0, 2, 2, "default")],
      scope="state of 1 or 2, R of 1 to 3 rows, up to 3 subgradients of the "
            "network and 2 of the norm")
def values(H, nx, rows, ng, nl, how="given"):
    W = World(H, nx, 1, rows, cls=ctl.LyapunovContinuousTimeSystem,
              code=GradCode)
    x, = W.pts
    m = W.R.shape[0]
    grads = H.tensor("gradients", ng, 1, nx)
    signs = H.tensor("signs", nl, m)
    xdot = H.tensor("xdot", nx)
    tol = H.real("tolerance", 0.) if how == "given" else 0.
    W.plant.step_forward = lambda y: (H.eqv("dynamics at", y, x), xdot)[1]

    def of_network(net, y, *, zero_tol=0.):
        H.true("network", net is W.net)
        H.eqv("gradient at", y, x)
        H.eq("tolerance of the network", zero_tol, tol)
        return grads

    def of_norm(e, *, zero_tol=0., subgradient_samples=None):
        H.true("no samples", subgradient_samples is None)
        H.eqv("norm of", e, W.abs.error(x))
        H.eq("tolerance of the norm", zero_tol, tol)
        return signs

    H.cover()
    with patched(utils, relu_network_gradient=of_network,
                 l1_gradient=of_norm):
        r = W.dut.lyapunov_derivative(
            x, W.xeq, W.lam, W.eps, R=W.Rarg,
            **(dict(zero_tol=tol) if how == "given" else {}))
    H.true("shape", tuple(r.shape) == (ng * nl, ))
    Rx = H.mv(W.R, H.vecl(xdot))
    want = [H.dot(H.matl(grads[i])[0], H.vecl(xdot)) +
            W.lam * H.dot([H.el(signs, j, k) for k in range(m)], Rx) +
            W.eps * W.V(x) for i in range(ng) for j in range(nl)]
    same_family(H, "derivative", [H.el1(r, k) for k in range(ng * nl)], want)


class Modes(Plant):
    """A hybrid system by its contract (C10)."""

    def __init__(self, H, W, nx, n):
        super().__init__(H, nx, W.lo, W.up)
        self.num_modes = n
        self.A = [H.tensor(f"A{i}", nx, nx) for i in range(n)]
        self.g = [H.tensor(f"g{i}", nx) for i in range(n)]

    def mode_derivative_bounds(self, i):
        return self.rate[i]


EQ = ["above", "below", "at"]


@case("C15", [HY + "lyapunov_derivative"],
      params=[(1, 1, 1, ("above", )), (1, 2, 2, ("at", )),
              (2, 2, 1, ("below", "at")), (2, 1, 2, ("at", "at")),
              (2, 2, 2, ("above", "below")),
              (3, 3, 3, ("above", "at", "below"))],
      scope="state of 1 to 3; up to 3 patterns and 3 possible derivatives")
def hybrid_values(H, nx, npat, ndx, where):
    """All of them: one for each pattern, sign and derivative possible."""
    W = World(H, nx, 1, 0, cls=ctl.LyapunovContinuousTimeHybridSystem,
              code=GradCode)
    e = H.vecl(W.xeq)
    d = H.vecl(H.tensor("offset", nx, lo=0.))
    for v in d:
        H.assume(v > 0)
    x = dyn.vec([a + {"above": v, "below": -v, "at": H.num(0.)}[w]
                 for a, v, w in zip(e, d, where)])
    grads = [H.tensor(f"gradient{k}", nx, 1) for k in range(npat)]
    dxs = [H.tensor(f"xdot{k}", nx) for k in range(ndx)]
    asked = []

    def patterns(net, y):
        H.true("network", net is W.net)
        H.eqv("patterns at", y, x)
        return [("pattern", k) for k in range(npat)]

    def given(net, n, pattern, dtype):
        H.true("pattern of the network", net is W.net and n == nx)
        asked.append(pattern[1])
        return grads[pattern[1]], None, None, None

    W.plant.possible_dx = lambda y: (H.eqv("dynamics at", y, x), dxs)[1]
    H.cover()
    with patched(rto, compute_all_relu_activation_patterns=patterns,
                 ReLUGivenActivationPattern=given):
        r = W.dut.lyapunov_derivative(x, W.xeq, W.lam, W.eps, W.Rarg)
    signs = [[]]
    for w in where:
        signs = [s + [v] for s in signs for v in {
            "above": [1.], "below": [-1.], "at": [1., -1.]}[w]]
    want = []
    for g in grads:
        for s in signs:
            for dx in dxs:
                t = W.eps * W.V(x)
                for k in range(nx):
                    t = t + (H.el(g, k, 0) + W.lam * s[k]) * H.el1(dx, k)
                want.append(t)
    same_family(H, "derivative", [H.scalar(v) for v in r], want)


# ---------------------------------------------------------- parts
class Ends:
    """Bounds that contain given vectors."""

    def __init__(self, H, name, vecs):
        self.lo, self.up = [], []
        for i in range(len(vecs[0])):
            self.lo.append(H.min(*[v[i] for v in vecs]) -
                           H.real(f"{name}.below{i}", 0.))
            self.up.append(H.max(*[v[i] for v in vecs]) +
                           H.real(f"{name}.above{i}", 0.))
        self.lo, self.up = dyn.vec(self.lo), dyn.vec(self.up)


class Part:
    """A program with the unknowns of a part of the derivative."""

    def __init__(self, H, nx, n):
        self.H, self.nx, self.n = H, nx, n
        self.W = W = World(H, nx, 1, 0, method=IA, code=GradCode,
                           cls=ctl.LyapunovContinuousTimeHybridSystem)
        self.plant = W.dut.system = Modes(H, W, nx, n)
        self.prog = gtm.GurobiTorchMILP(F)
        self.val = {}

    def free(self, name, n):
        vs = self.prog.addVars(n, lb=-G.INFINITY, name=name)
        for i, v in enumerate(vs):
            self.val[v] = self.H.real(f"{name}{i}")
        return vs

    def binaries(self, name, n):
        vs = self.prog.addVars(n, vtype=G.BINARY, name=name)
        for i, v in enumerate(vs):
            self.val[v] = self.H.num(float(self.H.bit(f"{name}{i}")))
        return vs

    def at(self, vs):
        return [self.val[v] for v in vs]

    def rates(self, vecs):
        """Let the bounds of the system contain the vectors: exactly what
        the callee may assume."""
        H = self.H
        self.plant.rate = []
        for i, v in enumerate(vecs):
            e = Ends(H, f"rate{i}", [v])
            self.plant.rate.append((e.lo.detach().numpy(),
                                    e.up.detach().numpy()))

    def gradient_parts(self, name, zs, outs, vecs, beta):
        """zs[k]: unknowns of the gradient times vecs[k]."""
        H, W = self.H, self.W
        code = W.code
        left = list(code.grads)
        H.true(name + " number", len(zs) == len(vecs) == len(outs) ==
               len(left))
        rows = []
        for k, (z, out, v) in enumerate(zip(zs, outs, vecs)):
            g = next((g for g in left if same(H, g.out, H.vecl(out))), None)
            H.true(f"{name}{k} output", g is not None and len(z) ==
                   len(g.z))
            left = [h for h in left if h is not g]
            H.lev(f"{name}{k} lower", g.lo, v)
            H.lev(f"{name}{k} upper", v, g.up)
            for a, t in zip(z, g.z):
                H.true(f"{name}{k} free", a.vtype == "C" and
                       H.unbounded(a))
                self.val[a] = t
            rows.append(code.grad_gap(g, v, self.at(beta)))
        H.true(name + " unknowns", len(self.val) == len(
            self.prog.gurobi_model.getVars()))
        mip.same_rows(H, name + " rows", mip.model_rows(
            H, self.prog, self.val, False), rows)
        mip.same_rows(H, name + " record", mip.recorded_rows(
            H, self.prog, self.val), rows)

    def products(self, name, zs, coefs, others, alpha, vecs):
        """sum_j sign_j v_j = coefs . z + others, in every solution."""
        H = self.H
        m = self.prog.gurobi_model
        m.update()
        s = H.model_system(m, self.val)
        H.true(name + " unknowns", mip.ids(*zs) == mip.ids(
            [v for v in m.getVars() if v not in self.val]))
        wit = [None] * len(s.kinds)
        for z, v in zip(zs, vecs):
            for a, t, b in zip(z, v, self.at(alpha)):
                wit[s.ix[a]] = b * t
        eqs = []
        for k, (z, c, o, v) in enumerate(zip(zs, coefs, others, vecs)):
            co = {s.ix[a]: t for a, t in zip(z, H.vecl(c))}
            want = H.num(0.)
            for b, t in zip(self.at(alpha), v):
                want = want + (2. * b - 1.) * t
            H.entail(f"{name}{k}", s, co, o, want)
            eqs.append((co, o, want))
        H.exists(name + " exists", s, wit, eqs)


PARTS = [(1, 1, 0), (1, 2, 1), (2, 1, 1), (2, 2, 0), (1, 3, 0), (3, 1, 1)]


@case("C15", [HY + "add_relu_gradient_times_Aisi",
              HY + "__compute_Aisi_bounds"], params=PARTS,
      scope="state of 1 to 3, up to 3 modes")
def gradient_of_state(H, nx, n, given):
    """The mode that is on: A x with x in its region; the others: 0."""
    P = Part(H, nx, n)
    s, beta = P.free("s", nx * n), P.binaries("beta", 1)
    on = H.choice("on", list(range(n)))
    for i in range(n):
        if i != on:
            for v in s[i * nx:(i + 1) * nx]:
                P.val[v] = H.num(0.)
    vecs = [H.mv(P.plant.A[i], P.at(s[i * nx:(i + 1) * nx]))
            for i in range(n)]
    # the rate of a mode is bounded on its region, which may be away from 0
    P.rates([v if i == on else [H.real(f"rate.any{i}.{j}")
                                for j in range(nx)]
             for i, v in enumerate(vecs)])
    kw = {}
    if given:
        e = [Ends(H, f"given{i}", [v]) for i, v in enumerate(vecs)]
        kw = dict(Aisi_lower=[a.lo for a in e], Aisi_upper=[a.up for a in e])
    H.cover()
    z, out = P.W.dut.add_relu_gradient_times_Aisi(P.prog, s, beta, **kw)
    P.gradient_parts("gradient", z, out, vecs, beta)


@case("C15", [HY + "add_relu_gradient_times_gigammai",
              HY + "__compute_gigammai_bounds"], params=PARTS,
      scope="state of 1 to 3, up to 3 modes")
def gradient_of_offset(H, nx, n, given):
    P = Part(H, nx, n)
    gamma, beta = P.binaries("gamma", n), P.binaries("beta", 1)
    vecs = [[P.val[gamma[i]] * t for t in H.vecl(P.plant.g[i])]
            for i in range(n)]
    kw = {}
    if given:
        e = [Ends(H, f"given{i}", [v]) for i, v in enumerate(vecs)]
        kw = dict(gigammai_lower=[a.lo for a in e],
                  gigammai_upper=[a.up for a in e])
    H.cover()
    z, out = P.W.dut.add_relu_gradient_times_gigammai(P.prog, gamma, beta,
                                                      **kw)
    P.gradient_parts("gradient", z, out, vecs, beta)


@case("C15", [HY + "add_relu_gradient_times_xdot"],
      params=[1, 2, 3], scope="state of 1 to 3")
def gradient_of_rate(H, nx):
    P = Part(H, nx, 1)
    xdot, beta = P.free("xdot", nx), P.binaries("beta", 1)
    v = P.at(xdot)
    e = Ends(H, "bounds", [v])
    H.cover()
    z, out = P.W.dut.add_relu_gradient_times_xdot(
        P.prog, xdot, beta, e.lo.detach().numpy(), e.up.detach().numpy())
    P.gradient_parts("gradient", [z], [out], [v], beta)


@case("C15", [HY + "add_sign_state_error_times_Aisi",
              HY + "__compute_Aisi_bounds"], params=PARTS,
      scope="state of 1 to 3, up to 3 modes")
def sign_of_state(H, nx, n, given):
    P = Part(H, nx, n)
    s, alpha = P.free("s", nx * n), P.binaries("alpha", nx)
    on = H.choice("on", list(range(n)))
    for i in range(n):
        if i != on:
            for v in s[i * nx:(i + 1) * nx]:
                P.val[v] = H.num(0.)
    vecs = [H.mv(P.plant.A[i], P.at(s[i * nx:(i + 1) * nx]))
            for i in range(n)]
    P.rates([v if i == on else [H.real(f"rate.any{i}.{j}")
                                for j in range(nx)]
             for i, v in enumerate(vecs)])
    kw = {}
    if given:
        e = [Ends(H, f"given{i}", [v]) for i, v in enumerate(vecs)]
        kw = dict(Aisi_lower=[a.lo for a in e], Aisi_upper=[a.up for a in e])
    H.cover()
    z, zc, sc = P.W.dut.add_sign_state_error_times_Aisi(P.prog, s, alpha,
                                                        **kw)
    P.products("sign", z, zc, [linear(H, c, P.at(s[i * nx:(i + 1) * nx]))
                               for i, c in enumerate(sc)], alpha, vecs)


@case("C15", [HY + "add_sign_state_error_times_gigammai",
              HY + "__compute_gigammai_bounds"], params=PARTS,
      scope="state of 1 to 3, up to 3 modes")
def sign_of_offset(H, nx, n, given):
    P = Part(H, nx, n)
    gamma, alpha = P.binaries("gamma", n), P.binaries("alpha", nx)
    vecs = [[P.val[gamma[i]] * t for t in H.vecl(P.plant.g[i])]
            for i in range(n)]
    kw = {}
    if given:
        e = [Ends(H, f"given{i}", [v]) for i, v in enumerate(vecs)]
        kw = dict(gigammai_lower=[a.lo for a in e],
                  gigammai_upper=[a.up for a in e])
    H.cover()
    z, zc, gc = P.W.dut.add_sign_state_error_times_gigammai(
        P.prog, gamma, alpha, **kw)
    P.products("sign", z, zc, [linear(H, c, [P.val[gamma[i]]])
                               for i, c in enumerate(gc)], alpha, vecs)


@case("C15", [HY + "add_sign_state_error_times_xdot"],
      params=[1, 2, 3], scope="state of 1 to 3")
def sign_of_rate(H, nx):
    P = Part(H, nx, 1)
    xdot, alpha = P.free("xdot", nx), P.binaries("alpha", nx)
    v = P.at(xdot)
    e = Ends(H, "bounds", [v])
    H.cover()
    z, zc, xc = P.W.dut.add_sign_state_error_times_xdot(
        P.prog, xdot, alpha, e.lo.detach().numpy(), e.up.detach().numpy())
    P.products("sign", [[a] for a in z], [[c] for c in H.vecl(zc)], [
        H.el1(xc, i) * v[i] for i in range(nx)], alpha, [[t] for t in v]) \
        if nx == 1 else P.products("sign", [z], [zc], [linear(H, xc, v)],
                                   alpha, [v])


# ------------------------------------------------- programs of the hybrid
class Hybrid(World):
    """A hybrid system in one of its modes, and the parts of the derivative
    by their contracts."""

    def __init__(self, H, nx, n, ns, rate, **kw):
        super().__init__(H, nx, 1, 0, ns=ns, code=GradCode,
                         cls=ctl.LyapunovContinuousTimeHybridSystem, **kw)
        self.modes = Modes(H, self, nx, n)
        self.dut.system = self.plant = self.modes
        x = H.vecl(self.pts[0])
        self.on = H.choice("on", list(range(n)))
        zero = [H.num(0.)] * nx
        self.s = [x if i == self.on else zero for i in range(n)]
        self.gamma = [H.num(float(i == self.on)) for i in range(n)]
        self.As = [H.mv(self.modes.A[i], self.s[i]) for i in range(n)]
        self.gg = [[self.gamma[i] * t for t in H.vecl(self.modes.g[i])]
                   for i in range(n)]
        self.xdot = [sum((self.As[i][j] + self.gg[i][j] for i in range(n)),
                         H.num(0.)) for j in range(nx)]
        self.parts = {}
        if rate:
            e = Ends(H, "dx", [self.xdot])
            self.modes.dx_lower = e.lo.detach().numpy()
            self.modes.dx_upper = e.up.detach().numpy()
        else:
            es = [Ends(H, f"rate{i}", [v if i == self.on else
                                       H.vecl(H.tensor(f"rate.any{i}", nx))])
                  for i, v in enumerate(self.As)]
            self.modes.rate = [(e.lo.detach().numpy(),
                                e.up.detach().numpy()) for e in es]
        for nm in ("relu_gradient", "sign_state_error"):
            for of in ("xdot", "Aisi", "gigammai"):
                stub(self.dut, **{f"add_{nm}_times_{of}": self.part(nm, of)})

    def part(self, nm, of):
        H = self.H

        def unknowns(prog, name, n):
            vs = prog.addVars(n, lb=-G.INFINITY)
            ts = [H.real(f"{name}.z{j}") for j in range(n)]
            self.hidden.update(zip(vs, ts))
            return vs, ts

        def add(milp, of_vars, bins, lower=None, upper=None, slack_name="z"):
            H.true(f"{nm} {of} once", (nm, of) not in self.parts)
            vecs = {"xdot": [self.xdot], "Aisi": self.As,
                    "gigammai": self.gg}[of]
            if of == "xdot":
                lower, upper = [lower], [upper]
            if lower is not None:
                H.true(f"{nm} {of} bounds", len(lower) == len(vecs))
                for i, (a, b, v) in enumerate(zip(lower, upper, vecs)):
                    H.lev(f"{nm} {of}{i} lower", torch.as_tensor(a), v)
                    H.lev(f"{nm} {of}{i} upper", v, torch.as_tensor(b))
            zs, cs, os, total = [], [], [], H.num(0.)
            k = 2 if nm == "relu_gradient" else self.nx
            for i, v in enumerate(vecs):
                z, t = unknowns(milp, f"{nm}.{of}{i}", k)
                zs.append(z)
                if nm == "relu_gradient":
                    cs.append(H.tensor(f"{nm}.{of}{i}.out", k))
                else:
                    # the same in all of these contracts
                    cs.append(2. * torch.ones(k, dtype=F))
                    n = 1 if of == "gigammai" else self.nx
                    os.append(H.tensor(f"{nm}.{of}{i}.rest", n))
                    total = total + linear(H, os[-1], {
                        "xdot": [self.xdot], "Aisi": self.s,
                        "gigammai": [[g] for g in self.gamma]}[of][i])
                total = total + linear(H, cs[-1], t)
            self.parts[nm, of] = (milp, of_vars, bins, total)
            r = (zs, cs) + ((os, ) if os else ())
            return tuple(t[0] for t in r) if of == "xdot" else r
        self.hidden = {}
        return add


def hybrid_plant(H, W):
    """add_dynamics_constraint of a hybrid system: any row."""
    nx, n = W.nx, W.modes.num_modes

    def add(mip_, x_var, x_next_var, slack_name, binary_name,
            binary_var_type=G.BINARY):
        s = mip_.addVars(nx * n, lb=-G.INFINITY, name=slack_name)
        z = mip_.addVars(n, vtype=binary_var_type, name=binary_name)
        vs = x_var + (x_next_var or []) + s + z
        M, b = H.tensor("plant", len(vs)), H.real("plant.rhs")
        mip_.addLConstr([M], [vs], sense=G.EQUAL, rhs=b)
        W.plant_call = (mip_, x_var, x_next_var, s, z, M, b, vs)
        return hls.DynamicsConstraintReturn(s, z)
    W.modes.add_dynamics_constraint = add


HYB = [(n, m, ns, lo, up, w) for n, m, ns, lo, up, w in (
    (1, 1, 2, 0, 0, 0), (1, 2, 1, 1, 0, 1), (2, 2, 2, 1, 1, 1),
    (2, 1, 1, 0, 1, 0), (1, 3, 1, 0, 0, 0), (3, 1, 1, 0, 0, 0))]


@case("C15", [HY + "lyapunov_derivative_as_milp",
              HY + "lyapunov_derivative_as_milp2",
              HY + "__compute_Aisi_bounds", HY + "__compute_gigammai_bounds",
              "dynamic_system._add_system_constraint"] + [BASE + f for f in (
                  "add_lyap_relu_output_constraint",
                  "add_state_error_l1_constraint",
                  "add_lyapunov_bounds_constraint")],
      params=[(k, ) + p for k in (1, 2) for p in HYB],
      scope="state of 1 to 3, 1 to 3 modes, encodings of 1 or 2 unknowns")
def hybrid_program(H, which, nx, n, ns, lo, up, warm):
    W = Hybrid(H, nx, n, ns, which == 1)
    hybrid_plant(H, W)
    x = H.vecl(W.pts[0])
    lower = H.real("lower") if lo else None
    upper = H.real("upper") if up else None
    warm = warm and which == 1
    kw = {}
    if warm:
        kw["x_warmstart"] = H.tensor("warm", nx)
    H.cover()
    R = torch.eye(nx, dtype=F) if lo else None
    f = W.dut.lyapunov_derivative_as_milp if which == 1 else \
        W.dut.lyapunov_derivative_as_milp2
    r = W.run(lambda: f(W.xeq, W.lam, W.eps, Eps.ExpLower, R=R,
                        lyapunov_lower=lower, lyapunov_upper=upper, **kw))
    prog = r.milp
    H.true("class", isinstance(prog, gtm.GurobiTorchMILP))
    W.code.boxes(W.lo, W.up, W.method, 1)
    free_states(H, "states", r.x)
    p, px, pn, ps, pz, M, b, pv = W.plant_call
    H.true("plant asked", p is prog and mip.ids(px) == mip.ids(r.x) and
           (pn is None) == (which == 2) and mip.ids(pz) == mip.ids(r.gamma)
           and all(v.vtype == G.BINARY for v in pz))
    val = dict(zip(r.x, x))
    if which == 1:
        free_states(H, "derivatives", pn)
        val.update(zip(pn, W.xdot))
    val.update(zip(ps, [t for s in W.s for t in s]))
    val.update(zip(pz, W.gamma))
    rws, grp = blocks(H, "program", W.adds, prog, W.net, W.abs, {
        "x": (r.x, 0, ("net", "abs"))}, val, "B")
    H.true("activations", mip.ids(r.beta) == mip.ids(grp["x"][1]))
    alphas = [a for g in grp["x"][3] for a in g]
    want = W.eps * W.V(W.pts[0])
    ofs = {"xdot": pn} if which == 1 else {"Aisi": ps, "gigammai": pz}
    H.true("parts", len(W.parts) == 2 * len(ofs))
    for of, vs in ofs.items():
        for nm, bins, f in (("relu_gradient", r.beta, 1.),
                            ("sign_state_error", alphas, W.lam)):
            H.true(f"{nm} {of}", (nm, of) in W.parts)
            m, v, z, total = W.parts[nm, of]
            H.true(f"{nm} {of} unknowns", m is prog and
                   mip.ids(v) == mip.ids(vs) and mip.ids(z) == mip.ids(bins))
            want = want + f * total
    val.update(W.hidden)
    H.true("unknowns", len(val) == len(prog.gurobi_model.getVars()))
    g = -b
    for a, v in zip(H.vecl(M), pv):
        g = g + a * val[v]
    rws.append(("=", g))
    V = W.V(W.pts[0])
    if lo:
        rws.append(("<", lower - V))
    if up:
        rws.append(("<", V - upper))
    mip.same_rows(H, "rows", mip.model_rows(H, prog, val, False), rws)
    mip.same_rows(H, "record", mip.recorded_rows(H, prog, val), rws)
    H.eq("objective", mip.objective_at(H, prog, val), want)
    H.true("sense", prog.gurobi_model.ModelSense == G.MAXIMIZE and
           prog.sense == G.MAXIMIZE)
    W.warmed([(W.net, r.beta, kw["x_warmstart"])] if warm else [])


@case("C15", [HY + f for f in ("lyapunov_derivative",
                               "lyapunov_derivative_as_milp",
                               "lyapunov_derivative_as_milp2")],
      params=["ExpUpper", "Asymp", "R"], scope="state of 2")
def hybrid_refused(H, what):
    W = Hybrid(H, 2, 1, 1, True)
    R = None
    if what == "R":
        R = torch.eye(2, dtype=F)
        d = H.real("d", 0.)
        H.assume(d > 0)
        R[0, 1] = R[0, 1] + d
    H.cover()
    e = Eps.ExpLower if what == "R" else getattr(Eps, what)
    for k, f in enumerate((W.dut.lyapunov_derivative_as_milp,
                           W.dut.lyapunov_derivative_as_milp2)):
        H.raises(f"refused {k}", lambda: f(W.xeq, W.lam, W.eps, e, R=R))
    if what == "R":
        H.raises("refused value", lambda: W.dut.lyapunov_derivative(
            W.pts[0], W.xeq, W.lam, W.eps, R))
