"""Parts of the Lyapunov and barrier programs, each by its contract."""
import torch
import gurobipy
from engine.stubs import stands_for
from contracts import dyn, mip
from contracts.c10_hybrid import patched
from contracts.c11_relu_system import kinds_are
from contracts.dyn import Phi, UNITS
import neural_network_lyapunov.relu_system as rs
import neural_network_lyapunov.relu_to_optimization as rto
import neural_network_lyapunov.hybrid_linear_system as hls
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.mip_utils as mip_utils
import neural_network_lyapunov.utils as utils

F = torch.float64
G = gurobipy.GRB
REAL_ADD = gtm.GurobiTorchMIP.add_mixed_integer_linear_constraints


def same(H, a, b):
    return len(a) == len(b) and all(mip.zero(H, p - q)
                                    for p, q in zip(a, b))


class Net(Phi):
    """An arbitrary network whose values at some points are given."""

    def __init__(self, *a):
        super().__init__(*a)
        self.table = []

    def value(self, x):
        x = self.H.vecl(x)
        for p, y in self.table:
            if same(self.H, p, x):
                return y
        return super().value(x)

    def forward(self, x):
        return Phi.__call__(self, x)

    __call__ = forward


@stands_for(rto.ReLUFreePattern)
class Code:
    """ReLUFreePattern(net) by the contract of output_constraint (C01): the
    same rows for every call with the same box; (s_k, z_k) are the unknowns
    at point k, and the output there is Aout s_k + Cout."""

    def __init__(self, net, dtype=None):
        self.model, self.calls = net, []
        net.pattern = self

    def at(self, points, ns=2, nz=1, nin=1, neq=1):
        net, H, nm = self.model, self.model.H, self.model.name
        self.points = [H.vecl(p) for p in points]
        self.ns, self.nz = ns, nz
        self.s = [[H.real(f"{nm}.s{k}_{i}") for i in range(ns)]
                  for k in range(len(points))]
        self.z = [[H.real(f"{nm}.z{k}_{i}", 0., 1.) for i in range(nz)]
                  for k in range(len(points))]
        self.Aout = H.tensor(f"{nm}.Aout", net.nout, ns)
        self.Cout = H.tensor(f"{nm}.Cout", net.nout)
        self.rows = {}
        for kind, n in (("in", nin), ("eq", neq)):
            self.rows[kind] = tuple(
                H.tensor(f"{nm}.{kind}.{a}", n, m) for a, m in
                (("x", net.nin), ("s", ns), ("z", nz))) + (
                    H.tensor(f"{nm}.{kind}.rhs", n), )
        for p, s in zip(self.points, self.s):
            net.table.append((p, self.out(s)))
        self.units = {a: H.tensor(f"{nm}.{a}", ns) for a in UNITS}
        return self

    def out(self, s):
        H = self.model.H
        return [a + b for a, b in zip(H.mv(self.Aout, s),
                                      H.vecl(self.Cout))]

    def output_constraint(self, x_lo, x_up, method):
        self.calls.append((x_lo, x_up, method))
        c = rto.ReLUMixedIntegerConstraintsReturn()
        for kind, M in self.rows.items():
            for a, t in zip(("input", "slack", "binary"), M):
                setattr(c, f"A{kind}_{a}", t.detach().clone())
            setattr(c, f"rhs_{kind}", M[3].detach().clone())
        c.Aout_slack = self.Aout.detach().clone()
        c.Cout = self.Cout.detach().clone()
        c.nn_input_lo, c.nn_input_up = x_lo, x_up
        for a, t in self.units.items():
            setattr(c, a, t)
        c.tag = ("net", self)
        return c

    def gaps(self, x, s, z):
        H, out = self.model.H, []
        for k, sense in (("in", "<"), ("eq", "=")):
            Mx, Ms, Mz, b = self.rows[k]
            for a, e, d, r in zip(H.mv(Mx, x), H.mv(Ms, s), H.mv(Mz, z),
                                  H.vecl(b)):
                out.append((sense, a + e + d - r))
        return out

    def boxes(self, lo, up, method, n):
        H = self.model.H
        H.true("network calls", len(self.calls) in (n if isinstance(
            n, tuple) else (n, )))
        for a, b, m in self.calls:
            H.eqv("network box lower", a, lo)
            H.eqv("network box upper", b, up)
            H.true("network method", m == method)


class Abs:
    """absolute_value_as_mixed_integer_constraint by its contract (C04), and
    compute_range_by_IA by its own (C02): rows for component i of R (x - x*),
    for every x of the box.  n: number of binaries of a component."""

    def __init__(self, H, R, xeq, points, lo, up, n=1):
        self.H, self.R, self.xeq, self.n = H, R, H.vecl(xeq), n
        self.lo, self.up = lo, up
        self.m = R.shape[0]
        self.points = [H.vecl(p) for p in points]
        self.vals = [self.error(p) for p in self.points]
        self.ends = []
        for i in range(self.m):
            vs = [v[i] for v in self.vals] + [H.num(0.)]
            self.ends.append((
                H.min(*vs) - H.real(f"l1.below{i}", 0.),
                H.max(*vs) + H.real(f"l1.above{i}", 0.)))
        self.k = [{kind: [H.vecl(H.tensor(f"abs{i}.{kind}{r}", 3 + n))
                          for r in range(nr)]
                   for kind, nr in (("in", 1), ("eq", 1))}
                  for i in range(self.m)]
        self.count = 0

    def error(self, x):
        """R (x - x*)"""
        return self.H.mv(self.R, [a - b for a, b in zip(self.H.vecl(x),
                                                        self.xeq)])

    def norm(self, x):
        t = self.H.num(0.)
        for v in self.error(x):
            t = t + self.H.absv(v)
        return t

    def range(self, W, b, x_lo, x_up):
        H = self.H
        H.eqv("range of", W.reshape((-1, )), self.R.reshape((-1, )))
        H.eqv("range bias", b, [-v for v in H.mv(self.R, self.xeq)])
        H.eqv("range box lower", x_lo, self.lo)
        H.eqv("range box upper", x_up, self.up)
        return tuple(dyn.vec([e[k] for e in self.ends]) for k in (0, 1))

    def __call__(self, x_lo, x_up, binary_for_zero_input=False):
        H, i = self.H, self.count % self.m
        self.count += 1
        H.true("kind of binaries",
               self.n == (3 if binary_for_zero_input else 1))
        for v in self.vals:
            H.le(f"l1 lower[{i}]", x_lo, v[i])
            H.le(f"l1 upper[{i}]", v[i], x_up)
        c = gtm.MixedIntegerConstraintsReturn()
        for kind, rows in self.k[i].items():
            setattr(c, f"A{kind}_input", self.col(rows, 0, 1))
            setattr(c, f"A{kind}_slack", self.col(rows, 1, 2))
            setattr(c, f"A{kind}_binary", self.col(rows, 2, 2 + self.n))
            setattr(c, f"rhs_{kind}", dyn.vec([k[-1] for k in rows]))
        c.Aout_slack = torch.tensor([[1.]], dtype=F)
        c.tag = ("abs", i)
        return c

    def col(self, rows, a, b):
        return torch.stack([dyn.vec(k[a:b]) for k in rows])

    def gaps(self, i, v, s, z):
        """v: the component of R (x - x*)"""
        out = []
        for kind, sense in (("in", "<"), ("eq", "=")):
            for k in self.k[i][kind]:
                g = k[0] * v + k[1] * s - k[-1]
                for a, b in zip(k[2:-1], z):
                    g = g + a * b
                out.append((sense, g))
        return out


class Adds:
    """Which encoding was added for which variables."""

    def __init__(self):
        self.list = []

    def __enter__(self):
        rec = self

        def add(prog, c, input_vars, *a, **k):
            s, z = REAL_ADD(prog, c, input_vars, *a, **k)
            rec.list.append((prog, getattr(c, "tag", None), input_vars, s, z,
                             c))
            return s, z

        self.p = patched(gtm.GurobiTorchMIP,
                         add_mixed_integer_linear_constraints=add)
        self.p.__enter__()
        return self

    def __exit__(self, *a):
        return self.p.__exit__(*a)

    def of(self, prog):
        return [r[1:] for r in self.list if r[0] is prog]


def abs_by_contract(A):
    return (patched(utils, absolute_value_as_mixed_integer_constraint=A),
            patched(mip_utils, compute_range_by_IA=A.range))


@stands_for(rs.AutonomousReLUSystem)
class Plant(rs.AutonomousReLUSystem):
    """A system known by the contract of its methods (C10 to C12)."""

    def __init__(self, H, nx, lo, up, points=()):
        self.H, self.nx = H, nx
        self.dtype = F
        self.lo, self.up = lo, up
        self.succ = [(H.vecl(a), H.vecl(b)) for a, b in points]
        self.calls = []
        self.dynamics_relu = "network of the plant"

    @property
    def x_dim(self):
        return self.nx

    @property
    def x_lo_all(self):
        return self.lo.detach().numpy()

    @property
    def x_up_all(self):
        return self.up.detach().numpy()

    def step(self, x):
        x = self.H.vecl(x)
        for p, y in self.succ:
            if same(self.H, p, x):
                return y
        return [self.H.uninterp(f"next{j}", *x) for j in range(self.nx)]

    def step_forward(self, x):
        if len(x.shape) == 1:
            return dyn.vec(self.step(x))
        return torch.stack([dyn.vec(self.step(x[i]))
                            for i in range(x.shape[0])])

    def possible_dx(self, x):
        return [self.step_forward(x)]

    def add_dynamics_constraint(self, mip_, x_var, x_next_var, slack_name,
                                binary_name, binary_var_type=G.BINARY):
        """Any row on the states, the successors and an unknown of each
        kind."""
        H = self.H
        s = mip_.addVars(1, lb=-G.INFINITY, vtype=G.CONTINUOUS,
                         name=slack_name)
        z = mip_.addVars(1, vtype=binary_var_type, name=binary_name)
        nx, k = self.nx, len(self.calls)
        M = H.tensor(f"plant{k}", 2 * nx + 2)
        b = H.tensor(f"plant{k}.rhs", 1)
        mip_.addLConstr([M], [x_var + x_next_var + s + z],
                        sense=G.EQUAL, rhs=b[0])
        ret = hls.DynamicsConstraintReturn(s, z)
        self.calls.append((mip_, x_var, x_next_var, s, z, M, b, ret,
                           binary_var_type))
        return ret

    def gap(self, k, val):
        H = self.H
        _, x, xn, s, z, M, b, _, _ = self.calls[k]
        g = -H.el1(b, 0)
        for m, v in zip(H.vecl(M), x + xn + s + z):
            g = g + m * val[v]
        return ("=", g)


def R_of(H, rows, nx):
    """(argument, matrix): rows = 0 is the default, the identity."""
    if rows == 0:
        return None, torch.eye(nx, dtype=F)
    R = H.tensor("R", rows, nx)
    return R, R


def blocks(H, name, adds, prog, net, ab, groups, val, btype, alpha=None):
    """Check the encodings of a program: for each (state variables, point,
    needs network, needs norm) of groups exactly one of each.  Sets the
    unknowns in val to their values and returns (wanted rows, {group:
    (network slack, network binary, norm slack, norm binary)})."""
    rows, out = [], {}
    left = adds.of(prog)
    for gname, (xs, k, wants) in groups.items():
        mine = [r for r in left if mip.ids(r[1]) == mip.ids(xs)]
        left = [r for r in left if mip.ids(r[1]) != mip.ids(xs)]
        nets = [r for r in mine if r[0] and r[0][0] == "net"]
        abss = [r for r in mine if r[0] and r[0][0] == "abs"]
        H.true(f"{name}.{gname} encodings", len(mine) == len(nets) +
               len(abss) and len(nets) == ("net" in wants) and
               sorted(r[0][1] for r in abss) ==
               (list(range(ab.m)) if "abs" in wants else []))
        xv = net.pattern.points[k]
        for r in nets:
            kinds_are(H, f"{name}.{gname} network", r[2], r[3], btype)
            for v, t in zip(r[2] + r[3], net.pattern.s[k] + net.pattern.z[k]):
                val[v] = t
            rows += net.pattern.gaps(xv, net.pattern.s[k], net.pattern.z[k])
        abss.sort(key=lambda r: r[0][1])
        e = ab.error(xv) if abss else []
        for r in abss:
            i = r[0][1]
            kinds_are(H, f"{name}.{gname} norm", r[2], r[3], btype)
            H.true(f"{name}.{gname} norm unknowns", len(r[2]) == 1 and
                   len(r[3]) == ab.n)
            val[r[2][0]] = H.absv(e[i])
            z = [alpha(i, j) if alpha else H.real(
                f"{gname}.alpha{i}_{j}", 0., 1.) for j in range(ab.n)]
            for v, t in zip(r[3], z):
                val[v] = t
            rows += ab.gaps(i, e[i], H.absv(e[i]), z)
        out[gname] = (nets[0][2] if nets else None,
                      nets[0][3] if nets else None,
                      [r[2][0] for r in abss], [r[3] for r in abss])
    H.true(name + ".no other encodings", left == [])
    return rows, out


def plant_unknowns(H, call, val):
    for v in call[3]:
        val[v] = H.real(f"plant unknown {v.index}")
    for v in call[4]:
        val[v] = H.real(f"plant unknown {v.index}", 0., 1.)


def free_states(H, name, *groups):
    """The states range over everything the encodings allow."""
    H.true(name, all(v.vtype == "C" and H.unbounded(v)
                     for g in groups for v in g))
