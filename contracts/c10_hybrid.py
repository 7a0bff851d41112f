"""Piecewise affine systems: their mixed-integer form, their simulation."""
import itertools
import torch
import gurobipy
from engine.cases import case, by_contract
from engine.stubs import as_called, is_code, stub
import neural_network_lyapunov.hybrid_linear_system as hls
import neural_network_lyapunov.gurobi_torch_mip as gtm
import neural_network_lyapunov.utils as utils

F = torch.float64
AUTO = "_AutonomousHybridLinearSystem__compute_Ai_times_x_bounds"


class Sys:
    """An arbitrary system with the bounds of its modes given."""

    def __init__(self, H, nx, nu, rows, q=None, bounds=True):
        self.H, self.nx, self.nu, self.n = H, nx, nu, len(rows)
        if nu is None:
            s = hls.AutonomousHybridLinearSystem(nx, F)
            d = nx
        else:
            s = hls.HybridLinearSystem(nx, nu, F)
            d = nx + nu
        self.sys = s
        for i, k in enumerate(rows):
            s.A.append(H.tensor(f"A{i}", nx, nx))
            (s.g if nu is None else s.c).append(H.tensor(f"c{i}", nx))
            if nu is not None:
                s.B.append(H.tensor(f"B{i}", nx, nu))
            s.P.append(H.tensor(f"P{i}", k, d))
            s.q.append(H.tensor(f"q{i}", k) if q is None else q(i, s.P[i]))
        s.num_modes = len(rows)
        self.rows = rows

    def box(self, name, v):
        """Bounds over all modes containing the value v."""
        H = self.H
        v = H.vecl(v)
        lo = H.nparr(name + "_lo", len(v))
        up = H.nparr(name + "_up", len(v))
        for i, x in enumerate(v):
            H.assume(H.scalar(lo[i]) <= x)
            H.assume(x <= H.scalar(up[i]))
        setattr(self.sys, name + "_lo_all", lo)
        setattr(self.sys, name + "_up_all", up)
        return lo, up

    def member(self, i, xu):
        """Formulas P_i xu <= q_i."""
        H = self.H
        return [a <= b for a, b in zip(H.mv(self.sys.P[i], xu),
                                       H.vecl(self.sys.q[i]))]

    def inside(self, i, xu):
        return self.H.and_(*self.member(i, xu))

    def next(self, i, x, u):
        H, s = self.H, self.sys
        c = H.vecl((s.g if self.nu is None else s.c)[i])
        out = [a + b for a, b in zip(H.mv(s.A[i], x), c)]
        if self.nu:
            out = [a + b for a, b in zip(out, H.mv(s.B[i], u))]
        return out


def slacked(H, xu):
    """q with the point xu in every mode."""

    def q(i, P):
        k = P.shape[0]
        t = H.tensor(f"t{i}", k, lo=0.)
        return torch.stack([torch.tensor(v, dtype=F) + t[j]
                            for j, v in enumerate(H.mv(P, xu))])

    return q


def alpha(n, m):
    return [1. if i == m else 0. for i in range(n)]


def mode_system(H, nx, nu, rows, inmode):
    x = H.vecl(H.tensor("x", nx))
    u = H.vecl(H.tensor("u", nu)) if nu else []
    S = Sys(H, nx, nu, rows, slacked(H, x + u) if inmode else None)
    S.box("x", x)
    if nu is not None:
        S.box("u", u)
    return S, x, u


def user_bounds(H, name, v, how, which):
    """Further bounds given by the caller, containing v."""
    if how is None:
        return None, None
    out = []
    for sgn, w in ((-1, "lo"), (1, "up")):
        if w not in which:
            out.append(None)
            continue
        t = H.tensor(f"user.{name}_{w}", len(v))
        for a, b in zip(H.vecl(t), v):
            H.assume(a <= b if sgn < 0 else b <= a)
        out.append(t if how == "tensor" else t.detach().numpy())
    return tuple(out)


def assignment(S, m, x, u):
    """The assignment in which mode m is the active one."""
    s = []
    for i in range(S.n):
        s += [v if i == m else 0. for v in x]
    for i in range(S.n):
        s += [v if i == m else 0. for v in u]
    return s


def constraints(H, S, x, u, how, which):
    xb = user_bounds(H, "x", x, how, which)
    if S.nu is None:
        return S.sys.mixed_integer_constraints(*xb)
    ub = user_bounds(H, "u", u, how, which)
    return S.sys.mixed_integer_constraints(*xb, *ub)


SHAPES = [(1, None, (2, 1)), (2, None, (1, 1)), (1, None, (1, 1, 2)),
          (1, 1, (1, 2)), (2, 1, (1, 1)), (1, 1, (1, 1, 1)),
          (3, 1, (1, 1)), (1, 3, (1, 1))]


@case("C10", ["hybrid_linear_system.HybridLinearSystem."
              "mixed_integer_constraints",
              "hybrid_linear_system.AutonomousHybridLinearSystem."
              "mixed_integer_constraints"],
      params=[(s, h) for s in SHAPES
              for h in ((None, ()), ("tensor", ("lo", "up")),
                        ("numpy", ("lo", "up")), ("tensor", ("lo", )),
                        ("numpy", ("up", )))
              if h[0] is None or s in (SHAPES[0], SHAPES[3])],
      scope="up to three modes, states of dimension one or two")
def feasible_in_each_mode(H, shape, how):
    """A state in a mode has the assignment of that mode."""
    nx, nu, rows = shape
    S, x, u = mode_system(H, nx, nu, rows, True)
    H.cover()
    c = constraints(H, S, x, u, *how)
    s = H.cnstr_system(c, x + u)
    H.true("slack", s.ns == S.n * (nx + (nu or 0)))
    H.true("binary", s.nz == S.n)
    for m in range(S.n):
        want = S.next(m, x, u)
        H.exists(f"mode {m}", s, assignment(S, m, x, u) + alpha(S.n, m),
                 [(*H.out_expr(c, x + u, s, k), want[k])
                  for k in range(nx)])


@case("C10", ["hybrid_linear_system.HybridLinearSystem."
              "mixed_integer_constraints",
              "hybrid_linear_system.AutonomousHybridLinearSystem."
              "mixed_integer_constraints"],
      params=[(s, h) for s in SHAPES
              for h in ((None, ()), ("tensor", ("lo", "up")))
              if h[0] is None or s in (SHAPES[0], SHAPES[3])],
      scope="up to three modes, states of dimension one or two")
def only_the_modes(H, shape, how):
    """Any solution is in exactly one mode and has its successor."""
    nx, nu, rows = shape
    S, x, u = mode_system(H, nx, nu, rows, False)
    H.cover()
    c = constraints(H, S, x, u, *how)
    s = H.cnstr_system(c, x + u)
    for z in itertools.product((0., 1.), repeat=S.n):
        given = {s.ns + i: b for i, b in enumerate(z)}
        if sum(z) != 1:
            H.entail(f"modes {z} excluded", s, {}, 0., 1., given=given)
            continue
        m = z.index(1.)
        want = S.next(m, x, u)
        for k in range(nx):
            H.entail(f"mode {m}: next[{k}]", s,
                     *H.out_expr(c, x + u, s, k), want[k], given=given)
        for j, (v, q) in enumerate(zip(H.mv(S.sys.P[m], x + u),
                                       H.vecl(S.sys.q[m]))):
            H.entail(f"mode {m}: in the mode, row {j}", s, {}, v, q, "le",
                     given=given)


@case("C10", ["hybrid_linear_system.HybridLinearSystem."
              "mixed_integer_constraints",
              "hybrid_linear_system.AutonomousHybridLinearSystem."
              "mixed_integer_constraints"],
      params=[(SHAPES[0], "tensor"), (SHAPES[3], "numpy")],
      scope="two modes, states of dimension one")
def within_the_callers_bounds(H, shape, how):
    """The caller's bounds on the state and the input hold in a solution."""
    nx, nu, rows = shape
    S, x, u = mode_system(H, nx, nu, rows, False)
    b = []
    for name, v in (("x", x), ("u", u)):
        lo, up = H.interval("user." + name, len(v)) if v else ([], [])
        if v:
            all_lo, all_up = [H.vecl(getattr(S.sys, f"{name}_{k}_all"))
                              for k in ("lo", "up")]
            if not H.sym:
                d = H.tensor(f"wide.{name}", len(v), lo=0.)
                lo = torch.tensor(v, dtype=F) - d
                up = torch.max(lo, torch.tensor(all_lo, dtype=F)) + d
            for j in range(len(v)):
                H.assume(H.el1(lo, j) <= all_up[j])
                H.assume(all_lo[j] <= H.el1(up, j))
        b.append((lo, up) if how == "tensor" or not v else
                 (lo.detach().numpy(), up.detach().numpy()))
    H.cover()
    c = S.sys.mixed_integer_constraints(*b[0]) if S.nu is None else \
        S.sys.mixed_integer_constraints(*b[0], *b[1])
    s = H.cnstr_system(c, x + u)
    for m in range(S.n):
        given = {s.ns + i: 1. if i == m else 0. for i in range(S.n)}
        for v, (lo, up) in zip((x, u), b):
            for j in range(len(v)):
                H.entail(f"mode {m}: lower", s, {}, v[j], H.el1(lo, j), "ge",
                         given=given)
                H.entail(f"mode {m}: upper", s, {}, v[j], H.el1(up, j), "le",
                         given=given)


@case("C10", ["hybrid_linear_system.HybridLinearSystem."
              "add_dynamics_constraint",
              "hybrid_linear_system.AutonomousHybridLinearSystem."
              "add_dynamics_constraint"],
      params=[(2, None, (1, 1)), (1, 1, (1, 1)), (1, 2, (1, 1))],
      scope="two modes")
def dynamics_in_a_program(H, nx, nu, rows):
    S, x, u = mode_system(H, nx, nu, rows, True)
    relax = H.bit("relaxed")
    # binary unknowns unless relaxed ones are asked for
    kw = dict(binary_var_type=gtm.BINARYRELAX) if relax else {}
    H.cover()
    p = gtm.GurobiTorchMILP(F)
    xv = p.addVars(nx, lb=-gurobipy.GRB.INFINITY)
    nv = p.addVars(nx, lb=-gurobipy.GRB.INFINITY)
    uv = p.addVars(nu, lb=-gurobipy.GRB.INFINITY) if nu else []
    if nu is None:
        # (no default here)
        r = S.sys.add_dynamics_constraint(
            p, xv, nv, "s", "g",
            gtm.BINARYRELAX if relax else gurobipy.GRB.BINARY)
    else:
        r = S.sys.add_dynamics_constraint(p, xv, nv, uv, "s", "g",
                                          **kw)
    H.true("slack", len(r.slack) == S.n * (nx + (nu or 0)))
    H.true("binary", len(r.binary) == S.n)
    H.true("type", all(v.vtype == ("C" if relax else "B") for v in r.binary))
    sysm = H.model_system(p.gurobi_model,
                          dict(zip(xv + uv, x + u)))
    n = len(sysm.kinds)
    for m in range(S.n):
        w = [None] * n
        want = S.next(m, x, u)
        for v, k in zip(nv, want):
            w[sysm.ix[v]] = k
        for v, k in zip(r.slack, assignment(S, m, x, u)):
            w[sysm.ix[v]] = k
        for v, k in zip(r.binary, alpha(S.n, m)):
            w[sysm.ix[v]] = k
        H.exists(f"mode {m}", sysm, w)
        given = {sysm.ix[v]: k for v, k in zip(r.binary, alpha(S.n, m))}
        for k in range(nx):
            H.entail(f"mode {m}: next[{k}]", sysm, {sysm.ix[nv[k]]: 1.}, 0.,
                     want[k], given=given)
    for z in ((0., 0.), (1., 1.)):
        H.entail(f"modes {z} excluded", sysm, {}, 0., 1.,
                 given={sysm.ix[v]: k for v, k in zip(r.binary, z)})


# ------------------------------------------------------------- the modes
class patched:
    """Module attributes replaced for a while (callee contracts)."""

    def __init__(self, owner, **kw):
        self.owner, self.kw = owner, kw

    def __enter__(self):
        self.old = {k: getattr(self.owner, k) for k in self.kw}
        for k, v in self.kw.items():
            by_contract(self.owner, k)
            if is_code(self.old[k]):
                v = as_called(self.old[k], v)
            setattr(self.owner, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.owner, k, v)


@case("C10", ["hybrid_linear_system.HybridLinearSystem.add_mode",
              "hybrid_linear_system.AutonomousHybridLinearSystem.add_mode",
              "hybrid_linear_system.AutonomousHybridLinearSystem."
              "mode_derivative_bounds"],
      params=[(2, None), (1, 1), (2, 1), (1, None, 3), (1, 1, 3), (3, 1)],
      scope="two modes, and three with states of 1")
def added_modes(H, nx, nu, n=2):
    """After adding modes: the data, and bounds containing every mode."""
    d = nx + (nu or 0)
    s = hls.AutonomousHybridLinearSystem(nx, F) if nu is None else \
        hls.HybridLinearSystem(nx, nu, F)
    data = []
    pt = [H.vecl(H.tensor(f"pt{i}", d)) for i in range(n)]
    for i in range(n):
        lo, up = H.nparr(f"lo{i}", d), H.nparr(f"up{i}", d)
        for j in range(d):
            H.assume(H.scalar(lo[j]) <= pt[i][j])
            H.assume(pt[i][j] <= H.scalar(up[j]))
        A, c = H.tensor(f"A{i}", nx, nx), H.tensor(f"c{i}", nx)
        B = H.tensor(f"B{i}", nx, nu) if nu else None
        P, q = H.tensor(f"P{i}", 2, d), H.tensor(f"q{i}", 2)
        Al, Au = H.nparr(f"Al{i}", nx), H.nparr(f"Au{i}", nx)
        for j, v in enumerate(H.mv(A, pt[i][:nx])):
            H.assume(H.scalar(Al[j]) <= v)
            H.assume(v <= H.scalar(Au[j]))
        data.append((A, B, c, P, q, lo, up, Al, Au))
    H.cover()
    for i, (A, B, c, P, q, lo, up, Al, Au) in enumerate(data):

        def bounds(P_, q_, j, P=P, q=q, lo=lo, up=up):
            H.true("bounds of the mode added", P_ is P and q_ is q)
            return lo[j], up[j]

        def ax(k, Al=Al, Au=Au, i=i):
            H.true("index", k == i)
            return Al, Au

        if nu is None:
            stub(s, **{AUTO: ax})
        with patched(utils, compute_bounds_from_polytope=bounds):
            if nu is None:
                s.add_mode(A, c, P, q)
            else:
                s.add_mode(A, B, c, P, q)
    H.true("modes", s.num_modes == n)
    for i, (A, B, c, P, q, lo, up, Al, Au) in enumerate(data):
        H.eqv(f"A{i}", s.A[i], A)
        H.eqv(f"c{i}", (s.g if nu is None else s.c)[i], c)
        H.eqv(f"P{i}", s.P[i], P)
        H.eqv(f"q{i}", s.q[i], q)
        if nu:
            H.eqv(f"B{i}", s.B[i], B)
        H.lev(f"x_lo[{i}]", s.x_lo[i], pt[i][:nx])
        H.lev(f"x_up[{i}]", pt[i][:nx], s.x_up[i])
        H.lev(f"x_lo_all {i}", s.x_lo_all, pt[i][:nx])
        H.lev(f"x_up_all {i}", pt[i][:nx], s.x_up_all)
        if nu:
            H.lev(f"u_lo[{i}]", s.u_lo[i], pt[i][nx:])
            H.lev(f"u_up[{i}]", pt[i][nx:], s.u_up[i])
            H.lev(f"u_lo_all {i}", s.u_lo_all, pt[i][nx:])
            H.lev(f"u_up_all {i}", pt[i][nx:], s.u_up_all)
        else:
            v = H.mv(A, pt[i][:nx])
            l, p = s.mode_derivative_bounds(i)
            H.lev(f"A x lower {i}", l, v)
            H.lev(f"A x upper {i}", v, p)
            w = [a + b for a, b in zip(v, H.vecl(c))]
            H.lev(f"dx lower {i}", s.dx_lower, w)
            H.lev(f"dx upper {i}", w, s.dx_upper)


@case("C10", ["hybrid_linear_system.HybridLinearSystem.mode",
              "hybrid_linear_system.AutonomousHybridLinearSystem.mode",
              "hybrid_linear_system.HybridLinearSystem.possible_dx",
              "hybrid_linear_system.AutonomousHybridLinearSystem."
              "possible_dx"],
      params=[(2, None, (1, 2)), (1, 1, (2, 1)), (1, None, (1, 1, 1)),
              (1, 1, (1, 1, 1))],
      scope="up to three modes")
def the_mode_of_a_state(H, nx, nu, rows):
    x, u = H.tensor("x", nx), H.tensor("u", nu) if nu else None
    xu = H.vecl(x) + (H.vecl(u) if nu else [])
    S = Sys(H, nx, nu, rows)
    H.cover()
    a = (x, ) if nu is None else (x, u)
    m = S.sys.mode(*a)
    for i in range(S.n if m is None else m):
        H.true(f"not in mode {i}", H.not_(S.inside(i, xu)))
    if m is not None:
        H.true("in the mode", S.inside(m, xu))
    dx = S.sys.possible_dx(*a)
    k = 0
    for i in range(S.n):
        if H.holds(S.inside(i, xu)):
            H.true(f"mode {i} listed", k < len(dx))
            if k < len(dx):
                H.eqv(f"dx {i}", dx[k], S.next(i, H.vecl(x),
                                               xu[nx:]))
            k += 1
    H.true("no other", k == len(dx))


@case("C10", ["hybrid_linear_system.HybridLinearSystem.step_forward",
              "hybrid_linear_system.AutonomousHybridLinearSystem."
              "step_forward"],
      params=[(2, None), (2, 1)], scope="two modes")
def one_step(H, nx, nu):
    S = Sys(H, nx, nu, (1, 1))
    x, u = H.tensor("x", nx), H.tensor("u", nu) if nu else None
    m = H.choice("mode", [0, 1, None])
    a = (x, ) if nu is None else (x, u)

    def mode(*b):
        H.true("asked at the state", all(p is q for p, q in zip(a, b)))
        return m

    stub(S.sys, mode=mode)
    H.cover()
    if nu is None:
        if m is None:
            H.raises("outside", lambda: S.sys.step_forward(x),
                     (S.sys.StepForwardException, ))
            m = H.choice("given mode", [0, 1])
            y = S.sys.step_forward(x, m)
        else:
            y = S.sys.step_forward(x)
    else:
        y, k = S.sys.step_forward(x, u)
        H.true("mode", k == m)
        if m is None:
            H.true("no next state", y is None)
            return
    H.eqv("next", y, S.next(m, H.vecl(x), H.vecl(u) if nu else []))


@case("C10", ["hybrid_linear_system.HybridLinearSystem.step_forward",
              "hybrid_linear_system.AutonomousHybridLinearSystem."
              "step_forward"],
      params=[(2, None), (2, 1)], scope="two modes, batches of three")
def one_step_of_a_batch(H, nx, nu):
    S = Sys(H, nx, nu, (1, 1))
    x = H.tensor("x", 3, nx)
    u = H.tensor("u", 3, nu) if nu else None
    ms = [H.choice(f"mode{i}", [0, 1]) for i in range(3)]
    q = list(ms)
    stub(S.sys, mode=lambda *b: q.pop(0))
    H.cover()
    if nu is None:
        y = S.sys.step_forward(x)
    else:
        y, k = S.sys.step_forward(x, u)
        H.true("modes", list(k) == ms)
    H.shape("batch", y, (3, nx))
    for i in range(3):
        H.eqv(f"next {i}", y[i], S.next(ms[i], H.vecl(x[i]),
                                        H.vecl(u[i]) if nu else []))


# ------------------------------------------------------------- cost-to-go
@case("C10", ["hybrid_linear_system.compute_discrete_time_system_cost_to_go"],
      params=[(0, False), (1, False), (2, False), (1, True), (2, True),
              (1, False, 3)],
      scope="two or three modes, horizons up to two")
def cost_to_go(H, steps, goal, modes=2):
    nx = 1
    S = Sys(H, nx, None, (1, ) * modes)
    x0 = H.tensor("x0", nx)
    g = H.tensor("goal", nx) if goal else None
    if goal and not H.sym and H.bit("at the goal"):
        # samples rarely meet the goal
        g = x0.clone() if steps == 1 else S.sys.A[0] @ x0 + S.sys.g[0]
    w = H.tensor("w", nx)
    kept = []

    def cost(x):
        # a stage cost that still uses what it returned
        v = w @ x + torch.sum(x * x)
        kept.append((v, H.vecl(x), H.scalar(v)))
        return v

    def c(x):
        return H.dot(w, x) + H.dot(x, x)

    x = [H.vecl(x0)]
    H.cover()
    out = None
    try:
        total, xs, costs = hls.compute_discrete_time_system_cost_to_go(
            S.sys, x0, steps, cost, g)
        out = 1
    except S.sys.StepForwardException:
        pass
    n = xs.shape[1] - 1 if out else None
    for i in range(steps):
        if goal and H.holds(H.dot([a - b for a, b in zip(
                x[i], H.vecl(g))], [a - b for a, b in zip(
                    x[i], H.vecl(g))]) < 1e-6):
            break
        k = None
        for j in range(modes):
            if H.holds(S.inside(j, x[i])):
                k = j
                break
        if k is None:
            H.true("leaving the domain raises", out is None)
            return
        x.append(S.next(k, x[i], []))
    H.true("stays in the domain", out is not None)
    H.true("steps", n == len(x) - 1)
    if out is None or n != len(x) - 1:
        return
    for i in range(len(x)):
        H.eqv(f"x[{i}]", xs[:, i], x[i])
    cs = [c(v) for v in x]
    H.eq("total", total, sum(cs[1:], cs[0]))
    for i in range(len(x)):
        H.eq(f"cost[{i}]", costs[i], sum(cs[i + 1:], cs[i]))
    for i, (v, _, was) in enumerate(kept):
        H.eq(f"stage cost {i} untouched", v, was)
    H.eqv("x0 untouched", x0, x[0])


@case("C10", ["hybrid_linear_system."
              "compute_continuous_time_system_cost_to_go"],
      params=[(1, 1, False), (1, 3, True), (2, 2, True), (2, 2, False)],
      scope="state of 1 or 2, trajectories of 1 to 3 instants")
def cost_to_go_in_time(H, nx, n, goal):
    """The integral of the stage cost along the flow of the system, until
    the horizon or the goal (the integrator by contract)."""
    s = hls.AutonomousHybridLinearSystem(nx, F)
    x0, x = H.tensor("x0", nx), H.nparr("x", nx + 1)
    g = H.tensor("goal", nx) if goal else None
    y = H.nparr("y", nx + 1, n)
    seen = []

    def step_forward(v, mode=None):
        seen.append(H.vecl(v))
        return torch.tensor([H.uninterp(f"f{j}", *H.vecl(v))
                             for j in range(nx)], dtype=F)

    def cost(v):
        seen.append(H.vecl(v))
        return torch.tensor(H.uninterp("cost", *H.vecl(v)), dtype=F)

    class Answer:
        pass

    Answer.y = y
    ran = []

    def integrate(fun, t_span, y0, **kw):
        ran.append(1)
        H.true("span", tuple(t_span) == (0, 2.5))
        H.eqv("start", y0, H.vecl(x0) + [0.])
        H.true("precision", kw.get("rtol", 1e-3) <= 1e-8)
        d = fun(1.25, x)
        xl = H.vecl(x)[:nx]
        H.true("asked at the state", len(seen) > 0)
        for v in seen:
            H.eqv("at the state", v, xl)
        H.eqv("rate", d, [H.uninterp(f"f{j}", *xl) for j in range(nx)] +
              [H.uninterp("cost", *xl)])
        ev = kw.get("events") or []
        ev = ev if isinstance(ev, (list, tuple)) else [ev]
        H.true("events", len(ev) == (1 if goal else 0))
        for e in ev:
            H.true("stops there", e.terminal)
            H.eq("distance to the goal", e(1.25, x), H.sqrt(sum(
                (a - b) * (a - b) for a, b in zip(xl, H.vecl(g)))) - 1e-3)
        return Answer

    stub(s, step_forward=step_forward)
    H.cover()
    with patched(hls, solve_ivp=integrate):
        total, traj, togo, sol = hls.compute_continuous_time_system_cost_to_go(
            s, x0, 2.5, cost, g)
    H.true("run once", len(ran) == 1)
    H.eq("total", total, H.el(y, nx, n - 1))
    H.shape("trajectory", traj, (nx, n))
    for j in range(n):
        H.eqv(f"state {j}", traj[:, j], [H.el(y, i, j) for i in range(nx)])
        H.eq(f"cost from {j}", togo[j], H.el(y, nx, n - 1) - H.el(y, nx, j))
    H.shape("costs", togo, (n, ))
    H.true("solution", sol is Answer)


@case("C10", ["hybrid_linear_system.generate_cost_to_go_samples"],
      params=[(b, q) for b in (0, 1) for q in (0, 1)] + [(0, 0, 3)],
      scope="2 or 3 starts")
def samples(H, prune, cont, n=2):
    """The pairs of every trajectory that stays in the domain."""
    s = hls.AutonomousHybridLinearSystem(1, F)
    x0 = [H.tensor(f"x0.{i}", 1) for i in range(n)]
    T = 3. if cont else 3
    goal = H.tensor("goal", 1) if H.bit("goal") else None
    what = [H.choice(f"traj{i}", ["leaves", 1, 2]) for i in range(n)]
    trajs = [None if m == "leaves" else
             (H.tensor(f"t{i}", 1, m), H.tensor(f"c{i}", m))
             for i, m in enumerate(what)]
    calls = []

    def traj(system, x, T_, cost_, goal_=None):
        i = len(calls)
        calls.append(i)
        H.true("call", system is s and x is x0[i] and T_ == T and
               cost_ is cost and goal_ is goal)
        if trajs[i] is None:
            raise s.StepForwardException("left")
        t, c = trajs[i]
        return (c[0], t, c) + ((None, ) if cont else ())

    def cost(x):
        raise AssertionError

    want = []
    answers = []
    for i in range(n):
        if trajs[i] is not None:
            for k in range(what[i]):
                keep = H.bit(f"keep{i}{k}") if prune else 1
                answers.append((trajs[i][0], k, keep))
                if keep:
                    want.append((trajs[i][0][:, k], trajs[i][1][k]))
    order = list(answers)

    def pruner(x):
        t, k, keep = order.pop(0)
        H.eqv("pruner asked", x, t[:, k])
        return not keep

    H.cover()
    name = "compute_continuous_time_system_cost_to_go" if cont else \
        "compute_discrete_time_system_cost_to_go"
    with patched(hls, **{name: traj}):
        r = hls.generate_cost_to_go_samples(
            s, x0, T, cost, not cont, goal, pruner if prune else None)
    H.true("every start", len(calls) == n)
    H.true("number", len(r) == len(want))
    for i, (a, b) in enumerate(zip(r, want)):
        H.eqv(f"state {i}", a[0], b[0])
        H.eq(f"cost {i}", a[1], b[1])


# ------------------------------------------------------------- partitions
@case("C10", ["hybrid_linear_system.partition_state_input_space"],
      params=[((1, ), (1, )), ((2, ), (1, )), ((3, ), (2, )),
              ((2, 1), (2, )), ((1, 1, 2), (1, )), ((1, ), (1, 1, 2))],
      scope="the listed numbers of cells per dimension")
def partition(H, bx, bu):
    nx, nu = len(bx), len(bu)
    xl, xu = H.interval("x", nx, True)
    ul, uu = H.interval("u", nu, True)
    # at most half a cell, so that cells still have their centres
    dx = H.tensor("dx", nx, lo=0., up=4.)
    du = H.tensor("du", nu, lo=0., up=4.)
    p = H.vecl(H.between("px", xl, xu)) + H.vecl(H.between("pu", ul, uu))
    H.cover()
    sx, su, sxl, sxu, sul, suu = hls.partition_state_input_space(
        xl, xu, ul, uu, torch.tensor(bx, dtype=torch.int),
        torch.tensor(bu, dtype=torch.int), dx, du)
    n = 1
    for k in bx + bu:
        n *= k
    for nm, t, d in (("state", sx, nx), ("state lo", sxl, nx),
                     ("state up", sxu, nx), ("input", su, nu),
                     ("input lo", sul, nu), ("input up", suu, nu)):
        H.shape(nm, t, (n, d))
        H.true(nm + " precision", t.dtype == F)
    L, U = H.vecl(xl) + H.vecl(ul), H.vecl(xu) + H.vecl(uu)
    D = H.vecl(dx) + H.vecl(du)
    N = bx + bu
    cells = []
    for r in range(n):
        ctr = H.vecl(sx[r]) + H.vecl(su[r])
        lo = H.vecl(sxl[r]) + H.vecl(sul[r])
        up = H.vecl(sxu[r]) + H.vecl(suu[r])
        for i in range(nx + nu):
            h = (U[i] - L[i]) / N[i]
            H.eq(f"cell {r} lo[{i}]", lo[i],
                 H.max(L[i], ctr[i] - (0.5 + D[i]) * h))
            H.eq(f"cell {r} up[{i}]", up[i],
                 H.min(U[i], ctr[i] + (0.5 + D[i]) * h))
            H.true(f"cell {r} centre[{i}]", H.or_(*[
                H.absv(ctr[i] - (L[i] + (k + 0.5) * h)) <=
                (0. if H.sym else 1e-9 * (1 + abs(U[i]) + abs(L[i])))
                for k in range(N[i])]))
        cells.append((ctr, lo, up))
    e = 0. if H.sym else 1e-9
    H.true("covers", H.or_(*[H.and_(*[
        H.and_(lo[i] - e <= p[i], p[i] <= up[i] + e)
        for i in range(nx + nu)]) for _, lo, up in cells]))


# ------------------------------------------------------------- polytopes
@case("C10", ["utils.compute_bounds_from_polytope"],
      params=[(2, 2, "tensor"), (2, 2, "numpy"), (1, 2, "tensor"),
              (1, 3, "tensor")],
      scope="the listed sizes")
def polytope_bounds(H, d, rows, kind):
    P = H.tensor("P", rows, d)
    x = H.vecl(H.tensor("x", d))
    q = slacked(H, x)(0, P)
    i = H.choice("i", list(range(d)))
    ends = []
    H.solver(lambda m: dict(zip(m.getVars(), x)),
             ["OPTIMAL", "UNBOUNDED", "INFEASIBLE"], solution=True,
             on_solve=lambda m: ends.append(
                 m._sols[0][1] if m._sols else None))
    H.cover()
    if kind == "numpy":
        lo, up = utils.compute_bounds_from_polytope(
            P.detach().numpy(), q.detach().numpy(), i)
    else:
        lo, up = utils.compute_bounds_from_polytope(P, q, i)
    if not H.isinf(lo):
        H.le("lower", lo, x[i], tol=1e-6)
    else:
        H.true("unbounded below", lo == -float("inf"))
    if not H.isinf(up):
        H.le("upper", x[i], up, tol=1e-6)
    else:
        H.true("unbounded above", up == float("inf"))
    if H.sym:
        for v, e in ((up, ends[0]), (lo, ends[1])):
            if e is not None:
                H.eq("attained", v, e[i])
                for a, b in zip(H.mv(P, e), H.vecl(q)):
                    H.le("attained in the polytope", a, b)


@case("C10", ["hybrid_linear_system.AutonomousHybridLinearSystem."
              "__compute_Ai_times_x_bounds"], params=[(2, 2), (1, 2), (3, 2)],
      scope="the listed sizes")
def bounds_of_the_drift(H, nx, rows):
    x = H.vecl(H.tensor("x", nx))
    B = 1. if H.sym else 5.
    if H.sym:
        S = Sys(H, nx, None, (rows, rows), slacked(H, x))
    else:
        # bounded modes: boxes around the state
        S = Sys(H, nx, None, (2 * nx, 2 * nx), slacked(H, x))
        E = torch.eye(nx, dtype=F)
        for i in range(2):
            S.sys.P[i] = torch.cat((E, -E))
            S.sys.q[i] = torch.stack([
                torch.tensor(abs(v) + B, dtype=F)
                for v in H.mv(S.sys.P[i], x)])
    H.solver(lambda m: dict(zip(m.getVars(), x)), ["OPTIMAL", "INFEASIBLE"])
    k = H.choice("mode", [0, 1])
    H.cover()
    lo, up = getattr(S.sys, AUTO)(k)
    v = H.mv(S.sys.A[k], x)
    for j in range(nx):
        H.le(f"lower[{j}]", lo[j], v[j], tol=1e-6)
        H.le(f"upper[{j}]", v[j], up[j], tol=1e-6)


@case("C10", ["utils.is_polyhedron_bounded"], params=[(1, 2), (2, 2), (2, 3)],
      scope="the listed sizes")
def unbounded_directions(H, d, rows):
    """A polyhedron with a recession direction is not bounded."""
    i = H.choice("i", list(range(d)))
    sgn = H.choice("sign", [1., -1.])
    r = [sgn if k == i else H.real(f"r{k}") for k in range(d)]
    P = H.tensor("P", rows, d)
    if H.sym:
        for v in H.mv(P, r):
            H.assume(v <= 0)
    else:
        P = P * torch.where(P @ torch.tensor(r, dtype=F) > 0, -1.,
                            1.).reshape((-1, 1))

    def witness(m):
        e = m.getConstrs()[-1]
        (v, k), = e.coef.c.items()
        if v.index == i and H.holds(H.scalar(e.RHS) / H.scalar(k) == sgn):
            return dict(zip(m.getVars(), r))
        return None

    H.solver(witness, ["OPTIMAL", "INFEASIBLE"])
    H.cover()
    H.true("not bounded", utils.is_polyhedron_bounded(P) is False)


@case("C10", ["utils.is_polyhedron_bounded"], params=[(1, 2), (2, 3)],
      scope="the listed sizes")
def bounded_polyhedra(H, d, rows):
    """When it is reported unbounded there is a recession direction."""
    P = H.tensor("P", rows, d)
    pts = []
    H.solver(None, ["OPTIMAL", "INFEASIBLE"], solution=True,
             on_solve=lambda m: pts.append(
                 m._sols[0][1] if m._sols else None))
    H.cover()
    if not H.sym:
        # a box is bounded
        E = torch.eye(d, dtype=F)
        H.true("box", utils.is_polyhedron_bounded(
            torch.cat((E, -E, P))) is True)
        return
    if not utils.is_polyhedron_bounded(P):
        r = pts[-1]
        H.true("a direction", r is not None)
        for v in H.mv(P, r):
            H.le("recedes", v, 0.)
        H.true("not zero", H.or_(*[H.not_(v == 0) for v in r]))
    else:
        H.true("every direction excluded", len(pts) == 2 * d and
               all(p is None for p in pts))


@case("C10", ["utils.project_to_polyhedron"], params=[(1, 1), (2, 2)],
      scope="the listed sizes")
def projection(H, d, rows):
    A = H.tensor("A", rows, d)
    y = H.vecl(H.tensor("y", d))
    b = slacked(H, y)(0, A)
    x = H.tensor("x", d)
    H.solver(lambda m: dict(zip(m.getVars(), y)), ["OPTIMAL", "INFEASIBLE"],
             solution=True)
    H.cover()
    z = utils.project_to_polyhedron(A, b, x)
    for v, w in zip(H.mv(A, z), H.vecl(b)):
        H.le("in the polyhedron", v, w, tol=1e-4)
    dz = [p - q for p, q in zip(H.vecl(z), H.vecl(x))]
    dy = [p - q for p, q in zip(y, H.vecl(x))]
    H.le("closest", H.dot(dz, dz), H.dot(dy, dy), tol=1e-4)
