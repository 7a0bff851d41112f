"""The trainer: what it asks of the solver, and when it reports success."""
import types
import torch
import gurobipy
from engine.stubs import stub
from engine.cases import case
import neural_network_lyapunov.train_lyapunov_barrier as train
import neural_network_lyapunov.lyapunov as lyapunov
import neural_network_lyapunov.hybrid_linear_system as hls
import neural_network_lyapunov.feedback_system as feedback_system
import neural_network_lyapunov.r_options as r_options

F = torch.float64
G = gurobipy.GRB
TR = "train_lyapunov_barrier.Trainer."


class Solved:
    """A program after the solver ran, by the contract of the solver: a pool
    of solutions in descending order of their objective; the best is the
    maximum if the status says so, and otherwise the maximum is between the
    best solution and the solver's bound."""

    def __init__(self, H, name, nx, count, status="optimal", gammas=None):
        self.H, self.nx, self.count, self.kind = H, nx, count, status
        self.states = [H.tensor(f"{name}.solution{k}", nx)
                       for k in range(count)]
        self.obj = [H.real(f"{name}.objective{k}") for k in range(count)]
        for a, b in zip(self.obj, self.obj[1:]):
            H.assume(b <= a)
        self.best = self.obj[0] if status == "optimal" else \
            self.obj[0] + H.real(f"{name}.unexplored", 0.)
        self.bound = self.best if status == "optimal" else \
            self.best + H.real(f"{name}.loose", 0.)
        self.gammas = gammas
        self.params, self.events = {}, []
        self.gurobi_model = self
        self.x = [Value(self, lambda k, j=j: H.el1(self.states[k], j))
                  for j in range(nx)]
        self.gamma = None if gammas is None else [
            Value(self, lambda k, m=m: 1. if gammas[k] == m else 0.)
            for m in range(1 + max(gammas))]
        self.milp = self
        self.mip_objective = H.real(f"{name}.differentiable")

    # the solver's interface
    def setParam(self, p, v):
        self.params[p] = v
        self.events.append(("param", p))

    def optimize(self, callback=None):
        self.events.append(("optimize", dict(self.params), callback))

    def solved(self):
        return any(e[0] == "optimize" for e in self.events)

    def only_solved(self, v):
        self.H.true("read after solving", self.solved())
        return v

    status = property(lambda s: s.only_solved(
        G.Status.OPTIMAL if s.kind == "optimal" else
        G.Status.INTERRUPTED if s.kind == "interrupted" else
        G.Status.TIME_LIMIT))
    Status = status
    ObjVal = property(lambda s: s.only_solved(s.obj[0]))
    objVal = ObjVal
    ObjBound = property(lambda s: s.only_solved(s.bound))
    objBound = ObjBound
    solCount = property(lambda s: s.only_solved(s.count))
    SolCount = solCount
    PoolObjVal = property(lambda s: s.only_solved(s.obj[s.number()]))

    def number(self):
        return int(self.params.get(G.Param.SolutionNumber, 0))

    def compute_objective_from_mip_data_and_solution(
            self, solution_number=0, active_constraint_tolerance=1e-6,
            penalty=0.):
        self.H.true("differentiable objective", self.solved() and
                    solution_number == 0)
        return torch.tensor(self.mip_objective, dtype=F)


class Value:

    def __init__(self, model, at):
        self.model, self.at = model, at

    x = property(lambda s: s.model.only_solved(s.at(0)))
    X = x
    xn = property(lambda s: s.model.only_solved(s.at(s.model.number())))
    Xn = xn


class AnySystem:
    """The interface of a discrete-time system."""

    def __init__(self, H, nx):
        self.H, self.x_dim, self.dtype = H, nx, F

    def next(self, x, mode=None):
        v = self.H.vecl(x)
        n = "f" if mode is None else f"f{int(mode)}"
        return torch.stack([torch.as_tensor(
            self.H.uninterp(f"{n}{i}", *v), dtype=F)
            for i in range(self.x_dim)])

    def step_forward(self, x, mode=None):
        assert x.dtype == F
        if len(x.shape) == 1:
            return self.next(x, mode)
        if x.shape[0] == 0:
            raise RuntimeError("no sample")
        return torch.stack([self.next(x[i], mode)
                            for i in range(x.shape[0])])


class HybridAny(AnySystem, hls.AutonomousHybridLinearSystem):
    pass


class FeedbackAny(AnySystem, feedback_system.FeedbackSystem):
    pass


class AnyR(r_options.SearchRfreeOptions):

    def __init__(self, H, nx):
        super().__init__((nx, nx))
        self.set_variable_value(H.nparr("R", nx, nx))


def trainer(H, nx, system=AnySystem):
    """A trainer with its documented options; the Lyapunov system only has a
    system."""
    t = train.Trainer()
    t.lyapunov_hybrid_system = types.SimpleNamespace(system=system(H, nx))
    t.x_equilibrium = H.tensor("xeq", nx)
    t.V_lambda = H.real("lambda")
    t.R_options = AnyR(H, nx)
    t.lyapunov_positivity_epsilon = H.real("eps positivity")
    t.lyapunov_derivative_epsilon = H.real("eps derivative")
    t.lyapunov_derivative_eps_type = lyapunov.ConvergenceEps.ExpUpper
    return t


def same_rows_of(H, name, M, want):
    H.true(f"{name} count", len(M.shape) == 2 and M.shape[0] == len(want))
    for i, w in enumerate(want):
        H.eqv(f"{name}[{i}]", M[i], w)


def searched(H, name, m, pool, only, mode=True):
    """Solved once, after asking for the pool; the solutions read."""
    o = [e for e in m.events if e[0] == "optimize"]
    H.true(f"{name} solved once", len(o) == 1)
    asked = o[0][1]
    if pool > 1:
        H.true(f"{name} pool", asked.get(G.Param.PoolSolutions) == pool)
        if mode:
            H.true(f"{name} pool search",
                   asked.get(G.Param.PoolSearchMode) == 2)
    return [k for k in range(min(pool, m.count))
            if not only or H.holds(m.obj[k] > 0)]


def reported(H, name, m, obj):
    """The value compared with the tolerances bounds the maximum."""
    H.le(f"{name} objective is a bound", m.best, obj)
    if m.kind == "optimal":
        H.eq(f"{name} objective", obj, m.obj[0])


POOLS = [(1, 1, False, "optimal"), (1, 2, True, "optimal"),
         (3, 2, True, "optimal"), (2, 3, False, "optimal"),
         (2, 2, True, "interrupted"), (1, 1, True, "time"),
         (3, 1, False, "time"), (3, 3, False, "optimal")]


@case("C20", [TR + "__init__", TR + "solve_positivity_mip"],
      params=[p + (w, ) for p in POOLS for w in (False, True)],
      scope="states of 2 or 3; up to 3 solutions")
def positivity_mip(H, pool, count, only, status, warm):
    t = trainer(H, 3)
    m = Solved(H, "program", 3, count, status)
    calls = []

    def program(x_equilibrium, V_lambda, V_epsilon, *, R=None,
                x_warmstart=None):
        calls.append((x_equilibrium, V_lambda, V_epsilon, R, x_warmstart))
        return m, m.x

    t.lyapunov_hybrid_system.lyapunov_positivity_as_milp = program
    t.lyapunov_positivity_mip_pool_solutions = pool
    t.add_adversarial_state_only = only
    t.lyapunov_positivity_mip_warmstart = warm
    last = H.tensor("last", 3) if warm else None
    t.lyapunov_positivity_last_x_adv = last
    if status == "interrupted":
        t.lyapunov_positivity_mip_term_threshold = H.real("threshold")
    H.cover()
    r = t.solve_positivity_mip()
    c, = calls
    H.true("asked", c[0] is t.x_equilibrium and c[4] is last)
    H.eq("lambda", c[1], t.V_lambda)
    H.eq("epsilon", c[2], t.lyapunov_positivity_epsilon)
    H.eqv("R", c[3].reshape((-1, )), t.R_options.R().reshape((-1, )))
    H.true("program", r[0] is m)
    cb = [e[2] for e in m.events if e[0] == "optimize"]
    H.true("callback", (cb[0] is not None) == (status == "interrupted"))
    ks = searched(H, "program", m, pool, only)
    same_rows_of(H, "states", r[2], [m.states[k] for k in ks])
    reported(H, "program", m, r[1])
    if warm:
        H.eqv("warm start", t.lyapunov_positivity_last_x_adv, m.states[0])
    else:
        H.true("no warm start", t.lyapunov_positivity_last_x_adv is None)


@case("C20", [TR + "solve_lyap_derivative_mip"],
      params=[p + (w, s, h) for p in POOLS for w, s, h in (
          (False, 0, "any"), (True, 2, "any"), (False, 0, "hybrid"))],
      scope="states of 2 or 3; up to 3 solutions, 3 modes")
def derivative_mip(H, pool, count, only, status, warm, strengthen, kind):
    hybrid = kind == "hybrid"
    t = trainer(H, 3, HybridAny if hybrid else AnySystem)
    m = Solved(H, "program", 3, count, status,
               [2, 0, 1][:count] if hybrid else None)
    calls, extra = [], []

    def program(x_equilibrium, V_lambda, epsilon, eps_type, *a, R=None,
                x_warmstart=None, **k):
        calls.append((x_equilibrium, V_lambda, epsilon, eps_type, R,
                      x_warmstart, a, k))
        return m

    L = t.lyapunov_hybrid_system
    if strengthen:
        L.strengthen_lyapunov_derivative_as_milp = program
        L.strengthen_lyapunov_derivative_milp_binary = \
            lambda p, gurobi_options=None: extra.append(p)
        t.derivative_mip_num_strengthen_pts = strengthen
        t.derivative_mip_strengthen_binary = True
    else:
        L.lyapunov_derivative_as_milp = program
    t.lyapunov_derivative_mip_pool_solutions = pool
    t.add_adversarial_state_only = only
    t.lyapunov_derivative_mip_warmstart = warm
    last = H.tensor("last", 3) if warm else None
    t.lyapunov_derivative_last_x_adv = last
    t.lyapunov_derivative_mip_params = {
        G.Param.OutputFlag: False, "TimeLimit": 7,
        "MIPFocus": 3}
    if status == "interrupted":
        t.lyapunov_derivative_mip_term_threshold = H.real("threshold")
    H.cover()
    r = t.solve_lyap_derivative_mip()
    c, = calls
    H.true("asked", c[0] is t.x_equilibrium and c[5] is last and
           c[3] is t.lyapunov_derivative_eps_type and
           c[6] == ((strengthen, ) if strengthen else ()) and not c[7])
    H.eq("lambda", c[1], t.V_lambda)
    H.eq("epsilon", c[2], t.lyapunov_derivative_epsilon)
    H.eqv("R", c[4].reshape((-1, )), t.R_options.R().reshape((-1, )))
    H.true("program", r[0] is m and
           extra == ([m] if strengthen else []))
    o, = [e for e in m.events if e[0] == "optimize"]
    H.true("callback", (o[2] is not None) == (status == "interrupted"))
    H.true("parameters", o[1].get("TimeLimit") == 7 and
           o[1].get("MIPFocus") == 3 and
           o[1].get(G.Param.OutputFlag) is False)
    ks = searched(H, "program", m, pool, only, False)
    same_rows_of(H, "states", r[2], [m.states[k] for k in ks])
    same_rows_of(H, "next states", r[3], [t.lyapunov_hybrid_system.system.next(
        m.states[k], m.gammas[k] if hybrid else None) for k in ks])
    reported(H, "program", m, r[1])
    if warm:
        H.eqv("warm start", t.lyapunov_derivative_last_x_adv, m.states[0])
    else:
        H.true("no warm start", t.lyapunov_derivative_last_x_adv is None)


def barrier_trainer(H, nx):
    t = train.Trainer()
    t.barrier_system = types.SimpleNamespace(system=AnySystem(H, nx))
    t.barrier_x_star = H.tensor("xstar", nx)
    t.barrier_c, t.barrier_epsilon = H.real("c"), H.real("epsilon")
    return t


@case("C20", [TR + "solve_barrier_value_mip"],
      params=[(1, 1, 2), (2, 3, 1), (3, 2, 2), (1, 2, 0),
              (3, 3, 3)],
      scope="state of 3; up to 3 regions and 3 solutions")
def barrier_value_mip(H, pool, count, regions):
    t = barrier_trainer(H, 3)
    t.barrier_value_mip_pool_solutions = pool
    R = {f: [object() for _ in range(regions)] for f in (True, False)}
    t.safe_regions, t.unsafe_regions = R[True], R[False]
    H.cover()
    for safe in (True, False):
        ms, calls = [], []

        def program(x_star, c, region, safe_flag):
            calls.append((x_star, c, region, safe_flag))
            ms.append(Solved(H, f"{safe}{len(ms)}", 3, count))
            return ms[-1], ms[-1].x

        t.barrier_system.value_as_milp = program
        mip, obj, adv = t.solve_barrier_value_mip(safe)
        n = f"{'safe' if safe else 'unsafe'} "
        H.true(n + "regions", [c[2] for c in calls] == R[safe] and
               all(c[0] is t.barrier_x_star and c[3] is safe
                   for c in calls))
        H.true(n + "programs", list(mip) == ms and len(obj) == len(adv) ==
               regions)
        for i, m in enumerate(ms):
            H.eq(f"{n}{i} c", calls[i][1], t.barrier_c)
            ks = searched(H, f"{n}{i}", m, pool, False)
            same_rows_of(H, f"{n}{i} states", adv[i],
                         [m.states[k] for k in ks])
            reported(H, f"{n}{i}", m, obj[i])


@case("C20", [TR + "solve_barrier_derivative_mip"],
      params=POOLS, scope="states of 2 or 3; up to 3 solutions")
def barrier_derivative_mip(H, pool, count, only, status):
    t = barrier_trainer(H, 3)
    t.barrier_derivative_mip_pool_solutions = pool
    t.barrier_derivative_mip_params = {
        G.Param.OutputFlag: False, "TimeLimit": 7,
        "MIPFocus": 3}
    t.add_adversarial_state_only = only
    m = Solved(H, "program", 3, count, status)
    calls = []

    def program(x_star, c, epsilon, **k):
        calls.append((x_star, c, epsilon))
        H.true("default kinds", not k)
        return m

    t.barrier_system.derivative_as_milp = program
    H.cover()
    r = t.solve_barrier_derivative_mip()
    c, = calls
    H.true("asked", c[0] is t.barrier_x_star and r[0] is m)
    H.eq("c", c[1], t.barrier_c)
    H.eq("epsilon", c[2], t.barrier_epsilon)
    o, = [e for e in m.events if e[0] == "optimize"]
    H.true("parameters", o[1].get("TimeLimit") == 7 and
           o[1].get("MIPFocus") == 3 and
           o[1].get(G.Param.OutputFlag) is False)
    ks = searched(H, "program", m, pool, only)
    same_rows_of(H, "states", r[2], [m.states[k] for k in ks])
    H.true("shape", tuple(r[2].shape) == (len(ks), 3))
    reported(H, "program", m, r[1])


# ------------------------------------------------------------ sample pools
def rows_of(M):
    return [M[i] for i in range(M.shape[0])]


CLUSTER = [0, 1, 2, 3, 4]


@case("C20", ["train_lyapunov_barrier._cluster_adversarial_states"],
      params=CLUSTER, thorough=[5], scope="up to 4 states of size 2 (5 in the thorough "
      "tier)")
def clusters(H, n):
    X = H.tensor("states", n, 2)
    r = H.real("radius", 0.)
    H.cover()
    out, rep = train._cluster_adversarial_states(X, r)
    if n == 0:
        H.true("empty", tuple(out.shape) == (0, 2) and
               tuple(rep.shape) == (0, ))
        return
    # the first state of each run of states closer than the radius
    first, size = [0], [1]
    for i in range(1, n):
        d = [H.el(X, i, j) - H.el(X, i - 1, j) for j in range(2)]
        if H.holds(H.dot(d, d) > r * r):
            first.append(i)
            size.append(1)
        else:
            size[-1] += 1
    same_rows_of(H, "representatives", out, [X[i] for i in first])
    H.eqv("repetitions", rep, [float(k) for k in size])


class Losses:
    """The loss of samples, by contract a number for each state of the
    parameters and each list of samples."""

    def __init__(self, H):
        self.H, self.calls = H, []
        self.w = []

    def __call__(self, *a):
        k = len(self.calls)
        self.calls.append(a)
        self.w.append([self.H.real(f"sample loss {k}.{i}", 0.)
                       for i in range(2)])
        return [torch.tensor(x, dtype=F) for x in self.w[-1]]


@case("C20", [TR + "total_loss"],
      params=[(p, d, wp, wd, gap, pool) for p, d, wp, wd, gap, pool in (
          (True, True, 1, 1, 1, 500), (True, False, 1, 0, 0, 2),
          (False, True, 0, 1, 0, 3), (False, False, 1, None, 0, 1),
          (True, True, None, None, 1, 2), (True, True, None, 1, 0, 2))],
      scope="pools of 2 or 3 states, 2 and 1 adversarial states")
def total(H, addp, addd, wp, wd, gap, pool):
    nx = 2
    t = trainer(H, nx)
    t.add_positivity_adversarial_state = addp
    t.add_derivative_adversarial_state = addd
    t.max_sample_pool_size = pool
    P, D, DN = (H.tensor("P", 2, nx), H.tensor("D", 3, nx),
                H.tensor("Dnext", 3, nx))
    ap, ad, an = (H.tensor("Padv", 2, nx), H.tensor("Dadv", 1, nx),
                  H.tensor("Dadvnext", 1, nx))
    mp, md = (Solved(H, n, nx, 1) for n in ("positivity", "derivative"))
    mp.optimize(), md.optimize()
    asked = []
    t.solve_positivity_mip = lambda: asked.append("p") or (
        mp, mp.obj[0], ap)
    t.solve_lyap_derivative_mip = lambda: asked.append("d") or (
        md, md.obj[0], ad, an)
    gv = H.tensor("gap")
    g = [H.real(n) for n in ("gap.min", "gap.max")]
    t.solve_boundary_gap_mip = lambda: asked.append("g") or (
        gv, g[0], g[1], ap[0], ap[1])
    loss = Losses(H)
    stub(t, lyapunov_sample_loss=loss)
    w = [H.real(n) for n in ("weight P", "weight D", "weight gap",
                             "mip weight P", "mip weight D")]
    wP = None if wp is None else w[3] if wp else 0.
    wD = None if wd is None else w[4] if wd else 0.
    H.cover()
    r = t.total_loss(P, D, DN, w[0], w[1], wP, wD, w[2] if gap else 0.)
    L = r.lyap_loss
    need = "p" * (wp is not None) + "d" * (wd is not None)
    if gap and "g" in asked:
        asked.remove("g")
        H.true("gap", H.sym or w[2] != 0)
        gl = w[2] * H.scalar(gv)
    else:
        if gap:
            H.eq("no gap", w[2], 0.)
        gl = 0.
    H.true("solved", sorted(asked) == sorted(need))
    if wp is not None:
        H.eq("positivity objective", L.positivity_mip_obj, mp.obj[0])
    else:
        H.true("no positivity objective", L.positivity_mip_obj is None)
    if wd is not None:
        H.eq("derivative objective", L.derivative_mip_obj, md.obj[0])
    else:
        H.true("no derivative objective", L.derivative_mip_obj is None)
    pos, der, nxt = rows_of(P), rows_of(D), rows_of(DN)
    if addp and wp is not None:
        pos += rows_of(ap)
    if addd and wd is not None:
        der, nxt = der + rows_of(ad), nxt + rows_of(an)
    for n, M, want in (("positivity", L.positivity_state_samples, pos),
                       ("derivative", L.derivative_state_samples, der),
                       ("next", L.derivative_state_samples_next, nxt)):
        same_rows_of(H, n + " samples", M, want)
    c, = loss.calls
    for n, M, want in zip(("positivity", "derivative", "next"), c,
                          (pos, der, nxt)):
        same_rows_of(H, n + " pool", M, want[-pool:])
    H.eq("positivity weight", c[3], w[0])
    H.eq("derivative weight", c[4], w[1])
    mpl = w[3] * mp.mip_objective if wp else 0.
    mdl = w[4] * md.mip_objective if wd else 0.
    for n, v, e in (("positivity sample", L.positivity_sample_loss,
                     loss.w[0][0]),
                    ("derivative sample", L.derivative_sample_loss,
                     loss.w[0][1]),
                    ("positivity MIP", L.positivity_mip_loss, mpl),
                    ("derivative MIP", L.derivative_mip_loss, mdl),
                    ("gap", L.gap_mip_loss, gl),
                    ("total", r.loss, sum(loss.w[0], mpl + mdl + gl))):
        H.eq(n + " loss", v, e)


@case("C20", [TR + "compute_barrier_loss"],
      params=[(1, 1, 1, 2, 500), (1, 0, None, 1, 2), (None, 1, 0, 2, 1),
              (0, None, 1, 0, 3), (None, None, None, 1, 2),
              (1, 1, 1, 3, 500)],
      scope="pools of 1 to 3 states, up to 3 regions")
def barrier_loss(H, ws, wu, wd, regions, pool):
    nx = 1
    t = barrier_trainer(H, nx)
    t.max_sample_pool_size = pool
    S, U, D = (H.tensor("S", 2, nx), H.tensor("U", 1, nx),
               H.tensor("D", 3, nx))
    ms = {n: [Solved(H, f"{n}{i}", nx, 1) for i in range(regions)]
          for n in ("safe", "unsafe")}
    md = Solved(H, "derivative", nx, 1)
    md.optimize()
    adv = {n: [H.tensor(f"{n} adversarial {i}", 1 + i, nx)
               for i in range(regions)] for n in ms}
    ad = H.tensor("D adversarial", 2, nx)
    for l in ms.values():
        for m in l:
            m.optimize()
    asked = []

    def value(safe_flag):
        n = "safe" if safe_flag else "unsafe"
        asked.append(n)
        return ms[n], [m.obj[0] for m in ms[n]], adv[n]

    stub(t, solve_barrier_value_mip=value)
    t.solve_barrier_derivative_mip = lambda: asked.append(
        "derivative") or (md, md.obj[0], ad)
    seen = []
    stub(t, barrier_sample_loss=lambda *a: seen.append(a) or (
        "s", "u", "d"))
    w = [H.real(n + " weight") for n in ("safe", "unsafe", "derivative")]
    mw = [None if k is None else H.real(n + " mip weight") if k else 0.
          for n, k in zip(("safe", "unsafe", "derivative"), (ws, wu, wd))]
    for k, e in zip((ws, wu, wd), mw):
        if k:
            H.assume(e != 0)
    H.cover()
    r = t.compute_barrier_loss(S, U, D, *w, *mw)
    H.true("solved", sorted(asked) == sorted(
        n for n, k in zip(("safe", "unsafe", "derivative"), mw)
        if k is not None))
    want = {"safe": rows_of(S), "unsafe": rows_of(U),
            "derivative": rows_of(D)}
    for n, k in zip(("safe", "unsafe"), mw):
        obj, loss = getattr(r, n + "_mip_obj"), getattr(r, n + "_mip_loss")
        if k is None:
            H.true(f"{n} skipped", obj is None and loss is None)
            continue
        H.eqv(f"{n} objectives", obj, [m.obj[0] for m in ms[n]])
        if H.sym and (ws if n == "safe" else wu) or not H.sym and k != 0:
            H.eqv(f"{n} losses", loss, [k * m.mip_objective for m in ms[n]])
        for a in adv[n]:
            want[n] += rows_of(a)
    if mw[2] is None:
        H.true("derivative skipped", r.derivative_mip_obj is None and
               r.derivative_mip_loss is None)
    else:
        H.eq("derivative objective", r.derivative_mip_obj, md.obj[0])
        if wd:
            H.eq("derivative loss", r.derivative_mip_loss,
                 mw[2] * md.mip_objective)
        want["derivative"] += rows_of(ad)
    c, = seen
    for i, (n, l) in enumerate(want.items()):
        same_rows_of(H, n + " samples", getattr(r, n + "_state_samples"), l)
        same_rows_of(H, n + " pool", c[i], l[-pool:])
        H.eq(n + " weight", c[3 + i], w[i])
    H.true("sample losses", (r.safe_sample_loss, r.unsafe_sample_loss,
                             r.derivative_sample_loss) == ("s", "u", "d"))
