"""The region of attraction."""
import math
import types
import torch
import gurobipy
from engine.cases import case
from contracts import mip
from contracts.c14_lyapunov import World, BASE, DISC
from contracts.c10_hybrid import patched
from contracts.lyap import (Adds, abs_by_contract, blocks, free_states,
                            plant_unknowns)
import neural_network_lyapunov.train_lyapunov_barrier as training
import neural_network_lyapunov.gurobi_torch_mip as gtm

F = torch.float64
G = gurobipy.GRB


def pick(H, conditions):
    """1 at the first condition that holds, 0 elsewhere."""
    done, out = None, []
    for e in conditions:
        f = e if done is None else H.and_(e, H.not_(done))
        out.append(H.ite(f, 1., 0.))
        done = e if done is None else H.or_(done, e)
    return out


def sides(H, x, lo, up):
    """[x at or above the upper end, ...] + [x at or below the lower end]"""
    x, lo, up = H.vecl(x), H.vecl(lo), H.vecl(up)
    return [a >= b for a, b in zip(x, up)] + [
        a <= b for a, b in zip(x, lo)]


SHAPES = [(1, 0, 1), (1, 2, 2), (2, 0, 2), (2, 3, 1)]


@case("C24", [BASE + f for f in (
    "_construct_milp_for_roa_boundary", "add_lyap_relu_output_constraint",
    "add_state_error_l1_constraint")], params=SHAPES,
      scope="state of 1 or 2, encodings of 1 or 2 unknowns, R of 1 to 3 rows")
def boundary(H, nx, rows, ns):
    W = World(H, nx, 1, rows, ns=ns)
    p, = W.pts
    lo, up = H.vecl(W.lo), H.vecl(W.up)
    for a, b in zip(lo, up):
        H.assume(a < b)
    H.cover()
    prog, x = W.run(lambda: W.dut._construct_milp_for_roa_boundary(
        W.lam, W.Rarg, W.xeq))
    W.code.boxes(W.lo, W.up, W.method, 1)
    val = dict(zip(x, H.vecl(p)))
    rws, g = blocks(H, "program", W.adds, prog, W.net, W.abs, {
        "x": (x, 0, ("net", "abs"))}, val, "B")
    s = mip.rest(H, "program", prog, val, rws)
    H.true("choices", all(k == "B" for k in s.kinds))
    on = sides(H, p, W.lo, W.up)
    if H.holds(H.or_(*on)):
        w = pick(H, on[nx:] + on[:nx])
        H.exists("boundary state", s, w)
    else:
        H.entail("interior state excluded", s, {}, 0., 1., "ge")
    H.eq("objective", mip.objective_at(H, prog, {**mip.ghosts(H, prog), **val}), W.V(p))
    H.true("sense", prog.gurobi_model.ModelSense == G.MINIMIZE)


@case("C24", [BASE + "_construct_milp_for_roa_boundary"], params=[1, 2],
      scope="state of 1 or 2")
def boundary_box(H, nx):
    """No state beyond the box."""
    W = World(H, nx, 1, 0, inside=[], larger=True)
    p, = W.pts
    W.abs.lo, W.abs.up = W.lo, W.up
    for a, b in zip(H.vecl(W.lo), H.vecl(W.up)):
        H.assume(a < b)
    H.assume(H.or_(*[c for a, b, d in zip(*map(H.vecl, (p, W.lo, W.up)))
                     for c in (a < b, a > d)]))
    H.cover()
    prog, x = W.run(lambda: W.dut._construct_milp_for_roa_boundary(
        W.lam, W.Rarg, W.xeq))
    val = dict(zip(x, H.vecl(p)))
    rws, g = blocks(H, "program", W.adds, prog, W.net, W.abs, {
        "x": (x, 0, ("net", "abs"))}, val, "B")
    s = mip.rest(H, "program", prog, val, rws)
    H.entail("excluded", s, {}, 0., 1., "ge")


@case("C24", [DISC + "_construct_milp_for_roa",
              "dynamic_system._add_system_constraint"] + [BASE + f for f in (
                  "add_lyap_relu_output_constraint",
                  "add_state_error_l1_constraint")],
      params=[s + (b, k) for s, k in zip(SHAPES + SHAPES[:2],
                                         "nntttt") for b in (True, False)],
      scope="state of 1 or 2, encodings of 1 or 2 unknowns, R of 1 to 3 rows")
def crossing(H, nx, rows, ns, curr_in_box, kind):
    W = World(H, nx, 2, rows, ns=ns, inside=[0 if curr_in_box else 1],
              larger=not curr_in_box)
    x, y = W.pts
    for a, b in zip(H.vecl(W.lo), H.vecl(W.up)):
        H.assume(a < b)
    big = [t if kind == "t" else t.detach().numpy() for t in (W.Lo, W.Up)]
    H.cover()
    prog, xs, xn, t, zeta = W.run(lambda: W.dut._construct_milp_for_roa(
        W.lam, W.Rarg, W.xeq, big[0], big[1], curr_in_box))
    W.code.boxes(W.elo, W.eup, W.method, 1)
    free_states(H, "states", xs, xn)
    val = dict(zip(xs + xn, H.vecl(x) + H.vecl(y)))
    c, = W.plant.calls
    H.true("plant asked", c[0] is prog and mip.ids(c[1], c[2]) == mip.ids(
        xs, xn) and c[-1] == G.BINARY)
    plant_unknowns(H, c, val)
    rws, g = blocks(H, "program", W.adds, prog, W.net, W.abs, {
        "x": (xs, 0, ("net", "abs"))}, val, "B")
    rws.append(W.plant.gap(0, val))
    s = mip.rest(H, "program", prog, val, rws)
    out = y if curr_in_box else x
    side = sides(H, out, W.lo, W.up)
    if H.holds(H.or_(*side)):
        z = pick(H, side)
        w = [None] * len(s.kinds)
        for k in range(2 * nx):
            w[s.ix[zeta[k]]] = z[k]
            for v, a in zip(t[k], H.vecl(out)):
                w[s.ix[v]] = z[k] * a
        H.exists("crossing allowed", s, w)
    else:
        H.entail("no crossing", s, {}, 0., 1., "ge")
    H.eq("objective", mip.objective_at(H, prog, {**mip.ghosts(H, prog), **val}), W.V(x))
    H.true("sense", prog.gurobi_model.ModelSense == G.MINIMIZE)


@case("C24", [DISC + "_construct_milp_for_roa"], params=[1, 2],
      scope="state of 1 or 2")
def next_in_box(H, nx):
    """The successor has to be in the box when the state is outside."""
    W = World(H, nx, 2, 0, inside=[], larger=True)
    x, y = W.pts
    H.assume(H.or_(*[c for a, b, d in zip(*map(H.vecl, (y, W.lo, W.up)))
                     for c in (a < b, a > d)]))
    H.cover()
    prog, xs, xn, t, zeta = W.run(lambda: W.dut._construct_milp_for_roa(
        W.lam, W.Rarg, W.xeq, W.Lo, W.Up, False))
    val = dict(zip(xs + xn, H.vecl(x) + H.vecl(y)))
    c, = W.plant.calls
    plant_unknowns(H, c, val)
    rws, g = blocks(H, "program", W.adds, prog, W.net, W.abs, {
        "x": (xs, 0, ("net", "abs"))}, val, "B")
    rws.append(W.plant.gap(0, val))
    s = mip.rest(H, "program", prog, val, rws)
    H.entail("excluded", s, {}, 0., 1., "ge")


class Solved:
    """A program solved by the solver, with any outcome."""

    def __init__(self, H, name):
        self.H = H
        self.status = H.choice(name + ".status", [
            G.Status.OPTIMAL, G.Status.INFEASIBLE, G.Status.INF_OR_UNBD])
        self.value = H.real(name + ".objective")
        self.solved = 0

    def setParam(self, *a):
        assert not self.solved

    def optimize(self):
        self.solved += 1

    @property
    def ObjVal(self):
        assert self.solved and self.status == G.Status.OPTIMAL
        return self.value


@case("C24", [DISC + "compute_region_of_attraction"],
      params=["none", "inf", "given"])
def region(H, upper):
    W = World(H, 1, 1, 0)
    runs = [Solved(H, "leaving"), Solved(H, "entering")]
    asked = []
    up = {"none": None, "inf": math.inf, "given": None}[upper]
    if upper == "given":
        up = H.real("V_upper_bound")

    class Prog:
        def __init__(self, m):
            self.gurobi_model = m

    def construct(V_lambda, R, x_equilibrium, x_lo_larger, x_up_larger,
                  x_curr_in_box):
        H.true("arguments", V_lambda is W.lam and R == "R" and
               x_equilibrium is W.xeq and x_lo_larger == "lo" and
               x_up_larger == "up")
        asked.append(x_curr_in_box)
        return Prog(runs[0 if x_curr_in_box else 1]), None, None, None, None

    W.dut._construct_milp_for_roa = construct
    H.cover()
    rho = W.dut.compute_region_of_attraction(W.lam, "R", W.xeq, up, "lo",
                                             "up")
    H.true("both asked", sorted(asked) == [False, True])
    vs = [r.value for r in runs if r.status == G.Status.OPTIMAL] + (
        [up] if upper == "given" else [])
    if vs:
        H.eq("level", rho, H.min(*vs))
    else:
        H.true("unbounded", H.isinf(rho) and rho > 0)


@case("C24", ["train_lyapunov_barrier.Trainer.solve_boundary_gap_mip",
              BASE + "_lyapunov_value_as_milp"],
      params=SHAPES + [(3, 0, 1)],
      scope="state of 1 to 3, encodings of 1 or 2 unknowns, R of 1 to 3 rows")
def boundary_gap(H, nx, rows, ns):
    """The spread of V over the boundary: both programs range over exactly
    the boundary, with objective V."""
    W = World(H, nx, 1, rows, ns=ns)
    p, = W.pts
    for a, b in zip(H.vecl(W.lo), H.vecl(W.up)):
        H.assume(a < b)
    t = training.Trainer()
    t.lyapunov_hybrid_system = W.dut
    t.x_equilibrium, t.V_lambda = W.xeq, W.lam
    t.R_options = types.SimpleNamespace(R=lambda: W.Rarg)
    optimum = [H.real(f"optimum{k}") for k in (0, 1)]
    differentiable = [H.tensor(f"differentiable{k}", 1)[0] for k in (0, 1)]
    at = [H.tensor(f"at{k}", nx) for k in (0, 1)]
    solved, progs = [], []

    class Prog(gtm.GurobiTorchMILP):

        def __init__(self, *a):
            super().__init__(*a)
            progs.append(self)

        def compute_objective_from_mip_data_and_solution(
                self, solution_number=0, active_constraint_tolerance=1e-6,
                penalty=0.):
            H.true("best solution", solution_number == 0 and
                   self is progs[0])
            return differentiable[which(solved[-1][0])]

    def which(sense):
        return 0 if sense == G.MAXIMIZE else 1

    def optimize(m, callback=None):
        prog = progs[0]
        H.true("program solved", m is prog.gurobi_model)
        val = states(prog)
        obj = mip.objective_at(H, prog, {**mip.ghosts(H, prog), **val})
        solved.append((m.ModelSense, obj))
        k = which(m.ModelSense)
        m.status = G.Status.OPTIMAL
        pt = [H.num(0.)] * len(m.getVars())
        for v, a in zip(seen["x"], H.vecl(at[k])):
            pt[v.index] = a
        m._sols = [(optimum[k], pt)]

    seen = {}

    def states(prog):
        # the variables of the state: the input of the encoding of V
        if "x" not in seen:
            seen["x"] = [r[2] for r in W.adds_now.list
                         if r[1] and r[1][0] == "net"][0]
        val = dict(zip(seen["x"], H.vecl(p)))
        if "blocks" not in seen:
            # the rows of the boundary are not an encoding of V
            W.adds_now.list = [r for r in W.adds_now.list if r[1]]
            seen["blocks"] = blocks(H, "program", W.adds_now, prog, W.net,
                                    W.abs, {"x": (seen["x"], 0,
                                                  ("net", "abs"))}, val, "B")
            seen["val"] = dict(val)
        return seen["val"]

    H.cover()
    a, b = abs_by_contract(W.abs)
    W.adds_now = Adds()
    with a, b, W.adds_now, patched(gtm, GurobiTorchMILP=Prog), patched(
            gurobipy.Model, optimize=optimize):
        gap, V_min_milp, V_max_milp, x_min, x_max = t.solve_boundary_gap_mip()
    W.code.boxes(W.lo, W.up, W.method, 1)
    H.true("one maximum and one minimum", sorted(which(s[0]) for s in solved)
           == [0, 1])
    for s, obj in solved:
        H.eq(f"objective {which(s)}", obj, W.V(p))
    H.eq("gap", gap, H.scalar(differentiable[0]) - H.scalar(
        differentiable[1]))
    H.eq("maximum", V_max_milp, optimum[0])
    H.eq("minimum", V_min_milp, optimum[1])
    H.eqv("maximiser", x_max, at[0])
    H.eqv("minimiser", x_min, at[1])
    prog, = progs
    val = seen["val"]
    s = mip.rest(H, "program", prog, val, seen["blocks"][0])
    H.true("choices", all(k == "B" for k in s.kinds))
    on = sides(H, p, W.lo, W.up)
    if H.holds(H.or_(*on)):
        H.exists("boundary state", s, pick(H, on))
    else:
        H.entail("interior state excluded", s, {}, 0., 1., "ge")
