"""Barrier functions and their programs."""
import torch
import gurobipy
from engine.cases import case
from contracts import mip
from contracts.c10_hybrid import patched
from contracts.c11_relu_system import about, kinds_are
from contracts.dyn import IA, LP, MIP, IA_MIP
from contracts.lyap import (Net, Code, Adds, Plant, blocks, free_states,
                            plant_unknowns)
import neural_network_lyapunov.barrier as barrier
import neural_network_lyapunov.relu_to_optimization as rto
import neural_network_lyapunov.gurobi_torch_mip as gtm

F = torch.float64
G = gurobipy.GRB
BASE = "barrier.Barrier."
DISC = "barrier.DiscreteTimeBarrier."


class World:
    """A network, a plant, a safe state and points of the box."""

    def __init__(self, H, nx, npts, ns=2, method=None):
        self.H, self.nx = H, nx
        self.xs = H.tensor("xstar", nx)
        self.pts = [H.tensor(f"x{k}", nx) for k in range(npts)]
        vs = [H.vecl(p) for p in self.pts] + [H.vecl(self.xs)]
        if not H.sym:
            for i, a in enumerate(vs):
                H.assume(all(a != b for b in vs[:i]))
        self.lo, self.up = about(H, "x", vs[:-1])
        self.net = Net(H, "phi", nx, 1)
        self.plant = Plant(H, nx, self.lo, self.up, [
            (self.pts[0], self.pts[1])] if npts == 2 else ())
        with patched(rto, ReLUFreePattern=Code):
            self.dut = barrier.DiscreteTimeBarrier(self.plant, self.net)
        self.code = self.net.pattern
        self.code.at(self.pts, ns=ns)
        self.c = H.real("c", 0.)
        H.assume(self.c > 0)
        self.eps = H.real("epsilon")
        self.method = method or IA
        if method is not None:
            self.dut.network_bound_propagate_method = method

    def h(self, x):
        return self.net.value(x)[0] - self.net.value(self.xs)[0] + self.c

    def run(self, f):
        with Adds() as self.adds:
            return f()


@case("C16", [BASE + "__init__", BASE + "value", DISC + "__init__",
              DISC + "derivative"], params=[1, 2],
      scope="state of 1 or 2, batches of 1 to 3")
def value(H, nx):
    W = World(H, nx, 2)
    x, y = W.pts
    H.cover()
    H.eq("value", W.dut.value(x, W.xs, W.c), W.h(x))
    H.true("shape", tuple(W.dut.value(x, W.xs, W.c).shape) == (1, ))
    H.eq("at the safe state", W.dut.value(W.xs, W.xs, W.c), W.c)
    for n in (1, 2, 3):
        X = torch.stack([x, y, W.xs][:n])
        v = W.dut.value(X, W.xs, W.c)
        v = v.reshape((-1, ))
        H.true(f"batch {n} shape", tuple(v.shape) == (n, ))
        for i in range(n):
            H.eq(f"batch {n}[{i}]", v[i], W.h(X[i]))
    H.eq("derivative", W.dut.derivative(x, W.xs, W.c, W.eps),
         -W.h(y) + W.h(x) - W.eps * W.h(x))
    X = torch.stack([x, y])
    d = W.dut.derivative(X, W.xs, W.c, W.eps)
    Y = W.plant.step_forward(X)
    for i in range(2):
        H.eq(f"derivative batch[{i}]", d[i], -W.h(Y[i]) + W.h(X[i]) -
             W.eps * W.h(X[i]))
    for bad in (0., -0.5):
        H.raises(f"c = {bad}", lambda: W.dut.value(x, W.xs, bad))


@case("C16", [BASE + "value_as_milp"],
      params=[(1, 1, IA, True), (1, 2, LP, False), (2, 2, MIP, True),
              (2, 1, IA_MIP, False), (2, 2, IA, False)],
      scope="state of 1 or 2; encodings of 1 or 2 unknowns, region of one "
      "row of each kind")
def value_program(H, nx, ns, method, safe):
    W = World(H, nx, 1, ns=ns, method=method)
    reg = gtm.MixedIntegerConstraintsReturn()
    M = {k: [H.tensor(f"region.{k}.{a}", 1, n) for a, n in
             (("x", nx), ("s", 1), ("z", 1))] +
         [H.tensor(f"region.{k}.rhs", 1)] for k in ("in", "eq")}
    for k, (a, b, d, e) in M.items():
        for f, t in (("input", a), ("slack", b), ("binary", d)):
            setattr(reg, f"A{k}_{f}", t)
        setattr(reg, f"rhs_{k}", e)
    H.cover()
    prog, x = W.run(lambda: W.dut.value_as_milp(W.xs, W.c, reg, safe))
    H.true("class", isinstance(prog, gtm.GurobiTorchMILP))
    W.code.boxes(W.lo, W.up, method, 1)
    free_states(H, "x", x)
    mine = [r for r in W.adds.list if r[5] is reg]
    H.true("region once", len(mine) == 1 and mine[0][0] is prog and
           mip.ids(mine[0][2]) == mip.ids(x))
    W.adds.list.remove(mine[0])
    s, z = mine[0][3:5]
    kinds_are(H, "region", s, z, "B")
    xv = H.vecl(W.pts[0])
    val = dict(zip(x + s, xv + [H.real("region slack")]))
    val[z[0]] = H.real("region binary", 0., 1.)
    rows, g = blocks(H, "program", W.adds, prog, W.net, None, {
        "x": (x, 0, ("net", ))}, val, "B")
    H.true("unknowns", len(val) == len(prog.gurobi_model.getVars()))
    for k, sense in (("in", "<"), ("eq", "=")):
        a, b, d, e = M[k]
        rows.append((sense, H.mv(a, xv)[0] + H.el(b, 0, 0) * val[s[0]] +
                     H.el(d, 0, 0) * val[z[0]] - H.el1(e, 0)))
    mip.same_rows(H, "rows", mip.model_rows(H, prog, val, False), rows)
    mip.same_rows(H, "record", mip.recorded_rows(H, prog, val), rows)
    h = W.h(W.pts[0])
    H.eq("objective", mip.objective_at(H, prog, val), -h if safe else h)
    H.true("sense", prog.gurobi_model.ModelSense == G.MAXIMIZE and
           prog.sense == G.MAXIMIZE)


@case("C16", [DISC + "derivative_as_milp",
              "dynamic_system._add_system_constraint"],
      params=[(n, ns, m, bt) for n, ns, m in (
          (1, 1, IA), (2, 2, LP), (2, 1, MIP), (1, 2, IA_MIP))
          for bt in "BR"],
      scope="state of 1 or 2; encodings of 1 or 2 unknowns")
def derivative_program(H, nx, ns, method, btype):
    W = World(H, nx, 2, ns=ns, method=method)
    H.cover()
    bt = G.BINARY if btype == "B" else gtm.BINARYRELAX
    r = W.run(lambda: W.dut.derivative_as_milp(
        W.xs, W.c, W.eps, **mip.kind_argument(btype)))
    prog = r.milp
    H.true("class", isinstance(prog, gtm.GurobiTorchMILP))
    W.code.boxes(W.lo, W.up, method, (1, 2))
    free_states(H, "states", r.x, r.x_next)
    c, = W.plant.calls
    H.true("plant asked", c[0] is prog and mip.ids(c[1], c[2]) == mip.ids(
        r.x, r.x_next) and c[-1] == bt and c[-2] is
        r.system_constraint_return)
    x, y = W.pts
    val = dict(zip(r.x + r.x_next, H.vecl(x) + H.vecl(y)))
    plant_unknowns(H, c, val)
    rows, g = blocks(H, "program", W.adds, prog, W.net, None, {
        "x": (r.x, 0, ("net", )), "x_next": (r.x_next, 1, ("net", ))},
        val, btype)
    H.true("unknowns", len(val) == len(prog.gurobi_model.getVars()) and
           mip.ids(r.binary_current, r.binary_next) ==
           mip.ids(g["x"][1], g["x_next"][1]))
    rows.append(W.plant.gap(0, val))
    mip.same_rows(H, "rows", mip.model_rows(H, prog, val, False), rows)
    if btype == "B":
        mip.same_rows(H, "record", mip.recorded_rows(H, prog, val), rows)
    H.eq("objective", mip.objective_at(H, prog, val),
         -W.h(y) + W.h(x) - W.eps * W.h(x))
    H.true("sense", prog.gurobi_model.ModelSense == G.MAXIMIZE and
           prog.sense == G.MAXIMIZE)
    for a, t in W.code.units.items():
        H.same_tensor("record " + a, getattr(r.barrier_relu_mip_cnstr_ret,
                                             a), t)
