"""Synthesis of piecewise linear Lyapunov functions by linear programming."""
import numpy as np
import gurobipy
from engine.cases import case
from contracts.c10_hybrid import patched
import neural_network_lyapunov.simple_pwl_lyapunov as pwl

S = "simple_pwl_lyapunov.SimplePWLLyapunov."


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), 0.)


class Synth:
    """A synthesizer, the unknowns' values at a point, and the rows it
    documents at that point (expressions that are >= 0, or == 0)."""

    def __init__(self, H, n, modes, eq_mode=0):
        self.H, self.n, self.modes = H, n, modes
        self.e1 = H.real("eps1", 0., 2.)
        self.e2 = H.real("eps2", 0., 2.)
        self.xs = H.nparr("xstar", n)
        self.keep = H.vecl(self.xs)
        self.dut = pwl.SimplePWLLyapunov(n, modes, self.e1, self.e2, self.xs,
                                         eq_mode)
        self.c = [[H.real(f"c{i}{m}") for i in range(n)]
                  for m in range(modes)]
        self.d = [H.real(f"d{m}") for m in range(modes)]
        self.s1, self.s2 = H.real("s1"), H.real("s2")
        self.ge = [("s1", self.s1), ("s2", self.s2)]
        self.eq = [("equilibrium", dot(self.c[eq_mode], self.keep) +
                    self.d[eq_mode])]

    def V(self, m, x):
        return dot(self.c[m], x) + self.d[m]

    def solve(self, weight, status=None):
        """The program handed to the solver."""
        H, got = self.H, []

        def optimize(m, callback=None):
            got.append(m)
            m.status = gurobipy.GRB.Status.OPTIMAL
            m._sols = [(0., [self.value(m)[v] for v in m.getVars()])]

        with patched(gurobipy.Model, optimize=optimize):
            r = self.dut.solve(weight)
        H.true("one program", len(got) == 1)
        return got[0], r

    def value(self, m):
        n, dut = self.n, self.dut
        val = {}
        for w, vs in m._parts:
            if w is dut.c:
                for k, v in enumerate(vs):
                    val[v] = self.c[k % self.modes][k // self.modes]
            elif w is dut.d:
                val.update(zip(vs, self.d))
            elif w is dut.s1:
                val[vs[0]] = self.s1
            elif w is dut.s2:
                val[vs[0]] = self.s2
            else:
                self.H.true("an unknown of the class", False)
        return val

    def compare(self, weight):
        """Same points admitted, same objective, values returned."""
        H = self.H
        m, r = self.solve(weight)
        val = self.value(m)
        ge, eq = [], []
        for co, sense, rhs, _ in m.rows():
            e = sum((k * val[v] for v, k in co.items()), 0.) - rhs
            if sense == "=":
                eq.append(e)
            else:
                ge.append(e if sense == ">" else -e)
        code = H.and_(*[v >= 0. for v in ge],
                      *[H.and_(v >= 0., v <= 0.) for v in eq])
        doc = H.and_(*[v >= 0. for _, v in self.ge],
                     *[H.and_(v >= 0., v <= 0.) for _, v in self.eq])
        for nm, v in self.ge:
            H.check(f"asks {nm}", H.implies(code, v >= 0.))
        for nm, v in self.eq:
            H.check(f"asks {nm}", H.implies(code, H.and_(v >= 0., v <= 0.)))
        H.check("admits every solution", H.implies(doc, code))
        want = (1 - weight) * self.s1 + weight * self.s2
        obj, sense = m._obj, m.ModelSense
        got = sum((k * val[v] for v, k in obj.c.items()), 0.) + obj.const
        H.true("minimises", sense == gurobipy.GRB.MINIMIZE)
        H.eq("objective", got, want)
        c, d, s1, s2 = r
        H.true("shapes", tuple(c.shape) == (self.n, self.modes) and
               tuple(d.shape) == (self.modes, ))
        for k in range(self.modes):
            H.eqv(f"c{k}", c[:, k], self.c[k])
        H.eqv("d", d, self.d)
        H.eq("s1", s1, self.s1)
        H.eq("s2", s2, self.s2)
        H.eqv("x* kept", self.xs, self.keep)

    # ------------------------------------------------ documented rows
    def derivative(self, m, vs, A, g):
        """(6) s1 >= Vdot + eps2 V at every vertex"""
        for j, v in enumerate(vs):
            xdot = [dot(A[i], v) + g[i] for i in range(self.n)]
            self.ge.append((f"(6) mode {m} vertex {j}", self.s1 -
                            dot(self.c[m], xdot) - self.e2 * self.V(m, v)))

    def positive(self, m, vs, sg):
        """(7) s2 >= eps1 |v - x*|_1 - V(v) at every vertex"""
        for j, v in enumerate(vs):
            l1 = sum(s * (a - b) for s, a, b in zip(sg, v, self.keep))
            self.ge.append((f"(7) mode {m} vertex {j}", self.s2 +
                            self.V(m, v) - self.e1 * l1))

    def continuous(self, i, j, vs):
        for k, v in enumerate(vs):
            self.eq.append((f"(8) {i}{j} vertex {k}",
                            self.V(i, v) - self.V(j, v)))


def points(H, name, k, n):
    M = H.nparr(name, k, n)
    return M, [[H.el(M, i, j) for j in range(n)] for i in range(k)]


@case("C26", [S + "__init__", S + "solve"], params=[(1, 1, 0), (2, 2, 1),
                                                   (2, 3, 2)],
      scope="the numbers of dimensions and modes listed")
def plain(H, n, modes, mode):
    W = Synth(H, n, modes, mode)
    H.cover()
    W.compare(H.real("weight", 0.01, 0.99))


@case("C26", [S + "add_lyapunov_derivative_in_mode"],
      params=[(1, 2, 2), (2, 2, 3), (2, 1, 4), (1, 1, 1), (3, 1, 2)],
      scope="the dimensions and numbers of vertices listed")
def derivative(H, n, modes, k):
    W = Synth(H, n, modes)
    m = modes - 1
    P, vs = points(H, "vertex", k, n)
    A, g = H.nparr("A", n, n), H.nparr("g", n)
    H.cover()
    W.dut.add_lyapunov_derivative_in_mode(m, P, A, g)
    W.derivative(m, vs, [[H.el(A, i, j) for j in range(n)]
                         for i in range(n)], H.vecl(g))
    W.compare(H.real("weight", 0.01, 0.99))


@case("C26", [S + "add_lyapunov_positivity_in_mode"],
      params=[(1, 2, 2, (1, )), (2, 1, 3, (1, -1)), (2, 2, 1, (-1, -1)),
              (2, 1, 2, (-1, 1))],
      scope="the dimensions, boxes and numbers of vertices listed")
def positive(H, n, modes, k, sign):
    W = Synth(H, n, modes)
    m = modes - 1
    off = H.nparr("offset", k, n, lo=0.)
    vs = [[W.keep[j] + sign[j] * H.el(off, i, j) for j in range(n)]
          for i in range(k)]
    P = np.array(vs)
    H.cover()
    W.dut.add_lyapunov_positivity_in_mode(m, P, np.array(sign))
    W.positive(m, vs, sign)
    for v in vs:
        for a, b, s in zip(v, W.keep, sign):
            H.eq("sign gives the norm", H.absv(a - b), s * (a - b))
    W.compare(H.real("weight", 0.01, 0.99))


@case("C26", [S + "add_lyapunov_positivity_in_mode"], params=[1, -1, 0])
def other_box(H, sign):
    """Vertices outside of the box (or no box) are refused."""
    W = Synth(H, 1, 1)
    P = np.array([[W.keep[0] - sign * H.real("out", 1e-3)]])
    H.cover()
    H.raises("refused", lambda: W.dut.add_lyapunov_positivity_in_mode(
        0, P, np.array([sign])))


@case("C26", [S + "add_continuity_constraint"],
      params=[(1, 1), (2, 2), (2, 1), (2, 3), (3, 4), (1, 2)],
      scope="the dimensions and numbers of common vertices listed")
def continuity(H, n, k):
    W = Synth(H, n, 2)
    P, vs = points(H, "vertex", k, n)
    H.cover()
    W.dut.add_continuity_constraint(1, 0, P)
    W.continuous(1, 0, vs)
    W.compare(H.real("weight", 0.01, 0.99))


@case("C26", [S + "add_continuity_constraint", S + "solve",
              S + "add_lyapunov_derivative_in_mode",
              S + "add_lyapunov_positivity_in_mode"], params=[2.],
      scope="two modes on the line; the dynamics affine in each")
def certificate(H, size):
    """A program of value zero is a Lyapunov function on the whole domain."""
    W = Synth(H, 1, 2)
    W.keep = [0.]
    W.dut = pwl.SimplePWLLyapunov(1, 2, W.e1, W.e2, np.array([0.]), 0)
    a, b = H.real("a", 0.1, size), H.real("b", 0.1, size)
    right, left = np.array([[0.], [a]]), np.array([[0.], [-b]])
    A, g = [H.nparr(f"A{i}", 1, 1) for i in range(2)], \
        [H.nparr(f"g{i}", 1) for i in range(2)]
    H.cover()
    for m, (P, s) in enumerate(((right, 1), (left, -1))):
        W.dut.add_lyapunov_derivative_in_mode(m, P, A[m], g[m])
        W.dut.add_lyapunov_positivity_in_mode(m, P, np.array([s]))
    W.dut.add_continuity_constraint(0, 1, np.array([[0.]]))
    m, _ = W.solve(0.5)
    val = W.value(m)
    for co, sense, rhs, _ in m.rows():
        e = sum((k * val[v] for v, k in co.items()), 0.) - rhs
        if not H.sym and sense == "=":
            H.assume(abs(e) < 1e-9)
        else:
            H.assume(e >= 0. if sense == ">" else e <= 0.
                     if sense == "<" else e == 0.)
    t = H.real("t", 0., 1.)
    for mode, end in ((0, a), (1, -b)):
        x = t * end
        V = W.c[mode][0] * x + W.d[mode]
        rate = W.c[mode][0] * (H.el(A[mode], 0, 0) * x +
                               H.vecl(g[mode])[0]) + W.e2 * V
        # the rows at both ends, weighted
        H.le(f"positive {mode}", W.e1 * H.absv(x) - W.s2, V, tol=1e-6)
        H.le(f"decreasing {mode}", rate, W.s1, tol=1e-6)
