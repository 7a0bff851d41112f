"""Rotations, integration, simulation."""
import numpy as np
import scipy.integrate
import torch
from engine.cases import case
from contracts.c10_hybrid import patched
import neural_network_lyapunov.geometry_transform as gt
import neural_network_lyapunov.integrator as integrator
import neural_network_lyapunov.utils as utils

F = torch.float64


def angles(H, form):
    return H.nparr("rpy", 3) if form == "numpy" else H.tensor("rpy", 3)


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b)))
             for j in range(len(b[0]))] for i in range(len(a))]


def flat(m):
    return [v for r in m for v in r]


def turns(H, rpy):
    """Rotation matrix and its partial derivatives, in closed form."""
    r, p, y = H.vecl(rpy)
    cr, sr, cp, sp = H.cos(r), H.sin(r), H.cos(p), H.sin(p)
    cy, sy = H.cos(y), H.sin(y)
    R = [[cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
         [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
         [-sp, cp * sr, cp * cr]]
    z = H.num(0.)
    dr = [[z, cy * sp * cr + sy * sr, sy * cr - cy * sp * sr],
          [z, sy * sp * cr - cy * sr, -sy * sp * sr - cy * cr],
          [z, cp * cr, -cp * sr]]
    dp = [[-cy * sp, cy * cp * sr, cy * cp * cr],
          [-sy * sp, sy * cp * sr, sy * cp * cr],
          [-cp, -sp * sr, -sp * cr]]
    dy = [[-sy * cp, -sy * sp * sr - cy * cr, cy * sr - sy * sp * cr],
          [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
          [z, z, z]]
    return R, (dr, dp, dy)


@case("C22", ["geometry_transform.rpy2rotmat"],
      params=["numpy", "torch"])
def rotation(H, form):
    a = angles(H, form)
    H.cover()
    R = gt.rpy2rotmat(a)
    H.shape("shape", R, (3, 3))
    H.true("form", isinstance(R, np.ndarray if form == "numpy" else
                              torch.Tensor))
    want, _ = turns(H, a)
    got = H.matl(R)
    H.eqv("R", flat(got), flat(want))
    # a proper rotation
    rt = [list(c) for c in zip(*got)]
    eye = [[1. if i == j else 0. for j in range(3)] for i in range(3)]
    H.eqv("R Rt", flat(mul(got, rt)), flat(eye))
    d = got[0][0] * (got[1][1] * got[2][2] - got[1][2] * got[2][1]) \
        - got[0][1] * (got[1][0] * got[2][2] - got[1][2] * got[2][0]) \
        + got[0][2] * (got[1][0] * got[2][1] - got[1][1] * got[2][0])
    H.eq("det", d, 1.)


@case("C22", ["geometry_transform.rpy2rotmat_gradient"],
      params=["numpy", "torch"])
def rotation_rates(H, form):
    a = angles(H, form)
    H.cover()
    got = gt.rpy2rotmat_gradient(a)
    _, want = turns(H, a)
    H.true("three", len(got) == 3)
    for n, g, w in zip(("roll", "pitch", "yaw"), got, want):
        H.shape(n + " shape", g, (3, 3))
        H.true(n + " form", isinstance(g, np.ndarray if form == "numpy" else
                                       torch.Tensor))
        H.eqv(n, g, flat(w))


@case("C22", ["geometry_transform.rpy2rotmat"], params=["torch"])
def rotation_gradient(H, form):
    """What differentiating the torch form gives."""
    a = torch.tensor([0., 0., 0.], dtype=F)
    a = H.tensor("rpy", 3).clone().detach().requires_grad_(True)
    w = H.tensor("w", 3, 3)
    H.cover()
    _, want = turns(H, a.detach())
    (gt.rpy2rotmat(a) * w).sum().backward()
    ws = H.vecl(w)
    H.eqv("gradient", a.grad,
          [sum(u * v for u, v in zip(ws, flat(d))) for d in want])


# --------------------------------------------------------------- integrator
def state(H, name, kind, n):
    if kind == "number":
        return H.real(name)
    return H.nparr(name, n) if kind == "numpy" else H.tensor(name, n)


def make(kind, vals):
    """A vector of the given kind from scalars."""
    if kind == "number":
        return vals[0]
    if kind == "numpy":
        return np.array(vals)
    return torch.stack([
        v if hasattr(v, "detach") else torch.tensor(v, dtype=F)
        for v in vals])


RK = [("torch", 0, 1, 1), ("torch", 1, 2, 1), ("torch", 2, 2, 1),
      ("torch", 3, 1, 1), ("numpy", 1, 2, 2), ("numpy", 2, 2, 1),
      ("number", 2, 1, 1)]


@case("C22", ["integrator.rk4_constant_control"], params=RK,
      thorough=[("torch", 5, 1, 1), ("numpy", 4, 2, 1)],
      scope="up to 3 steps, 2 states; any vector field, any control law")
def runge_kutta(H, kind, steps, nx, nu):
    x0 = state(H, "x0", kind, nx)
    dt = H.real("dt", 0.001, 0.1)
    calls = []

    def f(j, x, u):
        return H.uninterp(f"f{j}", *x, *u)

    def law(x):
        calls.append(x)
        H.eqv("law at", x, first)
        return make(kind, [H.uninterp(f"pi{j}", *H.vecl(x))
                           for j in range(nu)])

    def dyn(x, u):
        x, u = H.vecl(x), H.vecl(u)
        return make(kind, [f(j, x, u) for j in range(nx)])

    first = H.vecl(x0)
    H.cover()
    x, u = integrator.rk4_constant_control(dyn, law, x0, dt, steps)
    us = [H.uninterp(f"pi{j}", *first) for j in range(nu)]
    H.eqv("control", u, us)
    H.true("held", len(calls) == 1)
    s = first
    for _ in range(steps):
        k1 = [f(j, s, us) for j in range(nx)]
        m = [a + dt * k / 2 for a, k in zip(s, k1)]
        k2 = [f(j, m, us) for j in range(nx)]
        m = [a + dt * k / 2 for a, k in zip(s, k2)]
        k3 = [f(j, m, us) for j in range(nx)]
        m = [a + dt * k for a, k in zip(s, k3)]
        k4 = [f(j, m, us) for j in range(nx)]
        s = [a + dt * (p + 2 * q + 2 * r + v) / 6
             for a, p, q, r, v in zip(s, k1, k2, k3, k4)]
    H.eqv("state", x, s)
    H.eqv("start kept", x0, first)


# --------------------------------------------------------------- simulation
@case("C22", ["utils.step_system"], params=[0, 1, 3],
      thorough=[6], scope="up to 3 steps; any closed loop")
def path(H, steps):
    class Loop:
        def step_forward(self, x):
            return make("torch", [H.uninterp(f"g{j}", *H.vecl(x))
                                  for j in range(2)])

    x = H.tensor("x", 2)
    first = H.vecl(x)
    H.cover()
    got = utils.step_system(Loop(), x, steps)
    H.true("length", len(got) == steps + 1)
    s = first
    for i, p in enumerate(got):
        H.eqv(f"state {i}", p, s)
        s = [H.uninterp(f"g{j}", *s) for j in range(2)]


@case("C22", ["utils.simulate_plant_with_controller"],
      params=[(0., 0.1), (0.25, 0.6)],
      scope="2 states, 2 controls; any control law and plant; the ODE "
            "solver by contract")
def closed_loop(H, begin, end):
    nx, nu = 2, 2
    xe, ue = H.tensor("xe", nx), H.tensor("ue", nu)
    lo = H.tensor("ulo", nu)
    up = lo + H.tensor("uw", nu, lo=0.)

    def law(x):
        return make("torch", [H.uninterp(f"phi{j}", *H.vecl(x))
                              for j in range(nu)])

    seen = []

    class Plant:
        def dynamics(self, x, u):
            H.true("control is an array", isinstance(u, np.ndarray))
            seen.append((H.vecl(x), H.vecl(u)))
            return np.array([H.uninterp(f"f{j}", *H.vecl(x), *H.vecl(u))
                             for j in range(nx)])

    x0, xt = H.nparr("x0", nx), H.nparr("xt", nx)
    x0l, xl = H.vecl(x0), H.vecl(xt)
    H.cover()
    ran = []

    def solve_ivp(fun, t_span, y0, **kw):
        ran.append(1)
        H.true("span", tuple(t_span) == (begin, end))
        H.eqv("start", y0, x0l)
        te = [float(t) for t in kw["t_eval"]]
        H.true("times", len(te) > 0 and te[0] == begin and te[-1] <= end and
               all(abs(b - a - 0.01) < 1e-9 for a, b in zip(te, te[1:])))
        H.true("defaults", set(kw) <= {"t_eval"})
        d = fun(0.05, xt)
        us = [H.clampv(H.uninterp(f"phi{j}", *xl)
                       - H.uninterp(f"phi{j}", *H.vecl(xe)) + H.el1(ue, j),
                       H.el1(lo, j), H.el1(up, j)) for j in range(nu)]
        H.true("plant asked once", len(seen) == 1)
        H.eqv("plant state", seen[0][0], xl)
        H.eqv("saturated control", seen[0][1], us)
        H.eqv("rate", d, [H.uninterp(f"f{j}", *seen[0][0], *seen[0][1])
                          for j in range(nx)])
        return "answer"

    with patched(scipy.integrate, solve_ivp=solve_ivp):
        r = utils.simulate_plant_with_controller(
            Plant(), law, (begin, end), xe, ue, lo, up, x0)
    H.true("run", len(ran) == 1)
    H.true("answer", r == "answer")


@case("C22", ["utils.SigmoidAnneal.__init__", "utils.SigmoidAnneal.__call__"],
      params=[(0, 10, 4), (10, 10, 4), (25, 10, 4), (7, 0, 3)],
      scope="the steps listed; any end values")
def anneal(H, step, center, width):
    lo, up = H.real("lo"), H.real("up")
    H.cover()
    s = utils.SigmoidAnneal(F, lo, up, center, width)
    got = s(step)
    e = H.exp(H.num(-(step - center) / width))
    H.eq("value", got, lo + (up - lo) / (1 + e))
