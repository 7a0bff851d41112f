"""The spring-loaded inverted pendulum and its linearisation."""
import math
import types
import numpy as np
from engine.cases import case
from engine.stubs import stub
from contracts.c10_hybrid import patched
import neural_network_lyapunov.spring_loaded_inverted_pendulum as sl
import neural_network_lyapunov.slip_hybrid_linear_system as sh

S = "spring_loaded_inverted_pendulum.SLIP."
HALF = math.pi / 2


class Hopper:
    """A hopper with any parameters, and its equations."""

    def __init__(self, H):
        self.H = H
        self.m = H.real("m", 0.2, 90.)
        self.l0 = H.real("l0", 0.3, 2.)
        self.k = H.real("k", 1., 9000.)
        self.g = H.real("g", 0.5, 10.)

    def slip(self):
        return sl.SLIP(self.m, self.l0, self.k, self.g)

    # ------------------------------------------------ equations of motion
    def stance(self, x):
        H = self.H
        r, th, rd, thd = x[:4]
        return [rd, thd,
                r * thd * thd - self.g * H.cos(th) +
                self.k * (self.l0 - r) / self.m,
                (self.g * H.sin(th) - 2 * rd * thd) / r, H.num(0.)]

    def stance_jacobian(self, x):
        H = self.H
        r, th, rd, thd = x[:4]
        s, c = H.sin(th), H.cos(th)
        z, o = H.num(0.), H.num(1.)
        g = self.g
        return [[z, z, o, z, z], [z, z, z, o, z],
                [thd * thd - self.k / self.m, g * s, z, 2 * r * thd, z],
                [(2 * rd * thd - g * s) / (r * r), g * c / r, -2 * thd / r,
                 -2 * rd / r, z], [z] * 5]

    def touchdown(self, x, th):
        H = self.H
        s, c = H.sin(th), H.cos(th)
        return [self.l0, th, -x[2] * s + x[3] * c,
                (-x[2] * c - x[3] * s) / self.l0, x[0] + self.l0 * s]

    def liftoff(self, x):
        """at r = l0"""
        H = self.H
        th, rd, thd, xf = x[1:]
        s, c = H.sin(th), H.cos(th)
        return [xf - self.l0 * s, self.l0 * c,
                -self.l0 * c * thd - rd * s, -self.l0 * s * thd + rd * c]

    def energy(self, x):
        return self.m * (x[2] * x[2] + x[3] * x[3]) / 2 \
            + self.m * self.g * x[1]

    def stance_energy(self, x):
        r, th, rd, thd = x[:4]
        d = self.l0 - r
        return self.m * (r * r * thd * thd + rd * rd) / 2 \
            + self.k * d * d / 2 + self.m * self.g * r * self.H.cos(th)

    def flight_state(self, name="x"):
        x = self.H.nparr(name, 4)
        return x, self.H.vecl(x)

    def stance_state(self, name="x", r=None):
        H = self.H
        v = [H.real(name + "_r", 0.1, 2.) if r is None else r,
             H.real(name + "_th", -1.5, 1.5), H.real(name + "_rd"),
             H.real(name + "_thd"), H.real(name + "_foot")]
        return np.array(v), v


# ------------------------------------------------------------ equations
@case("C23", [S + "__init__", S + "flight_dynamics", S + "stance_dynamics",
              S + "flight_phase_energy", S + "stance_phase_energy"])
def motion(H):
    w = Hopper(H)
    s = w.slip()
    x, v = w.flight_state("f")
    y, u = w.stance_state("s")
    H.cover()
    d = H.vecl(s.flight_dynamics(x))
    H.eqv("flight", d, [v[2], v[3], 0., -w.g])
    e = H.vecl(s.stance_dynamics(y))
    H.eqv("stance", e, w.stance(u))
    H.eq("flight energy", s.flight_phase_energy(x), w.energy(v))
    H.eq("stance energy", s.stance_phase_energy(y), w.stance_energy(u))
    # neither dynamics changes its energy
    H.eq("flight conserves", w.m * (v[2] * d[2] + v[3] * d[3])
         + w.m * w.g * d[1], 0.)
    r, th, rd, thd = u[:4]
    H.eq("stance conserves",
         w.m * (r * thd * thd * e[0] + r * r * thd * e[3] + rd * e[2])
         - w.k * (w.l0 - r) * e[0]
         + w.m * w.g * (H.cos(th) * e[0] - r * H.sin(th) * e[1]), 0.)


@case("C23", [S + "stance_dynamics_gradient"])
def motion_gradient(H):
    w = Hopper(H)
    y, u = w.stance_state("s")
    H.cover()
    J = w.slip().stance_dynamics_gradient(y)
    H.shape("shape", J, (5, 5))
    for i, row in enumerate(w.stance_jacobian(u)):
        H.eqv(f"row {i}", J[i], row)


@case("C23", [S + "touchdown_guard", S + "liftoff_guard", S + "apex_guard"])
def guards(H):
    w = Hopper(H)
    s = w.slip()
    x, v = w.flight_state("f")
    y, u = w.stance_state("s")
    th = H.real("th", -1.5, 1.5)
    H.cover()
    H.eq("touchdown", s.touchdown_guard(x, th), v[1] - w.l0 * H.cos(th))
    H.eq("liftoff", s.liftoff_guard(y), u[0] - w.l0)
    H.eq("apex", s.apex_guard(x), v[3])


@case("C23", [S + "touchdown_transition", S + "liftoff_transition"])
def transitions(H):
    w = Hopper(H)
    s = w.slip()
    th = H.real("th", -1.5, 1.5)
    px, vx, vy = H.real("px"), H.real("vx"), H.real("vy")
    v = [px, w.l0 * H.cos(th), vx, vy]
    x = np.array(v)
    y, u = w.stance_state("s", r=w.l0)
    H.cover()
    td = s.touchdown_transition(x, th)
    lo = s.liftoff_transition(y)
    t, l = H.vecl(td), H.vecl(lo)
    H.eqv("touchdown", t, w.touchdown(v, th))
    H.eqv("liftoff", l, w.liftoff(u))
    H.eq("touchdown keeps the energy", w.stance_energy(t), w.energy(v))
    H.eq("liftoff keeps the energy", w.energy(l), w.stance_energy(u))
    # one undoes the other
    H.eqv("touchdown then liftoff", s.liftoff_transition(td), v)
    H.eqv("liftoff then touchdown",
          s.touchdown_transition(lo, u[1]), u)


def touchdown_jacobian(w, x, th):
    H = w.H
    s, c = H.sin(th), H.cos(th)
    z, o = H.num(0.), H.num(1.)
    J = [[z] * 4, [z] * 4, [z, z, -s, c], [z, z, -c / w.l0, -s / w.l0],
         [o, z, z, z]]
    d = [z, o, -x[2] * c - x[3] * s, (x[2] * s - x[3] * c) / w.l0, w.l0 * c]
    return J, d


def liftoff_jacobian(w, x):
    """of the map at r = l0 (the leg length does not vary)"""
    H = w.H
    th, rd, thd, xf = x[1:]
    s, c = H.sin(th), H.cos(th)
    z, o = H.num(0.), H.num(1.)
    return [[z, -w.l0 * c, z, z, o], [z, -w.l0 * s, z, z, z],
            [z, w.l0 * s * thd - rd * c, -s, -w.l0 * c, z],
            [z, -w.l0 * c * thd - rd * s, c, -w.l0 * s, z]]


@case("C23", [S + "touchdown_transition_gradient",
              S + "liftoff_transition_gradient"])
def transition_gradients(H):
    w = Hopper(H)
    s = w.slip()
    th = H.real("th", -1.5, 1.5)
    x, v = w.flight_state("f")
    y, u = w.stance_state("s", r=w.l0)
    H.cover()
    a, b = s.touchdown_transition_gradient(x, th)
    J, d = touchdown_jacobian(w, v, th)
    H.shape("shape", a, (5, 4))
    H.eqv("leg angle", b, d)
    for i in range(5):
        H.eqv(f"touchdown {i}", a[i], J[i])
    c = s.liftoff_transition_gradient(y)
    H.shape("shape", c, (4, 5))
    for i, row in enumerate(liftoff_jacobian(w, u)):
        H.eqv(f"liftoff {i}", c[i], row)


# -------------------------------------------------------------- touchdown
@case("C23", [S + "time_to_touchdown", S + "can_touch_stepping_stone"],
      params=["finite", "endless"])
def stone(H, kind):
    w = Hopper(H)
    s = w.slip()
    x, v = w.flight_state("f")
    th = H.real("th", -1.5, 1.5)
    h = H.real("h")
    if kind == "finite":
        left = H.real("left")
        right = left + H.real("width", 0.01)
    else:
        left, right = -np.inf, np.inf
    st = sl.SteppingStone(left, right, h)
    H.cover()
    t = s.time_to_touchdown(x, st, th)
    foot = v[1] - w.l0 * H.cos(th) - h
    H.true("can", s.can_touch_stepping_stone(x, st, th) == (t is not None))
    if t is None:
        if kind == "endless":
            H.true("foot below", foot <= 0)
            return
        # no time at or after now at which the falling foot is on the stone
        q = H.real("q", 0.)
        low = foot + v[3] * q - w.g * q * q / 2
        fx = v[0] + w.l0 * H.sin(th) + v[2] * q
        if H.sym:
            H.assume(low == 0)
            H.assume(foot > 0)
            H.assume(v[3] - w.g * q <= 0)
            H.true("misses the stone", H.or_(fx < left, fx > right))
        return
    t = H.scalar(t)
    H.true("foot above", foot >= 0)
    H.eq("foot lands", foot + v[3] * t - w.g * t * t / 2, 0.)
    H.true("coming down", v[3] - w.g * t <= 0)
    H.true("not before", t >= 0)
    if kind == "finite":
        fx = v[0] + w.l0 * H.sin(th) + v[2] * t
        H.true("on the stone", H.and_(fx >= left, fx <= right))


def fall(H, w):
    """An apex state above the ground and the fall from it: the height is
    written with the time it takes."""
    th = H.real("th", -1.5, 1.5)
    px, vx = H.real("px"), H.real("vx")
    drop = H.real("drop", 0.01, 5.)
    return th, px, w.l0 * H.cos(th) + drop, vx, drop


@case("C23", [S + "apex_to_touchdown_gradient"], params=["above", "below"])
def fall_gradient(H, kind):
    w = Hopper(H)
    s = w.slip()
    th, px, h, vx, drop = fall(H, w)
    if kind == "below":
        h = w.l0 * H.cos(th) - drop
    H.cover()
    got = s.apex_to_touchdown_gradient(np.array([px, h, vx]), th)
    if kind == "below":
        H.true("none", all(v is None for v in got) and len(got) == 6)
        return
    A, b, x, ta, tb, t = got
    t = H.scalar(t)
    H.shape("shape", A, (4, 3))
    # h - l0 cos(th) = g t^2 / 2 defines t > 0
    H.eq("fall", w.g * t * t, 2 * drop)
    H.true("later", t >= 0)
    H.eqv("state", x, [px + vx * t, w.l0 * H.cos(th), vx, -w.g * t])
    ta, tb = H.vecl(ta), H.scalar(tb)
    # differentiate g t^2 / 2 = h - l0 cos(th)
    H.eq("dt/dx", ta[0], 0.)
    H.eq("dt/dheight", ta[1] * w.g * t, 1.)
    H.eq("dt/dvx", ta[2], 0.)
    H.eq("dt/dangle", tb * w.g * t, w.l0 * H.sin(th))
    H.eqv("dx", A[0], [1., vx * ta[1], t])
    H.eqv("dy", A[1], [0., 0., 0.])
    H.eqv("dvx", A[2], [0., 0., 1.])
    H.eqv("dvy", A[3], [0., -w.g * ta[1], 0.])
    H.eqv("d/dangle", b, [vx * tb, -w.l0 * H.sin(th), 0., -w.g * tb])


@case("C23", [S + "liftoff_to_apex_gradient"], params=["up", "down"])
def climb_gradient(H, kind):
    w = Hopper(H)
    x, v = w.flight_state("f")
    H.assume(v[3] >= 0.01 if kind == "up" else v[3] <= -0.01)
    H.cover()
    got = w.slip().liftoff_to_apex_gradient(x)
    if kind == "down":
        H.true("none", all(a is None for a in got) and len(got) == 4)
        return
    J, a, dt, t = got
    H.eq("time", t, v[3] / w.g)
    H.eqv("dtime", dt, [0., 0., 0., 1 / w.g])
    H.eqv("apex", a, [v[0] + v[2] * v[3] / w.g,
                      v[1] + v[3] * v[3] / (2 * w.g), v[2]])
    H.shape("shape", J, (3, 4))
    H.eqv("dx", J[0], [1., 0., v[3] / w.g, v[2] / w.g])
    H.eqv("dheight", J[1], [0., 1., 0., v[3] / w.g])
    H.eqv("dvx", J[2], [0., 0., 1., 0.])


# ------------------------------------------------------- the stance phase
class Ode:
    """solve_ivp by contract: it is given the equations of motion, the
    state at touchdown and the three events, and returns how the motion
    ended."""

    def __init__(self, w, end, sens=False):
        self.w, self.H, self.end, self.sens = w, w.H, end, sens
        self.starts = []
        self.n = 0

    def zero(self, v):
        v = self.H.scalar(v)
        return v.is_const() and v.const() == 0 if self.H.sym \
            else abs(v) < 1e-9

    def events(self, ev, tail):
        """which event is which"""
        H, w = self.H, self.w
        r, th = H.real(f"er{self.n}", 0.1, 2.), H.real(f"eth{self.n}")
        z = H.num(0.)
        ids = []
        for e in ev:
            v = H.scalar(e(0., np.array([w.l0, z, z, z, z] + tail)))
            if self.zero(v):
                what, want, sign = "liftoff", r - w.l0, 1
            elif H.holds(v > 0):
                what, want, sign = "back", th + HALF, -1
            else:
                what, want, sign = "front", th - HALF, 1
            y = np.array([r, th, z, z, z] + tail)
            H.eq(f"{what} event", e(0., y), want)
            H.true(f"{what} ends the motion", bool(e.terminal))
            H.true(f"{what} direction", e.direction * sign > 0)
            ids.append(what)
        H.true("events", sorted(ids) == ["back", "front", "liftoff"])
        return ids

    def __call__(self, fun, t_span, y0, events=None, **kw):
        H, w, n = self.H, self.w, self.n
        H.true("span", t_span[1] > t_span[0])
        H.true("accuracy", kw.get("rtol", 1) <= 1e-6)
        y0 = H.vecl(y0)
        dim = 30 if self.sens else 5
        H.true("size", len(y0) == dim)
        self.starts.append(y0[:5])
        y, u = w.stance_state(f"any{n}")
        f = w.stance(u)
        tail = []
        if self.sens:
            eye = [1. if i == j else 0. for i in range(5) for j in range(5)]
            H.eqv("sensitivity starts", y0[5:], eye)
            tail = [H.real(f"any{n}phi{i}") for i in range(25)]
            J = w.stance_jacobian(u)
            f = f + [sum(J[i][k] * tail[5 * k + j] for k in range(5))
                     for i in range(5) for j in range(5)]
        H.eqv("equations of motion", fun(H.num(0.3), np.array(u + tail)), f)
        ids = self.events(events, tail)
        if self.end == "liftoff":
            _, last = w.stance_state(f"lo{n}", r=w.l0)
            H.assume(last[2] >= 0.01)
            if self.sens:
                last = last + [H.real(f"phi{n}_{i}") for i in range(25)]
        else:
            _, last = w.stance_state(f"fell{n}")
            last[1] = H.num(HALF if self.end == "front" else -HALF)
            if self.sens:
                last = last + tail
        self.last = last
        t0 = H.scalar(t_span[0])
        self.dt = H.real(f"dt{n}", 0.01)
        self.n += 1
        t = t0 + self.dt
        H.t_end = t
        return types.SimpleNamespace(
            t=np.array([t0, t]),
            y=np.array([list(c) for c in zip(y0, last)]),
            t_events=[np.array([t]) if i == self.end else np.array([])
                      for i in ids], status=1, success=True)


def blank(H, name, got, n):
    H.true(name, len(got) == n and all(v is None for v in got))


@case("C23", [S + "apex_map"],
      params=["liftoff", "back", "front", "below", "against"],
      scope="full; the ODE solver by contract")
def apex(H, end):
    w = Hopper(H)
    th, px, h, vx, drop = fall(H, w)
    if end == "below":
        h = w.l0 * H.cos(th) - drop
    elif end == "against":
        H.assume(vx * th < 0)
    else:
        H.assume(vx * th >= 0)
    # a hop against the leg is refused, wherever it would lead
    ode = Ode(w, "liftoff" if end == "against" else end)
    H.cover()
    with patched(sl, solve_ivp=ode):
        got = w.slip().apex_map(px, h, vx, th)
    if end != "liftoff":
        blank(H, "none", got, 4)
        return
    t = H.scalar(H.sqrt(2 * drop / w.g))
    H.eqv("touchdown state", ode.starts[0], w.touchdown(
        [px + vx * t, w.l0 * H.cos(th), vx, -w.g * t], th))
    lo = w.liftoff(ode.last)
    if got[0] is None:
        blank(H, "all none", got, 4)
        H.true("not upward", lo[3] <= 0)
        return
    H.true("upward", lo[3] >= 0)
    tu = lo[3] / w.g
    H.eqv("apex", got[:3], [lo[0] + lo[2] * tu,
                            lo[1] + lo[3] * lo[3] / (2 * w.g), lo[2]])
    H.eq("time", got[3], t + ode.dt + tu)


def mat(M):
    return np.array(M)


def prod(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B)))
             for j in range(len(B[0]))] for i in range(len(A))]


def stance_map(w, last):
    """Derivative of the state at liftoff and of its time with respect to
    the state at touchdown, from the sensitivity at the end."""
    H = w.H
    x, phi = last[:5], [last[5 + 5 * i:10 + 5 * i] for i in range(5)]
    f = w.stance(x)
    dt = [-phi[0][j] / x[2] for j in range(5)]
    return [[phi[i][j] + f[i] * dt[j] for j in range(5)]
            for i in range(5)], dt


@case("C23", [S + "touchdown_to_liftoff_gradient"],
      params=["liftoff", "back", "front"],
      scope="full; the ODE solver by contract")
def stance_gradient(H, end):
    w = Hopper(H)
    y, u = w.stance_state("td", r=w.l0)
    ode = Ode(w, end, sens=True)
    H.cover()
    with patched(sl, solve_ivp=ode):
        got = w.slip().touchdown_to_liftoff_gradient(y)
    H.eqv("start", ode.starts[0], u)
    if end != "liftoff":
        blank(H, "none", got, 4)
        return
    J, x, dt, t = got
    H.eqv("state", x, ode.last[:5])
    H.eq("time", t, ode.dt)
    want, wt = stance_map(w, ode.last)
    H.shape("shape", J, (5, 5))
    for i in range(5):
        H.eqv(f"gradient {i}", J[i], want[i])
    H.eqv("time gradient", dt, wt)
    # the leg has its rest length at liftoff, wherever it started
    H.eqv("liftoff stays liftoff", J[0], [0.] * 5)


@case("C23", [S + "apex_to_apex_gradient"],
      params=["liftoff", "fell", "below", "down"],
      scope="full; the fall and the stance phase by contract")
def step_gradient(H, end):
    """The chain rule over fall, touchdown, stance, liftoff and climb."""
    w = Hopper(H)
    th, px, h, vx, drop = fall(H, w)
    if end == "below":
        h = w.l0 * H.cos(th) - drop
    G = [[H.real(f"G{i}{j}") for j in range(5)] for i in range(5)]
    T = [H.real(f"T{j}") for j in range(5)]
    _, lo = w.stance_state("lo", r=w.l0)
    tl = H.real("tl", 0.)
    x1 = w.liftoff(lo)
    H.assume(x1[3] <= -0.01 if end == "down" else x1[3] >= 0.01)
    s = w.slip()
    seen = []

    def stance(x):
        seen.append(H.vecl(x))
        if end == "fell":
            return None, None, None, None
        return np.array(G), np.array(lo), np.array(T), tl

    # the fall and the stance by contract
    td, dh, dth = H.real("td", 0.), H.real("dh"), H.real("dth")
    v = [px + vx * td, w.l0 * H.cos(th), vx, -w.g * td]
    z, o = H.num(0.), H.num(1.)
    # columns: x, height, velocity, angle
    D0 = [[o, vx * dh, td, vx * dth], [z, z, z, -w.l0 * H.sin(th)],
          [z, z, o, z], [z, -w.g * dh, z, -w.g * dth]]

    def falling(x, angle):
        H.eqv("apex asked", x, [px, h, vx])
        H.eq("angle asked", angle, th)
        if end == "below":
            return (None, ) * 6
        return (np.array([r[:3] for r in D0]), np.array([r[3] for r in D0]),
                np.array(v), np.array([z, dh, z]), dth, td)

    s.touchdown_to_liftoff_gradient = stance
    stub(s, apex_to_touchdown_gradient=falling)
    H.cover()
    got = s.apex_to_apex_gradient(np.array([px, h, vx]), th)
    if end != "liftoff":
        blank(H, "none", got, 12)
        return
    (A, B, x, a, b, t, pa, pb, xp, qa, qb, xq) = got
    for n, M, sh_ in (("A", A, (3, 3)), ("B", B, (3, 1)), ("a", a, (3, )),
                      ("pa", pa, (4, 3)), ("pb", pb, (4, )),
                      ("qa", qa, (4, 3)), ("qb", qb, (4, 1)),
                      ("x", x, (3, )), ("xp", xp, (4, )), ("xq", xq, (4, ))):
        H.shape("shape of " + n, M, sh_)
    H.eqv("state at touchdown", xp, v)
    H.eqv("stance from", seen[0], w.touchdown(v, th))
    for i in range(4):
        H.eqv(f"touchdown gradient {i}", list(H.vecl(pa[i])) +
              [H.vecl(pb)[i]], D0[i])
    J, d = touchdown_jacobian(w, v, th)
    D1 = prod(J, D0)
    for i in range(5):
        D1[i][3] = D1[i][3] + d[i]
    D2 = prod(liftoff_jacobian(w, lo), prod(G, D1))
    H.eqv("state at liftoff", xq, x1)
    for i in range(4):
        H.eqv(f"liftoff gradient {i}", list(H.vecl(qa[i])) +
              [H.vecl(qb)[i]], D2[i])
    up = [[o, z, x1[3] / w.g, x1[2] / w.g], [z, o, z, x1[3] / w.g],
          [z, z, o, z]]
    D3 = prod(up, D2)
    H.eqv("apex", x, [x1[0] + x1[2] * x1[3] / w.g,
                      x1[1] + x1[3] * x1[3] / (2 * w.g), x1[2]])
    for i in range(3):
        H.eqv(f"apex gradient {i}", list(H.vecl(A[i])) + [H.vecl(B)[i]],
              D3[i])
    H.eq("time", t, td + tl + x1[3] / w.g)
    dt = prod([T], D1)[0]
    dt = [u + q / w.g for u, q in zip(dt, D2[3])]
    dt[1], dt[3] = dt[1] + dh, dt[3] + dth
    H.eqv("time gradient", list(H.vecl(a)) + [H.scalar(b)], dt)


# -------------------------------------------------------------- simulation
class Flight:
    """solve_ivp for a simulation: flights and stances in turn."""

    def __init__(self, w, angles, ends):
        self.w, self.H = w, w.H
        self.angles, self.ends = angles, ends
        self.calls = 0
        self.res = []
        self.expect = None

    def __call__(self, fun, t_span, y0, events=None, **kw):
        H, w = self.H, self.w
        i, stance = divmod(self.calls, 2)
        self.calls += 1
        y0 = H.vecl(y0)
        if stance:
            o = Ode(w, self.ends[i])
            o.n = 100 * (i + 1)
            H.eqv(f"touchdown {i}", y0, w.touchdown(self.state,
                                                    self.angles[i]))
            H.eq(f"touchdown time {i}", t_span[0], self.t)
            r = o(fun, t_span, y0, events=events, **kw)
            self.t, self.state = H.t_end, o.last
            self.res.append(r)
            return r
        th = self.angles[i]
        if i:
            x = w.liftoff(self.state)
            tu = x[3] / w.g
            self.expect = [x[0] + x[2] * tu,
                           x[1] + x[3] * x[3] / (2 * w.g), x[2], 0.]
            self.t = self.t + tu
        H.eqv(f"flight {i} from", y0, self.expect)
        H.eq(f"flight time {i}", t_span[0], self.t)
        H.true("span", t_span[1] > t_span[0])
        x, v = w.flight_state(f"fl{i}")
        H.eqv("flight equations", fun(H.num(0.3), x),
              [v[2], v[3], 0., -w.g])
        ev = list(events) if isinstance(events, (list, tuple)) else [events]
        H.true("one event", len(ev) == 1 and bool(ev[0].terminal)
               and ev[0].direction < 0)
        H.eq("touchdown event", ev[0](H.num(0.3), x),
             v[1] - w.l0 * H.cos(th))
        self.state = [H.real(f"tdx{i}"), w.l0 * H.cos(th),
                      H.real(f"tdvx{i}"), -H.real(f"tdvy{i}", 0.)]
        self.t = self.t + H.real(f"fdt{i}", 0.01)
        r = types.SimpleNamespace(
            t=np.array([H.scalar(t_span[0]), self.t]),
            y=np.array([list(c) for c in zip(y0, self.state)]),
            t_events=[np.array([self.t])], status=1, success=True)
        self.res.append(r)
        return r


def shaped(A, shape, dtype):
    assert A.shape == shape


@case("C23", [S + "simulate"],
      params=[("liftoff", ), ("liftoff", "liftoff"), ("liftoff", "back"),
              ("front", "liftoff"), ("back", "liftoff")],
      thorough=[("liftoff", "liftoff", "front")],
      scope="up to 2 steps; the ODE solver by contract")
def hops(H, *ends):
    w = Hopper(H)
    angles = [H.real(f"th{i}", -1.5, 1.5) for i in range(len(ends))]
    x0, v = w.flight_state("x0")
    H.assume(v[1] >= w.l0 * H.cos(angles[0]) + 0.01)
    F = Flight(w, angles, ends)
    F.t, F.expect = H.num(0.), v
    H.contract(sl, "check_shape_and_type", shaped)
    H.cover()
    with patched(sl, solve_ivp=F):
        sol = w.slip().simulate(x0, angles)
    H.true("all phases", len(sol) == F.calls and
           all(a is b for a, b in zip(sol, F.res)))
    # it stops at a fall, or when the next apex is below the touchdown
    done = len(sol) // 2
    H.true("pairs", len(sol) % 2 == 0 and 1 <= done <= len(ends))
    for e in ends[:done - 1]:
        H.true("went on from a liftoff", e == "liftoff")
    if done < len(ends) and ends[done - 1] == "liftoff":
        x = w.liftoff(F.state)
        H.true("too low", x[1] + x[3] * x[3] / (2 * w.g)
               <= w.l0 * H.cos(angles[done]))


# ----------------------------------------------------------- linearisation
SIDES = ["both", "left", "right", "none"]


@case("C23", ["slip_hybrid_linear_system.SlipHybridLinearSystem.__init__",
              "slip_hybrid_linear_system.SlipHybridLinearSystem."
              "add_stepping_stone",
              "slip_hybrid_linear_system.SlipHybridLinearSystem."
              "apex_map_linear_approximation"],
      params=SIDES + ["missed", "fell"],
      scope="full; the hopper's map and its gradient by contract")
def linearised(H, kind):
    w = Hopper(H)
    sys = sh.SlipHybridLinearSystem(w.m, w.l0, w.k, w.g)
    left = H.real("left") if kind in ("both", "left") else -np.inf
    right = np.inf
    if kind in ("both", "right"):
        right = (left if kind == "both" else H.real("left")) \
            + H.real("width", 0.01)
    if kind in ("missed", "fell"):
        left, right = -1., 1.
    sys.add_stepping_stone(-7., -6., 0.)
    sys.add_stepping_stone(left, right, H.real("stone"))
    st = sys.stepping_stones[1]
    hs = st.height
    th = H.real("th", -1.5, 1.5)
    a0 = H.nparr("apex", 3)
    ap = H.vecl(a0)
    R = {}

    def M(n, *s):
        R[n] = H.nparr(n, *s)
        return R[n].copy()

    def N(n):
        R[n] = H.real(n)
        return R[n]

    def can(x, stone, angle):
        H.eqv("asked at", x, ap + [0.])
        H.true("asked of", stone is st)
        H.eq("asked for", angle, th)
        return kind != "missed"

    def step(x, angle):
        H.eqv("step from", x, [ap[0], ap[1] - hs, ap[2]])
        H.eq("step with", angle, th)
        if kind == "fell":
            return (None, ) * 12
        return (M("A", 3, 3), M("B", 3, 1), M("x1", 3), M("a", 3),
                N("b"), N("t"), M("pa", 4, 3), M("pb", 4),
                M("xp", 4), M("qa", 4, 3), M("qb", 4, 1), M("xq", 4))

    stub(sys.slip, can_touch_stepping_stone=can)
    stub(sys.slip, apex_to_apex_gradient=step)
    H.cover()
    got = sys.apex_map_linear_approximation(a0, st, th)
    H.eqv("state kept", a0, ap)
    if kind in ("missed", "fell"):
        blank(H, "none", got, 8)
        return
    A, B, c, at, bt, ct, P, q = got
    H.shape("A", A, (3, 3))
    for i in range(3):
        H.eqv(f"A{i}", A[i], R["A"][i])
    H.eqv("B", B, R["B"])
    H.eqv("time gradient", at, R["a"])
    # at any other state and angle the map is first order in the difference
    y = [H.real(f"y{i}") for i in range(4)]
    d = [p - r for p, r in zip(y, ap + [th])]
    z = [1. * v for v in H.vecl(R["x1"])]
    z[1] = z[1] + hs
    for i in range(3):
        row = H.vecl(A[i]) + [H.vecl(B)[i]]
        H.eq(f"map {i}", H.dot(row, y) + H.vecl(c)[i],
             z[i] + H.dot(row, d))
    row = H.vecl(at) + [H.scalar(bt)]
    H.eq("time", H.scalar(ct) + H.dot(row, y), R["t"] + H.dot(row, d))
    H.eq("time slope", bt, R["b"])
    s, co = H.sin(th), H.cos(th)
    pa, pb = H.matl(R["pa"]), H.vecl(R["pb"])
    qa, qb = H.matl(R["qa"]), H.vecl(R["qb"])
    xp, xq = H.vecl(R["xp"]), H.vecl(R["xq"])
    # what must be nonnegative, to first order
    land = [pa[0][0], pa[0][1], pa[0][2], pb[0] + w.l0 * co]
    want = [(ap[1] - w.l0 * co - hs, [0., 1., 0., w.l0 * s]),
            (xq[3], qa[3] + [qb[3]])]
    if kind in ("both", "left"):
        want.append((xp[0] + w.l0 * s - left, land))
    if kind in ("both", "right"):
        want.append((right - xp[0] - w.l0 * s, [-v for v in land]))
    H.shape("P", P, (len(want), 4))
    H.shape("q", q, (len(want), 1))
    qs = H.vecl(q)
    for i, (v, g) in enumerate(want):
        H.eq(f"constraint {i}", qs[i] - H.dot(H.vecl(P[i]), y),
             v + H.dot([H.num(u) if isinstance(u, float) else u for u in g],
                       d))
