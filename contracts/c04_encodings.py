"""Contracts of the elementary mixed-integer encodings (utils)."""
import torch
import gurobipy
from engine.cases import case, System
import neural_network_lyapunov.utils as utils
import neural_network_lyapunov.gurobi_torch_mip as gtm


def rows4(H, A_x, A_y, A_b, rhs, x, kinds="CB"):
    A_x, A_y, A_b, rhs = [H.vecl(t) for t in (A_x, A_y, A_b, rhs)]
    H.true("rows", len(A_x) == len(A_y) == len(A_b) == len(rhs))
    return System(list(kinds),
                  [({0: A_y[i], 1: A_b[i]}, "<", rhs[i] - A_x[i] * x,
                    f"in{i}") for i in range(len(rhs))])


BETA01 = [({1: 1.}, ">", 0., "b>=0"), ({1: 1.}, "<", 1., "b<=1")]


def scalar_arg(H, kind, v):
    if kind == "tensor":
        return torch.tensor(v, dtype=torch.float64)
    return v


@case("C04", ["utils.replace_binary_continuous_product"],
      params=["tensor", "float"])
def binary_continuous_product(H, kind):
    lo = H.real("lo")
    up = H.real("up")
    H.assume(lo <= up)
    x = H.real("x")
    H.assume(lo <= x)
    H.assume(x <= up)
    H.cover()
    r = utils.replace_binary_continuous_product(
        scalar_arg(H, kind, lo), scalar_arg(H, kind, up))
    s = rows4(H, *r, x)
    for b in (0, 1):
        H.entail(f"s=b*x (b={b})", s, {0: 1.}, 0., b * x, given={1: b})
        H.exists(f"exists (b={b})", s, [b * x, b],
                 [({0: 1.}, 0., b * x), ({1: 1.}, 0., b)])
    # the relaxation is the convex hull
    R = rows4(H, *r, x, "CC")
    H.entail("hull.1", R, {0: 1., 1: -lo}, 0., 0., "ge", BETA01)
    H.entail("hull.2", R, {0: 1., 1: -up}, 0., 0., "le", BETA01)
    H.entail("hull.3", R, {0: 1., 1: -up}, 0., x - up, "ge", BETA01)
    H.entail("hull.4", R, {0: 1., 1: -lo}, 0., x - lo, "le", BETA01)


def relu_rows(H, r, x, lo, up, c):
    s = rows4(H, *r, x)
    y = H.leaky(x, c)
    H.entail("y=relu(x)", s, {0: 1.}, 0., y)
    H.exists("exists", s, [y, H.ite(x >= 0, 1., 0.)], [({0: 1.}, 0., y)])
    # the binary tells the active side
    if H.holds(x > 0):
        H.entail("x>0 => b=1", s, {1: 1.}, 0., 1.)
    elif H.holds(x < 0):
        H.entail("x<0 => b=0", s, {1: 1.}, 0., 0.)
    else:
        for b in (0., 1.):
            H.exists(f"both sides at 0 ({b})", s, [0., b],
                     [({1: 1.}, 0., b)])


def bounded_x(H):
    lo = H.real("lo")
    up = H.real("up")
    H.assume(lo < 0)
    H.assume(up > 0)
    x = H.real("x")
    H.assume(lo <= x)
    H.assume(x <= up)
    H.cover()
    return lo, up, x


@case("C04", ["utils.replace_relu_with_mixed_integer_constraint"],
      params=["tensor", "float"])
def relu_unit(H, kind):
    lo, up, x = bounded_x(H)
    r = utils.replace_relu_with_mixed_integer_constraint(
        scalar_arg(H, kind, lo), scalar_arg(H, kind, up))
    relu_rows(H, r, x, lo, up, 0.)
    R = rows4(H, *r, x, "CC")
    H.entail("hull.1", R, {0: 1.}, 0., 0., "ge", BETA01)
    H.entail("hull.2", R, {0: 1.}, 0., x, "ge", BETA01)
    H.entail("hull.3", R, {0: 1., 1: -up}, 0., 0., "le", BETA01)
    H.entail("hull.4", R, {0: 1., 1: -lo}, 0., x - lo, "le", BETA01)


@case("C04", ["utils.replace_leaky_relu_mixed_integer_constraint"],
      params=["tensor", "float"])
def leaky_relu_unit(H, kind):
    lo, up, x = bounded_x(H)
    c = H.real("c", lo=0.)
    H.assume(H.not_(c == 1.))
    r = utils.replace_leaky_relu_mixed_integer_constraint(
        c, scalar_arg(H, kind, lo), scalar_arg(H, kind, up))
    relu_rows(H, r, x, lo, up, c)
    R = rows4(H, *r, x, "CC")
    sg = 1. if H.holds(c <= 1) else -1.
    H.entail("hull.1", R, {0: sg}, 0., sg * c * x, "ge", BETA01)
    H.entail("hull.2", R, {0: sg}, 0., sg * x, "ge", BETA01)
    H.entail("hull.3", R, {0: sg, 1: sg * (c - 1) * up}, 0., sg * c * x,
             "le", BETA01)
    H.entail("hull.4", R, {0: sg, 1: sg * (c - 1) * lo}, 0.,
             sg * (x + (c - 1) * lo), "le", BETA01)


@case("C04", ["utils.leaky_relu_gradient_times_x"], params=["tensor"])
def leaky_gradient_times_x(H, kind):
    lo = H.real("lo")
    up = H.real("up")
    H.assume(lo <= up)
    x = H.real("x")
    H.assume(lo <= x)
    H.assume(x <= up)
    c = H.real("c", lo=0.)
    H.cover()
    r = utils.leaky_relu_gradient_times_x(
        scalar_arg(H, kind, lo), scalar_arg(H, kind, up), c)
    s = rows4(H, *r, x)
    for b in (0, 1):
        v = x if b else c * x
        H.entail(f"y=g*x (b={b})", s, {0: 1.}, 0., v, given={1: b})
        H.exists(f"exists (b={b})", s, [v, b],
                 [({0: 1.}, 0., v), ({1: 1.}, 0., b)])


def int_point(H, lo, up):
    return H.between("x", lo, up)


@case("C04", ["utils.max_as_mixed_integer_constraint"], params=[1, 2, 3],
      thorough=[4], scope="vectors of at most 3 entries (thorough: 4)",
      budget=90)
def max_encoding(H, n):
    lo, up = H.interval("x", n)
    x = H.between("x", lo, up)
    H.cover()
    c = utils.max_as_mixed_integer_constraint(lo, up)
    s = H.cnstr_system(c, x)
    xs = H.vecl(x)
    m = H.max(*xs)
    co, k = H.out_expr(c, x, s)
    H.entail("out=max", s, co, k, m)
    pick, done = [], None
    for v in xs:
        e = v == m
        f = e if done is None else H.and_(e, H.not_(done))
        pick.append(H.ite(f, 1., 0.))
        done = e if done is None else H.or_(done, e)
    H.exists("exists", s, [m] + pick, [(co, k, m)])


@case("C04", ["utils.absolute_value_as_mixed_integer_constraint"],
      params=[(False, "tensor"), (True, "tensor"), (False, "float"),
              (True, "float")])
def absolute_value(H, binary_for_zero, kind):
    lo = H.real("lo")
    up = H.real("up")
    H.assume(lo <= up)
    v = H.real("x")
    H.assume(lo <= v)
    H.assume(v <= up)
    H.cover()
    c = utils.absolute_value_as_mixed_integer_constraint(
        scalar_arg(H, kind, lo), scalar_arg(H, kind, up),
        *((binary_for_zero, ) if binary_for_zero or kind == "tensor"
          else ()))
    s = H.cnstr_system(c, [v])
    a = H.absv(v)
    co, k = H.out_expr(c, [v], s)
    H.entail("out=|x|", s, co, k, a)
    H.true("binaries", s.nz == (3 if binary_for_zero else 1))
    z = [1. * s.ns]
    sg = 1 if H.holds(v > 0) else (-1 if H.holds(v < 0) else 0)
    if binary_for_zero:
        w = [1. * (sg == -1), 1. * (sg == 0), 1. * (sg == 1)]
        if sg:
            H.entail("binary[zero]", s, {s.ns + 1: 1.}, 0., 0.)
            H.entail("binary[+]", s, {s.ns + 2: 1.}, 0., w[2])
            H.entail("binary[-]", s, {s.ns: 1.}, 0., w[0])
        else:
            H.exists("zero branch at 0", s, [a] + w,
                     [({s.ns + 1: 1.}, 0., 1.)])
    else:
        w = [1. if sg > 0 else (0. if sg < 0 else
                                H.ite(lo >= 0, 1., 0.))]
        if sg:
            H.entail("binary", s, {s.ns: 1.}, 0., w[0])
    H.exists("exists", s, [a] + w, [(co, k, a)])


@case("C04", ["utils.add_saturation_as_mixed_integer_constraint"])
def saturation(H):
    lo = H.real("lo")
    up = H.real("up")
    ll = H.real("limit_lo")
    ul = H.real("limit_up")
    H.assume(lo <= up)
    H.assume(ll < ul)
    x = H.real("x")
    H.assume(lo <= x)
    H.assume(x <= up)
    H.cover()
    mip = gtm.GurobiTorchMIP(torch.float64)
    vx = mip.addVars(1, lb=-gurobipy.GRB.INFINITY, name="x")
    vy = mip.addVars(1, lb=-gurobipy.GRB.INFINITY, name="y")
    b = utils.add_saturation_as_mixed_integer_constraint(
        mip, vx[0], vy[0], ll, ul, lo, up, gurobipy.GRB.BINARY)
    s = H.model_system(mip.gurobi_model, {vx[0]: x})
    y = H.clampv(x, ll, ul)
    iy = s.ix[vy[0]]
    H.entail("y=clamp(x)", s, {iy: 1.}, 0., y)
    # the returned binaries say which limit is active
    can_lo, can_up = H.holds(lo < ll), H.holds(up > ul)
    never = H.holds(H.or_(up <= ll, lo >= ul))
    H.true("binaries", len(b) == (0 if never else int(can_lo) +
                                  int(can_up)))
    w = [None] * len(s.kinds)
    w[iy] = y
    bs = list(b.values()) if hasattr(b, "values") else list(b)
    if bs:
        names = ([("lo", bs[0])] if can_lo else []) + \
            ([("up", bs[-1])] if can_up else [])
        for nm, v in names:
            iv = s.ix[v]
            if nm == "lo":
                w[iv] = H.ite(x <= ll, 1., 0.)
                if H.holds(x < ll):
                    H.entail("b_lo=1", s, {iv: 1.}, 0., 1.)
                elif H.holds(x > ll):
                    H.entail("b_lo=0", s, {iv: 1.}, 0., 0.)
            else:
                w[iv] = H.ite(x >= ul, 1., 0.)
                if H.holds(x > ul):
                    H.entail("b_up=1", s, {iv: 1.}, 0., 1.)
                elif H.holds(x < ul):
                    H.entail("b_up=0", s, {iv: 1.}, 0., 0.)
    for i in range(len(w)):
        if w[i] is None:
            w[i] = H.max(x, ll)
    H.exists("exists", s, w, [({iy: 1.}, 0., y)])


@case("C04", ["utils.leaky_relu_interval"], params=["tensor", "float"])
def leaky_interval(H, kind):
    lo = H.real("lo")
    up = H.real("up")
    c = H.real("c")
    H.assume(lo < up)
    x = H.real("x")
    H.assume(lo <= x)
    H.assume(x <= up)
    H.cover()
    a, b = utils.leaky_relu_interval(c, scalar_arg(H, kind, lo),
                                     scalar_arg(H, kind, up))
    y = H.ite(x >= 0, x, c * x)
    H.le("lo", a, y)
    H.le("up", y, b)
    # attained at some point of the interval
    f = [lo, c * lo, up, c * up, 0.]
    H.true("lo attained", H.or_(*[H.scalar(a) == v for v in f]))
    H.true("up attained", H.or_(*[H.scalar(b) == v for v in f]))


@case("C04", ["utils.box_boundary"], params=[1, 2],
      scope="boxes of dimension at most 2 (thorough: 3)", thorough=[3])
def box_boundary(H, n):
    lo, up = H.interval("x", n, strict=True)
    x = H.between("x", lo, up)
    H.cover()
    c = utils.box_boundary(lo, up)
    s = H.cnstr_system(c, x)
    xs, l, u = H.vecl(x), H.vecl(lo), H.vecl(up)
    on = H.or_(*[H.or_(xs[i] == l[i], xs[i] == u[i]) for i in range(n)])
    if H.holds(on):
        done = None
        los = [xs[i] == l[i] for i in range(n)]
        ups = [xs[i] == u[i] for i in range(n)]
        pick = []
        for e in ups + los:
            f = e if done is None else H.and_(e, H.not_(done))
            pick.append(H.ite(f, 1., 0.))
            done = e if done is None else H.or_(done, e)
        H.exists("boundary point feasible", s, pick)
    else:
        # interior points are excluded for every binary assignment
        H.entail("interior excluded", s, {}, 0., 1., "ge")


@case("C04", ["utils.minkowski_sum"], params=[(1, 2), (2, 2)],
      scope="at most 2x2 points of dimension 2")
def minkowski(H, a, b):
    x = H.tensor("x", a, 2)
    y = H.tensor("y", b, 2)
    H.cover()
    z = utils.minkowski_sum(x, y)
    H.shape("shape", z, (a * b, 2))
    X, Y, Z = H.matl(x), H.matl(y), H.matl(z)
    for p in X:
        for q in Y:
            H.true("member", H.or_(*[H.and_(*[r[k] == p[k] + q[k]
                                              for k in range(2)])
                                     for r in Z]))
    for r in Z:
        H.true("only", H.or_(*[H.and_(*[r[k] == p[k] + q[k]
                                        for k in range(2)])
                               for p in X for q in Y]))
