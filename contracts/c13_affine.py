"""Control-affine plants: encodings of the drift and of the actuation."""
import torch
from engine.cases import case
from contracts import dyn, mip
from contracts.c10_hybrid import patched
from contracts.c11_relu_system import about
from contracts.dyn import IA, LP, MIP, Phi
import neural_network_lyapunov.control_affine_system as cas
import neural_network_lyapunov.gurobi_torch_mip as gtm

F = torch.float64
PARTS = ("input", "slack", "binary")


def boxes(H, nx, nu):
    x, u = H.tensor("x", nx), H.tensor("u", nu)
    lo, up = about(H, "x", [H.vecl(x)])
    ulo, uup = H.tensor("ulo", nu), None
    uup = dyn.vec([a + H.real(f"uw{i}", 0.)
                   for i, a in enumerate(H.vecl(ulo))])
    return x, u, lo, up, ulo, uup


def rows_of(H, c, v):
    """[(sense, gap)] of a constraint set, and its output, at the values v
    (input, slack, binary)."""
    out = []
    for kind, sense in (("in", "<"), ("eq", "=")):
        rhs = getattr(c, "rhs_" + kind)
        if rhs is None:
            H.true("no rows", all(getattr(c, f"A{kind}_{a}") is None
                                  for a in PARTS))
            continue
        g = [-b for b in H.vecl(rhs)]
        for a, w in zip(PARTS, v):
            A = getattr(c, f"A{kind}_{a}")
            if A is not None:
                H.true("columns", A.shape[1] == len(w))
                g = [p + q for p, q in zip(g, H.mv(A, w))]
        out += [(sense, t) for t in g]
    return out


def output_of(H, c, v, n):
    y = [H.num(0.)] * n
    for a, w in zip(PARTS, v):
        A = getattr(c, "Aout_" + a)
        if A is not None:
            H.true("output shape", tuple(A.shape) == (n, len(w)))
            y = [p + q for p, q in zip(y, H.mv(A, w))]
    if c.Cout is not None:
        H.true("output length", tuple(c.Cout.shape) == (n, ))
        y = [p + q for p, q in zip(y, H.vecl(c.Cout))]
    return y


def dynamics(H, s, x, u, f, G, ulo, uup):
    """xdot = f + G clamp(u)"""
    nu = len(H.vecl(ulo))
    cl = [H.clampv(a, lo, up) for a, lo, up in zip(
        H.vecl(u), H.vecl(ulo), H.vecl(uup))]
    want = [a + sum((G[i * nu + j] * cl[j] for j in range(nu)), H.num(0.))
            for i, a in enumerate(f)]
    H.eqv("dynamics", s.dynamics(x, u), want)


@case("C13", ["control_affine_system.LinearSystem." + f for f in (
    "__init__", "mixed_integer_constraints", "f", "G")] + [
        "control_affine_system.ControlPiecewiseAffineSystem." + f for f in (
            "__init__", "dynamics", "x_dim", "u_dim", "x_lo_all",
            "x_up_all")],
      params=[(1, 1), (2, 1), (2, 2), (1, 2)],
      scope="the listed numbers of states and controls")
def linear(H, nx, nu):
    x, u, lo, up, ulo, uup = boxes(H, nx, nu)
    A, B = H.tensor("A", nx, nx), H.tensor("B", nx, nu)
    s = cas.LinearSystem(A, B, lo, up, ulo, uup)
    H.cover()
    xv = H.vecl(x)
    f = H.mv(A, xv)
    G = [H.el(B, i, j) for i in range(nx) for j in range(nu)]
    H.eqv("f", s.f(x), f)
    H.eqv("G", s.G(x).reshape((-1, )), G)
    H.true("G shape", tuple(s.G(x).shape) == (nx, nu))
    dynamics(H, s, x, u, f, G, ulo, uup)
    H.true("dimensions", s.x_dim == nx and s.u_dim == nu)
    H.eqv("lower limits", s.x_lo_all, lo)
    H.eqv("upper limits", s.x_up_all, up)
    r = s.mixed_integer_constraints()
    for name, c, n, want in (("f", r.mip_cnstr_f, nx, f),
                             ("G", r.mip_cnstr_G, nx * nu, G)):
        H.true(name + ".no rows", rows_of(H, c, (xv, [], [])) == [])
        H.eqv(name + ".output", output_of(H, c, (xv, [], []), n), want)
    H.lev("f lower", r.f_lo, f)
    H.lev("f upper", f, r.f_up)
    H.lev("G lower", r.G_flat_lo, G)
    H.lev("G upper", G, r.G_flat_up)


def arbitrary(H, name, nin, nout, has):
    """An arbitrary constraint set with the parts in `has`."""
    c = gtm.MixedIntegerConstraintsReturn()
    n = dict(input=nin, slack=1, binary=1)
    for k in ("in", "eq"):
        for a in PARTS:
            if k + a[0] in has:
                setattr(c, f"A{k}_{a}", H.tensor(f"{name}.{k}.{a}", 1, n[a]))
        if any(h.startswith(k) for h in has):
            setattr(c, "rhs_" + k, H.tensor(f"{name}.{k}.rhs", 1))
    for a in PARTS:
        if "o" + a[0] in has:
            setattr(c, "Aout_" + a, H.tensor(f"{name}.out.{a}", nout, n[a]))
    if "c" in has:
        c.Cout = H.tensor(name + ".Cout", nout)
    if "b" in has:
        c.binary_lo, c.binary_up = H.tensor(name + ".bl", 1), \
            H.tensor(name + ".bu", 1)
    if "B" in has:
        c.input_lo, c.input_up = H.tensor(name + ".il", nin), \
            H.tensor(name + ".iu", nin)
    return c


SETS = [("ini", "ins", "inb", "eqi", "eqs", "eqb", "oi", "os", "ob", "c"),
        ("ini", "ins", "os", "c"), ("oi", ), ("c", ), ("os", "ins", "inb"),
        ("ini", "inb", "ob", "c", "b"), ("eqi", "eqb", "eqs", "oi", "c", "B"),
        ("os", "ins"), ("ob", "inb", "c"), ("oi", "os", "ins")]


@case("C13", ["control_affine_system.SecondOrderControlAffineSystem." + f
              for f in ("__init__", "mixed_integer_constraints", "f", "G")],
      params=[(i, (i + 3 * k) % len(SETS), nq, nu)
              for i in range(len(SETS)) for k, (nq, nu) in
              enumerate(((1, 1), (1, 2), (2, 1)))],
      scope="one row, slack and binary per part; the listed sizes")
def second_order(H, ka, kb, nq, nu):
    nx = 2 * nq
    x, u, lo, up, ulo, uup = boxes(H, nx, nu)
    s = cas.SecondOrderControlAffineSystem(lo, up, ulo, uup)
    a = arbitrary(H, "a", nx, nq, SETS[ka])
    b = arbitrary(H, "b", nx, nq * nu, SETS[kb])
    ends = [H.tensor(k, n) for k, n in (("alo", nq), ("aup", nq),
                                        ("blo", nq * nu), ("bup", nq * nu))]
    av, bv = H.tensor("av", nq), H.tensor("bv", nq * nu)
    s._mixed_integer_constraints_v = lambda: (a, b, *ends)
    s.a = lambda z: av
    s.b = lambda z: bv.reshape((nq, nu))
    xv = H.vecl(x)
    v = (xv, [H.real("s")], [H.real("z")])
    H.cover()
    zero = [H.num(0.)] * (nq * nu)
    before = [(rows_of(H, c, v), output_of(H, c, v, n))
              for c, n in ((a, nq), (b, nq * nu))]
    r = s.mixed_integer_constraints()
    for name, new, old, n, (rows, out), first in (
            ("f", r.mip_cnstr_f, a, nq, before[0], xv[nq:]),
            ("G", r.mip_cnstr_G, b, nq * nu, before[1], zero)):
        mip.same_rows(H, name + ".rows", rows_of(H, new, v), rows)
        H.eqv(name + ".output", output_of(H, new, v, 2 * n),
              list(first) + out)
        for k in ("binary_lo", "binary_up", "input_lo", "input_up",
                  "slack_lo", "slack_up"):
            if hasattr(old, k):
                t = getattr(old, k)
                H.true(f"{name}.{k} kept", (getattr(new, k) is None) ==
                       (t is None))
                if t is not None:
                    H.same_tensor(f"{name}.{k}", getattr(new, k), t)
        # the sizes that the caller asks for
        H.true(name + ".sizes", new.num_slack() == old.num_slack() and
               new.num_binary() == old.num_binary() and
               new.num_out() == 2 * n)
        H.eqv(name + ".given output", output_of(H, old, v, n), out)
    H.eqv("f lower", r.f_lo, H.vecl(lo)[nq:] + H.vecl(ends[0]))
    H.eqv("f upper", r.f_up, H.vecl(up)[nq:] + H.vecl(ends[1]))
    H.eqv("G lower", r.G_flat_lo, zero + H.vecl(ends[2]))
    H.eqv("G upper", r.G_flat_up, zero + H.vecl(ends[3]))
    f = xv[nq:] + H.vecl(av)
    G = zero + H.vecl(bv)
    H.eqv("f", s.f(x), f)
    H.true("G shape", tuple(s.G(x).shape) == (nx, nu))
    H.eqv("G", s.G(x).reshape((-1, )), G)
    dynamics(H, s, x, u, f, G, ulo, uup)


@case("C13", ["control_affine_system.ReluSecondOrderControlAffineSystem." + f
              for f in ("__init__", "_mixed_integer_constraints_v", "a",
                        "b")] +
      ["control_affine_system.SecondOrderControlAffineSystem." + f
       for f in ("mixed_integer_constraints", "f", "G")] +
      ["control_affine_system.ControlPiecewiseAffineSystem.dynamics"],
      params=[(nq, nu, m) for nq, nu in ((1, 1), (1, 2), (2, 1), (2, 2))
              for m in (IA, LP, MIP)],
      scope="encodings of one slack and binary, of 2 rows; the listed sizes")
def relu_second_order(H, nq, nu, method):
    nx = 2 * nq
    x, u, lo, up, ulo, uup = boxes(H, nx, nu)
    pa, pb = Phi(H, "phi_a", nx, nq), Phi(H, "phi_b", nx, nq * nu)
    with dyn.stub_networks():
        s = cas.ReluSecondOrderControlAffineSystem(lo, up, ulo, uup, pa, pb,
                                                   method)
    for p in (pa, pb):
        p.pattern.at(x)
    H.cover()
    xv = H.vecl(x)
    zero = [H.num(0.)] * (nq * nu)
    f = xv[nq:] + pa.value(x)
    G = zero + pb.value(x)
    H.eqv("f", s.f(x), f)
    H.eqv("G", s.G(x).reshape((-1, )), G)
    dynamics(H, s, x, u, f, G, ulo, uup)
    r = s.mixed_integer_constraints()
    for name, c, p, want in (("f", r.mip_cnstr_f, pa.pattern, f),
                             ("G", r.mip_cnstr_G, pb.pattern, G)):
        p.contains(name + ".box", xv, method)
        v = (xv, p.s, p.z)
        mip.same_rows(H, name + ".rows", rows_of(H, c, v), p.gaps(*v))
        H.eqv(name + ".output", output_of(H, c, v, len(want)), want)
    H.lev("f lower", r.f_lo, f)
    H.lev("f upper", f, r.f_up)
    H.lev("G lower", r.G_flat_lo, G)
    H.lev("G upper", G, r.G_flat_up)


@case("C13", ["control_affine_system.train_control_affine_forward_model"],
      params=[(1, 1), (2, 1), (2, 2)],
      scope="batches of 3; the listed numbers of states and controls")
def trained_model(H, nx, nu):
    pf, pg = Phi(H, "phi_f", nx, nx), Phi(H, "phi_g", nx, nx * nu)
    xe, ue = H.tensor("xeq", nx), H.tensor("ueq", nu)
    seen = []

    def fit(dataset, model, fun, batch_size=None, num_epochs=None, lr=None,
            additional_variable=None, output_fun_args=None, verbose=None,
            **kw):
        seen.append((dataset, model, fun, batch_size, num_epochs, lr,
                     additional_variable, output_fun_args))

    H.cover()
    with patched(cas.utils, train_approximator=fit):
        cas.train_control_affine_forward_model(pf, pg, xe, ue, "data", 7, 0.5,
                                               batch_size=3)
    (d, model, fun, bs, ne, lr, var, args), = seen
    H.true("arguments", d == "data" and model is pf and bs == 3 and ne == 7
           and lr == 0.5 and var == [])
    X, U = H.tensor("X", 3, nx), H.tensor("U", 3, nu)

    def xdot(x, u):
        f, g = pf.value(x), pg.value(x)
        fe, ge = pf.value(xe), pg.value(xe)
        u, e = H.vecl(u), H.vecl(ue)
        return [f[i] - fe[i] + sum(
            (g[i * nu + j] * u[j] - ge[i * nu + j] * e[j]
             for j in range(nu)), H.num(0.)) for i in range(nx)]

    Y = fun(model, torch.cat((X, U), dim=1), **args)
    H.true("shape", tuple(Y.shape) == (3, nx))
    for i in range(3):
        H.eqv(f"derivative[{i}]", Y[i], xdot(X[i], U[i]))
    at = fun(model, torch.cat((xe, ue)).reshape((1, -1)), **args)
    H.eqv("equilibrium", at[0], [0.] * nx)
