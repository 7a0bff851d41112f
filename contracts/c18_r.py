"""The parameterisations of R."""
import numpy as np
import torch
from engine.cases import case
import neural_network_lyapunov.r_options as r_options

F = torch.float64
SPD = "r_options.SearchRwithSPDOptions."
SVD = "r_options.SearchRwithSVDOptions."
FREE = "r_options.SearchRfreeOptions."
FIX = "r_options.FixedROptions."
SIZES = [(1, 1), (2, 1), (2, 2), (3, 2), (4, 2), (3, 3)]


def spd_size(m, n):
    return n * (n + 1) // 2 + (m - n) * n


def lower(H, v, n):
    """The lower-triangular matrix stored column by column."""
    L = [[0.] * n for _ in range(n)]
    k = 0
    for j in range(n):
        for i in range(j, n):
            L[i][j] = v[k]
            k += 1
    return L


def spd_matrix(H, v, m, n, eps):
    v = H.vecl(v)
    L = lower(H, v, n)
    rows = [[H.dot(L[i], L[j]) + (eps if i == j else 0.) for j in range(n)]
            for i in range(n)]
    k = n * (n + 1) // 2
    for i in range(m - n):
        rows.append(v[k + i * n:k + (i + 1) * n])
    return rows


def same_matrix(H, name, M, want):
    H.true(name + " shape", tuple(M.shape) == (len(want), len(want[0])))
    for i, r in enumerate(want):
        for j, e in enumerate(r):
            H.eq(f"{name}[{i}][{j}]", H.el(M, i, j), e)


def tracked(H, name, opt, flat):
    """variables() lists the one tensor R() is computed from."""
    vs = opt.variables()
    H.true(name + " variables", isinstance(vs, list) and len(vs) == 1 and
           vs[0].requires_grad and vs[0] is opt.variables()[0])
    H.true(name + " not fixed", opt.fixed_R is False)
    got = H.vecl(vs[0].detach())
    H.true(name + " size", len(got) == len(flat))
    for i, (a, b) in enumerate(zip(got, flat)):
        H.eq(f"{name} variable[{i}]", a, b)


@case("C18", [SPD + f for f in ("__init__", "set_variable_value_directly",
                                "R", "variables", "extract_params")],
      params=SIZES, thorough=[(5, 3), (4, 4)], scope="R of up to 5 x 4")
def spd(H, m, n):
    eps = H.real("epsilon")
    H.assume(eps > 0)
    o = r_options.SearchRwithSPDOptions((m, n), eps)
    N = spd_size(m, n)
    v = H.nparr("variables", N)
    H.cover()
    o.set_variable_value_directly(v.copy())
    want = spd_matrix(H, v, m, n, eps)
    same_matrix(H, "R", o.R(), want)
    tracked(H, "set", o, H.vecl(v))
    # full column rank: x.R_top x = |L'x|^2 + eps |x|^2
    x = H.vecl(H.tensor("x", n))
    Rx = H.mv(o.R()[:n], x)
    L = lower(H, H.vecl(v), n)
    w = [H.dot([L[i][j] for i in range(n)], x) for j in range(n)]
    H.eq("quadratic form", H.dot(x, Rx), H.dot(w, w) + eps * H.dot(x, x))
    H.le("positive definite", eps * H.dot(x, x), H.dot(x, Rx))
    p = o.extract_params()
    H.true("saved size", tuple(p["R_size"]) == (m, n))
    H.eq("saved epsilon", p["R_epsilon"], eps)
    again = r_options.SearchRwithSPDOptions(p["R_size"], p["R_epsilon"])
    again._variables = p["R_variables"][0].detach()
    same_matrix(H, "restored", again.R(), want)
    H.raises("epsilon", lambda: r_options.SearchRwithSPDOptions(
        (m, n), -eps))
    H.raises("wide", lambda: r_options.SearchRwithSPDOptions(
        (n, m + 1), eps))
    H.raises("size", lambda: o.set_variable_value_directly(
        np.zeros((N + 1, ))))


def layout(A, order):
    """The same matrix, stored by rows or by columns."""
    return A if order == "C" else A.T.copy().T


ORDERED = [(m, n, "C") for m, n in SIZES] + [(3, 1, "F"), (4, 2, "F")]


@case("C18", [SPD + "set_variable_value", SPD + "R"], params=ORDERED,
      scope="R of up to 4 x 3, stored by rows or columns")
def spd_from_matrix(H, m, n, order):
    eps = H.real("epsilon")
    H.assume(eps > 0)
    o = r_options.SearchRwithSPDOptions((m, n), eps)
    if H.sym:
        R = H.nparr("R", m, n)
    else:
        # an admissible matrix
        v = H.tensor("v", spd_size(m, n))
        L = lower(H, H.vecl(v), n)
        for i in range(n):
            H.assume(abs(L[i][i]) > 1e-2)
        K = H.nparr("skew", n, n)
        R = np.array(spd_matrix(H, v, m, n, eps))
        R[:n] += K - K.T
    H.cover()
    asked = []

    def cholesky(M):
        """L L' equals the lower triangle of M, for the lower-triangular L
        with positive diagonal (or an exception)."""
        asked.append(M)
        k = M.shape[0]
        L = np.zeros((k, k), dtype=object)
        for i in range(k):
            for j in range(i + 1):
                L[i, j] = H.fresh("L")
            H.axiom(L[i, i] > 0, "numpy.linalg.cholesky")
        for i in range(k):
            for j in range(i + 1):
                H.axiom(H.dot(list(L[i]), list(L[j])) == M[i, j],
                        "numpy.linalg.cholesky")
        return L

    if H.sym:
        H.contract(np.linalg, "cholesky", cholesky)
    R = layout(R, order)
    keep = R.copy()
    o.set_variable_value(R)
    want = [[(H.el(keep, i, j) + H.el(keep, j, i)) / 2 for j in range(n)]
            for i in range(n)] + [[H.el(keep, i, j) for j in range(n)]
                                  for i in range(n, m)]
    same_matrix(H, "R", o.R(), want)
    for i in range(m):
        for j in range(n):
            H.eq(f"argument[{i}][{j}]", H.el(R, i, j), H.el(keep, i, j))
    vs = o.variables()
    H.true("tracked", len(vs) == 1 and vs[0].requires_grad and
           tuple(vs[0].shape) == (spd_size(m, n), ))
    H.raises("size", lambda: o.set_variable_value(np.zeros((m + 1, n))))


def usv(H, U, s, V, m, n):
    r = min(m, n)
    return [[sum((H.el(U, i, k) * s[k] * H.el(V, k, j) for k in range(r)),
                 0.) for j in range(n)] for i in range(m)]


SVD_SIZES = SIZES[:4] + [(1, 2), (2, 3), (3, 3)]


@case("C18", [SVD + f for f in ("__init__", "set_variable_value_directly",
                                "R", "variables", "extract_params")],
      params=SVD_SIZES, scope="R of up to 3 x 3")
def svd(H, m, n):
    r = min(m, n)
    a = H.nparr("a", r)
    for e in H.vecl(a):
        H.assume(e > 0)
    o = r_options.SearchRwithSVDOptions((m, n), a.copy())
    v = H.nparr("variables", r)
    H.cover()
    H.true("trainable", o.variables()[0].requires_grad)
    o.set_variable_value_directly(v.copy())
    s = [x + y * y for x, y in zip(H.vecl(a), H.vecl(v))]
    eye = [np.array([[1. if i == j else 0. for j in range(k)]
                     for i in range(k)]) for k in (m, n)]
    same_matrix(H, "identity factors", o.R(), usv(H, eye[0], s, eye[1], m, n))
    tracked(H, "set", o, H.vecl(v))
    U, V = H.nparr("U", m, m), H.nparr("V", n, n)
    o.U, o.V = U, V
    want = usv(H, U, s, V, m, n)
    same_matrix(H, "R", o.R(), want)
    p = o.extract_params()
    H.true("saved size", tuple(p["R_size"]) == (m, n))
    again = r_options.SearchRwithSVDOptions(p["R_size"], p["R_a"])
    again.U, again.V = p["R_U"], p["R_V"]
    again.set_variable_value_directly(v.copy())
    same_matrix(H, "restored", again.R(), want)
    for bad in (0., -1.):
        b = a.copy()
        b[-1] = bad
        H.raises(f"a = {bad}", lambda: r_options.SearchRwithSVDOptions(
            (m, n), b))
    H.raises("size", lambda: o.set_variable_value_directly(
        np.zeros((r + 1, ))))


@case("C18", [SVD + "R"], params=[(2, 2), (3, 2)],
      scope="R of 2 or 3 x 2; every orthogonal U, V of size 2 (the third "
      "direction of U kept)")
def svd_full_rank(H, m, n):
    """R x = 0 only at x = 0."""
    a = H.nparr("a", 2)
    for e in H.vecl(a):
        H.assume(e > 0)
    o = r_options.SearchRwithSVDOptions((m, n), a.copy())
    o.set_variable_value_directly(H.nparr("variables", 2))

    def orthogonal(name):
        c, s = H.real(name + ".c", -1., 1.), H.real(name + ".s", -1., 1.)
        if not H.sym:
            t = c * 3
            c, s = float(np.cos(t)), float(np.sin(t))
        if H.sym:
            H.assume(c * c + s * s == 1.)
        d = H.choice(name + ".d", [1., -1.])
        return [[c, -d * s], [s, d * c]]

    U2, V = orthogonal("U"), orthogonal("V")
    U = [r + [0.] * (m - 2) for r in U2] + [
        [0., 0., 1.] for _ in range(m - 2)]
    o.U, o.V = np.array(U), np.array(V)
    H.cover()
    R = o.R()
    det = H.el(R, 0, 0) * H.el(R, 1, 1) - H.el(R, 0, 1) * H.el(R, 1, 0)
    s = [x + y * y for x, y in zip(H.vecl(a), H.vecl(o.variables()[0].detach()))]
    dU, dV = [M[0][0] * M[1][1] - M[0][1] * M[1][0] for M in (U2, V)]
    H.eq("determinant", det, dU * dV * s[0] * s[1])
    H.eq("U", dU * dU, 1.)
    H.eq("V", dV * dV, 1.)
    for i in range(2):
        H.le(f"singular value {i}", H.el1(a, i), s[i])


@case("C18", [SVD + "set_variable_value", SVD + "R"],
      params=[(m, n, "C") for m, n in SVD_SIZES] + [(3, 2, "F")],
      scope="R of up to 3 x 3, stored by rows or columns")
def svd_from_matrix(H, m, n, order):
    r = min(m, n)
    a = H.nparr("a", r)
    for e in H.vecl(a):
        H.assume(e > 0)
    o = r_options.SearchRwithSVDOptions((m, n), a.copy())
    R = H.nparr("R", m, n)
    if not H.sym:
        H.assume(np.all(np.linalg.svd(R)[1] >= a))
    R = layout(R, order)
    keep = R.copy()
    H.cover()
    given = []

    def svd_(M):
        """M = U diag(s) V with s descending and nonnegative (U and V
        orthogonal, which R() does not need)."""
        U, V = np.zeros((m, m), dtype=object), np.zeros((n, n), dtype=object)
        for A in (U, V):
            for ix in np.ndindex(*A.shape):
                A[ix] = H.fresh("uv")
        s = np.zeros((r, ), dtype=object)
        for i in range(r):
            s[i] = H.fresh("s")
            H.axiom(s[i] >= 0., "numpy.linalg.svd")
            if i:
                H.axiom(s[i] <= s[i - 1], "numpy.linalg.svd")
        want = usv(H, U, list(s), V, m, n)
        for i in range(m):
            for j in range(n):
                H.axiom(want[i][j] == M[i, j], "numpy.linalg.svd")
        given.append((U, s, V))
        return U, s, V

    if H.sym:
        H.contract(np.linalg, "svd", svd_)
    try:
        o.set_variable_value(R)
    except AssertionError:
        s = H.vecl(given[0][1]) if H.sym else H.vecl(np.linalg.svd(R)[1])
        H.true("rejected", H.or_(*[x < y for x, y in zip(s, H.vecl(a))]))
        return
    if H.sym:
        for i, (x, y) in enumerate(zip(H.vecl(given[0][1]), H.vecl(a))):
            H.le(f"accepted[{i}]", y, x)
    same_matrix(H, "R", o.R(), [[H.el(keep, i, j) for j in range(n)]
                                for i in range(m)])
    vs = o.variables()
    H.true("tracked", len(vs) == 1 and vs[0].requires_grad and
           tuple(vs[0].shape) == (r, ) and o.fixed_R is False)
    H.raises("size", lambda: o.set_variable_value(np.zeros((m + 1, n))))


@case("C18", [FREE + f for f in ("__init__", "set_variable_value",
                                 "set_variable_value_directly", "R",
                                 "variables", "extract_params")] +
      [FIX + f for f in ("__init__", "R", "variables")],
      params=[(m, n, "C") for m, n in SVD_SIZES] + [(2, 2, "F")],
      scope="R of up to 3 x 3, stored by rows or columns")
def free_and_fixed(H, m, n, order):
    M, M2 = H.nparr("R", m, n), H.nparr("R2", m, n)
    o = r_options.SearchRfreeOptions((m, n))
    H.cover()
    for k, (f, A) in enumerate((
            (o.set_variable_value, M), (o.set_variable_value_directly, M2))):
        f(layout(A.copy(), order))
        want = H.matl(A)
        same_matrix(H, f"R {k}", o.R(), want)
        tracked(H, f"set {k}", o, H.vecl(A))
        H.true(f"live {k}", o.R() is o.variables()[0])
        H.raises(f"size {k}", lambda: f(np.zeros((m + 1, n))))
    H.true("saved", tuple(o.extract_params()["R_size"]) == (m, n))
    T = H.tensor("fixed", m, n)
    o = r_options.FixedROptions(T)
    same_matrix(H, "fixed R", o.R(), H.matl(T))
    H.true("fixed", o.fixed_R is True and o.variables() == [] and
           not o.extract_params())
    H.raises("not a tensor", lambda: r_options.FixedROptions(M))
