"""A stand-in for the part of cvxpy this repository uses (linear programs and
least squares), on top of the gurobipy stand-in: a Problem is turned into a
gurobi_core.Model and solved by its optimize()."""
import types
import numpy as np
from . import gurobi_core as G

PROBLEMS = []


def _arr(x):
    if hasattr(x, "detach"):
        x = x.detach().numpy()
    return np.asarray(x, dtype=object)


def _lin(x):
    return x if isinstance(x, G.LinExpr) else G.LinExpr(x)


class Expr:
    """An array of affine expressions {variable: coefficient} + constant."""
    __array_ufunc__ = None
    _is_expr = True
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e  # object ndarray of LinExpr over _Sym variables

    shape = property(lambda s: s.e.shape)

    @property
    def value(self):
        r = []
        for e in self.e.reshape(-1):
            t = _lin(e).const
            for v, k in _lin(e).c.items():
                if v.owner.value is None:
                    return None
                t = t + k * np.asarray(v.owner.value, dtype=object).reshape(
                    -1)[v.index]
            r.append(t)
        a = _value(r, self.e.shape)
        return a if self.e.shape else a[()]

    @value.setter
    def value(self, v):
        raise AttributeError("value of an expression")

    def __getitem__(self, i):
        return Expr(np.asarray(self.e[i], dtype=object))

    def _bin(self, o, f):
        oe = o.e if isinstance(o, Expr) else _arr(o)
        a, b = np.broadcast_arrays(self.e, oe)
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape):
            out[ix] = f(_lin(a[ix]), _lin(b[ix]))
        return Expr(out)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __neg__(self):
        return self * -1.

    def __mul__(self, k):
        kk = _arr(k)
        if self.e.size != 1 and kk.size != 1 and self.e.shape != kk.shape:
            raise ValueError("Cannot broadcast dimensions")
        e, kk = np.broadcast_arrays(self.e, kk)
        out = np.empty(e.shape, dtype=object)
        for ix in np.ndindex(*e.shape):
            out[ix] = e[ix] * kk[ix]
        return Expr(out)

    __rmul__ = __mul__

    def __rmatmul__(self, A):
        A = _arr(A)
        if self.e.ndim != 1:
            raise NotImplementedError("cvx: matrix variables")
        rows = A.reshape((1, -1)) if A.ndim == 1 else A
        if rows.shape[1] != self.e.shape[0]:
            raise ValueError("Incompatible dimensions")
        out = np.empty((rows.shape[0], ), dtype=object)
        for i in range(rows.shape[0]):
            s = G.LinExpr()
            for j in range(rows.shape[1]):
                s = s + self.e[j] * rows[i, j]
            out[i] = s
        return Expr(out[0:1].reshape(()) if A.ndim == 1 else out)

    def __matmul__(self, A):
        return Expr(self.e).__rmatmul__(_arr(A).T)

    def __le__(self, o):
        return Con((self - o).e, "<")

    def __ge__(self, o):
        return Con((self - o).e, ">")

    def __eq__(self, o):
        return Con((self - o).e, "=")

    __hash__ = None


class Con:

    def __init__(self, e, sense):
        self.e = e
        self.sense = sense


class _Sym(G.Var):
    """A variable before it belongs to a model."""

    def __init__(self, owner, i):
        G.Var.__init__(self, None, i, None, None, "C", f"x{i}")
        self.owner = owner


class Variable(Expr):
    value = None

    def __init__(self, shape=(), **kw):
        if kw:
            raise NotImplementedError("cvx.Variable: " + ",".join(kw))
        shape = (shape, ) if isinstance(shape, int) else tuple(shape)
        e = np.empty(shape, dtype=object)
        self._vars = []
        for k, ix in enumerate(np.ndindex(*shape)):
            v = _Sym(self, k)
            self._vars.append(v)
            e[ix] = G.LinExpr(1., v)
        Expr.__init__(self, e)
        self.value = None


class Quad:

    def __init__(self, es):
        self.es = es


def sum_squares(x):
    return Quad([_lin(e) for e in x.e.reshape(-1)])


def sum_(x):
    s = G.LinExpr()
    for e in x.e.reshape(-1):
        s = s + e
    return Expr(np.asarray(s, dtype=object).reshape(()))


class Maximize:
    sense = -1

    def __init__(self, e):
        self.e = e


class Minimize(Maximize):
    sense = 1


def _vars_of(e, out):
    for v in e.c:
        if all(v.owner is not w for w in out):
            out.append(v.owner)


class Problem:

    def __init__(self, objective, constraints=()):
        self.objective = objective
        self.constraints = list(constraints)
        self.status = None
        self.value = None
        PROBLEMS.append(self)

    def solve(self, solver=None, **kw):
        o = self.objective.e
        if isinstance(o, Quad):
            oes = o.es
        elif isinstance(o, Expr):
            oes = [_lin(o.e.reshape(-1)[0])]
        else:
            oes = [G.LinExpr(o)]
        owners = []
        for e in oes:
            _vars_of(e, owners)
        for c in self.constraints:
            for e in np.asarray(c.e, dtype=object).reshape(-1):
                _vars_of(e, owners)
        m = G.Model()
        m._cvx = self
        mp = {}
        for w in owners:
            for v in w._vars:
                mp[v] = m.addVar(lb=-G.GRB.INFINITY, name=v.VarName)

        m._parts = [(w, [mp[v] for v in w._vars]) for w in owners]

        def move(e):
            r = G.LinExpr()
            r.c = {mp[v]: k for v, k in e.c.items()}
            r.const = e.const
            return r

        for c in self.constraints:
            for e in np.asarray(c.e, dtype=object).reshape(-1):
                m._addc(move(e), c.sense, 0., "c")
        if isinstance(o, Quad):
            q = G.QuadExpr()
            for e in oes:
                e = move(e)
                for v, k in e.c.items():
                    for w, l in e.c.items():
                        q.add(G.QuadExpr({(v, w): k * l}))
                q.add(e * (2. * e.const) if e.c else G.LinExpr())
                q.add(G.LinExpr(e.const * e.const -
                                (2. * e.const * e.const if e.c else 0.)))
            m.setObjective(q, self.objective.sense)
        else:
            m.setObjective(move(oes[0]), self.objective.sense)
        m.optimize()
        s = m.status
        inf = float("inf")
        if s == 2:
            self.status = "optimal"
            self.value = m.ObjVal
            for w in owners:
                w.value = _value([m._solution(0, mp[v]) for v in w._vars],
                                 w.e.shape)
        elif s == 3:
            self.status = "infeasible"
            self.value = inf * self.objective.sense
        elif s == 5:
            self.status = "unbounded"
            self.value = -inf * self.objective.sense
        else:
            raise NotImplementedError(f"cvx: status {s}")
        return self.value


def _value(xs, shape):
    if G.SYMBOLIC:
        a = np.empty((len(xs), ), dtype=object)
        for i, x in enumerate(xs):
            a[i] = x
        return a.reshape(shape)
    return np.array([float(x) for x in xs]).reshape(shape)


def build():
    m = types.ModuleType("cvxpy")
    for k in ("Variable", "Problem", "Maximize", "Minimize", "sum_squares"):
        m.__dict__[k] = globals()[k]
    m.sum = sum_
    m.GUROBI = "GUROBI"
    return m
