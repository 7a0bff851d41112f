"""A stand-in for gurobipy, used both by the symbolic runs (coefficients are
symbolic scalars, optimize() follows an assumed contract) and by the concrete
runs (coefficients are floats, optimize() is exact by enumeration of the
integer variables plus HiGHS LPs / a small QP)."""
import itertools
import math
import types
import numpy as np

SYMBOLIC = False
_ops = types.SimpleNamespace(num=float)


def num(x):
    return _ops.num(x)


def _float(x):
    if hasattr(x, "detach"):
        x = x.detach()
    return float(x)


_ops.num = _float


class GurobiError(Exception):
    pass


class _NS:

    def __init__(self, **k):
        self.__dict__.update(k)


class _Params:

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return k


_DEFAULTS = {
    "OutputFlag": 1, "DualReductions": 1, "SolutionNumber": 0,
    "PoolSolutions": 10, "PoolSearchMode": 0, "SolutionLimit": 2000000000,
    "TimeLimit": float("inf"), "MIPGap": 1e-4, "Cutoff": float("inf"),
    "FeasibilityTol": 1e-6, "Threads": 0,
}


class GRB:
    INFINITY = 1e100
    BINARY = "B"
    CONTINUOUS = "C"
    INTEGER = "I"
    EQUAL = "="
    LESS_EQUAL = "<"
    GREATER_EQUAL = ">"
    MAXIMIZE = -1
    MINIMIZE = 1
    OPTIMAL = 2
    INFEASIBLE = 3
    INF_OR_UNBD = 4
    UNBOUNDED = 5
    Status = _NS(LOADED=1, OPTIMAL=2, INFEASIBLE=3, INF_OR_UNBD=4,
                 UNBOUNDED=5, TIME_LIMIT=9, SOLUTION_LIMIT=10,
                 INTERRUPTED=11)
    Param = _Params()
    Callback = _NS(MIPSOL=4, MIPSOL_OBJ=4002, MIPSOL_OBJBND=4004,
                   MIPSOL_OBJBST=4003, MIP=3, MIP_OBJBST=3000,
                   MIP_OBJBND=3001, MIPNODE=5, MIPNODE_STATUS=5001,
                   MIPNODE_OBJBST=5003, MIPNODE_OBJBND=5004,
                   MIPNODE_NODCNT=5005, MIPNODE_SOLCNT=5006)


class Var:

    def __init__(self, model, index, lb, ub, vtype, name):
        self.model = model
        self.index = index
        self.lb = lb
        self.ub = ub
        self.vtype = vtype
        self.VarName = name
        self.start = None
        self._x = None

    LB = property(lambda s: s.lb)
    UB = property(lambda s: s.ub)
    varName = property(lambda s: s.VarName)
    VType = property(lambda s: s.vtype)

    @property
    def Start(self):
        return self.start

    @Start.setter
    def Start(self, v):
        self.start = v

    @property
    def x(self):
        return self.model._solution(0, self)

    X = x

    @property
    def xn(self):
        return self.model._solution(int(self.model.params.get(
            "SolutionNumber", 0)), self)

    Xn = xn

    def __hash__(self):
        return id(self)

    def _e(self):
        return LinExpr(1., self)

    def __add__(self, o):
        return self._e() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._e() - o

    def __rsub__(self, o):
        return -self._e() + o

    def __neg__(self):
        return -self._e()

    def __mul__(self, o):
        if isinstance(o, Var):
            return QuadExpr({(self, o): 1.})
        return self._e() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._e() * (1 / o)

    def __le__(self, o):
        return self._e() <= o

    def __ge__(self, o):
        return self._e() >= o

    def __eq__(self, o):
        if isinstance(o, Var):
            return True if self is o else TempConstr(self._e() - o, "=")
        return self._e() == o

    def __repr__(self):
        return f"<gurobi.Var {self.VarName}>"


class LinExpr:

    def __init__(self, a=None, v=None):
        self.c = {}
        self.const = 0.
        if a is None:
            return
        if v is None:
            if isinstance(a, Var):
                self.c[a] = num(1.)
            elif isinstance(a, LinExpr):
                self.c = dict(a.c)
                self.const = a.const
            elif isinstance(a, (list, tuple)):
                for k, x in a:
                    self._add(num(k), x)
            else:
                self.const = num(a)
            return
        if isinstance(v, Var):
            self._add(num(a), v)
            return
        a = list(a)
        v = list(v)
        if len(a) != len(v):
            raise GurobiError("LinExpr: length mismatch")
        for k, x in zip(a, v):
            self._add(num(k), x)

    def _add(self, k, x):
        if not isinstance(x, Var):
            raise GurobiError("LinExpr: not a Var")
        self.c[x] = self.c[x] + k if x in self.c else k

    def copy(self):
        r = LinExpr()
        r.c = dict(self.c)
        r.const = self.const
        return r

    def __add__(self, o):
        if isinstance(o, QuadExpr):
            return o + self
        r = self.copy()
        if isinstance(o, Var):
            r._add(num(1.), o)
        elif isinstance(o, LinExpr):
            for x, k in o.c.items():
                r._add(k, x)
            r.const = r.const + o.const
        else:
            r.const = r.const + num(o)
        return r

    __radd__ = __add__

    def add(self, o, mult=1.):
        r = self + (o * mult if not isinstance(o, Var) else
                    LinExpr(mult, o))
        self.c, self.const = r.c, r.const

    def addTerms(self, c, v):
        self.add(LinExpr(c, v))

    def addConstant(self, c):
        self.const = self.const + num(c)

    def getConstant(self):
        return self.const

    def size(self):
        return len(self.c)

    def getVar(self, i):
        return list(self.c)[i]

    def getCoeff(self, i):
        return list(self.c.values())[i]

    def getValue(self):
        s = self.const
        for x, k in self.c.items():
            s = s + k * x.x
        return s

    def __neg__(self):
        return self * -1.

    def __sub__(self, o):
        return self + (-o if not isinstance(o, Var) else LinExpr(-1., o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        k = num(k)
        r = LinExpr()
        r.c = {x: v * k for x, v in self.c.items()}
        r.const = self.const * k
        return r

    __rmul__ = __mul__

    def __le__(self, o):
        return TempConstr(self - o, "<")

    def __ge__(self, o):
        return TempConstr(self - o, ">")

    def __eq__(self, o):
        return TempConstr(self - o, "=")

    __hash__ = None


class QuadExpr:

    def __init__(self, q=None):
        self.q = {}
        self.lin = LinExpr()
        if isinstance(q, dict):
            self.q = dict(q)
        elif isinstance(q, QuadExpr):
            self.q = dict(q.q)
            self.lin = q.lin.copy()
        elif q is not None:
            self.lin = LinExpr(q)

    def add(self, o, mult=1.):
        mult = num(mult)
        if isinstance(o, QuadExpr):
            for k, v in o.q.items():
                self.q[k] = self.q.get(k, 0.) + v * mult
            self.lin = self.lin + o.lin * mult
        else:
            self.lin = self.lin + LinExpr(o) * mult

    def __add__(self, o):
        r = QuadExpr(self)
        r.add(o)
        return r

    __radd__ = __add__

    def __mul__(self, k):
        r = QuadExpr()
        r.add(self, k)
        return r

    __rmul__ = __mul__

    def __sub__(self, o):
        r = QuadExpr(self)
        r.add(o, -1.)
        return r


class TempConstr:

    def __init__(self, expr, sense):
        self.expr = expr
        self.sense = sense

    def __bool__(self):
        raise TypeError("a comparison of variables is not a truth value")


class Constr:

    def __init__(self, expr, sense, rhs, name):
        # expr.c . x  sense  rhs
        self.coef = expr
        self.Sense = sense
        self.RHS = rhs
        self.ConstrName = name
        self.removed = False


class MConstr(list):

    def tolist(self):
        return list(self)


class MVar(list):

    def tolist(self):
        return list(self)


class tupledict(dict):

    def values(self):
        return list(dict.values(self))

    def select(self, *a):
        return list(dict.values(self))


def _seq(v, n):
    if hasattr(v, "tolist") and not isinstance(v, (float, int)):
        if getattr(v, "ndim", 0) == 0 and not hasattr(v, "shape"):
            return [v] * n
        if getattr(v, "ndim", 1) == 0:
            return [v] * n
        return [v[i] for i in range(len(v))]
    if isinstance(v, (list, tuple)):
        return list(v)
    return [v] * n


MODELS = []


class Model:

    def __init__(self, name=""):
        self.ModelName = name
        self._vars = []
        self._constrs = []
        self._obj = LinExpr()
        self._quad = None
        self.ModelSense = 1
        self.params = {}
        self.status = 1
        self._sols = []
        self.solCount = 0
        self.log = []  # symbolic: optimize() events
        MODELS.append(self)

    # -- building
    def _newvar(self, lb, ub, vtype, name):
        lb, ub = num(lb), num(ub)
        if vtype == "B":
            lb = _vmax(lb, 0.)
            ub = _vmin(ub, 1.)
        v = Var(self, len(self._vars), lb, ub, vtype, name)
        self._vars.append(v)
        return v

    def addVar(self, lb=0., ub=GRB.INFINITY, obj=0., vtype="C", name=""):
        v = self._newvar(lb, ub, vtype, name)
        return v

    def addVars(self, n, lb=0., ub=GRB.INFINITY, obj=0., vtype="C",
                name=""):
        if not isinstance(n, int):
            n = len(list(n))
        lb, ub = _seq(lb, n), _seq(ub, n)
        vt = _seq(vtype, n) if not isinstance(vtype, str) else [vtype] * n
        if len(lb) != n or len(ub) != n:
            raise GurobiError("addVars: bounds of the wrong length")
        d = tupledict()
        for i in range(n):
            nm = f"{name}[{i}]" if isinstance(name, str) else name[i]
            d[i] = self._newvar(lb[i], ub[i], vt[i], nm)
        return d

    def addMVar(self, shape, lb=0., ub=GRB.INFINITY, obj=0., vtype="C",
                name=""):
        n = shape if isinstance(shape, int) else int(np.prod(shape))
        d = self.addVars(n, lb, ub, obj, vtype, name)
        return MVar([d[i] for i in range(n)])

    def _addc(self, expr, sense, rhs, name):
        # move the constant to the right
        r = num(rhs) - expr.const
        e = expr.copy()
        e.const = 0.
        c = Constr(e, sense[0] if sense not in ("==", "<=", ">=") else
                   {"==": "=", "<=": "<", ">=": ">"}[sense], r, name)
        for x in e.c:
            if x.model is not self:
                raise GurobiError("variable not in model")
        self._constrs.append(c)
        return c

    def addLConstr(self, expr, sense=None, rhs=None, name=""):
        if isinstance(expr, TempConstr):
            return self._addc(expr.expr, expr.sense, 0., name)
        if isinstance(rhs, (LinExpr, Var)):
            expr, rhs = expr - rhs, 0.
        if not isinstance(expr, LinExpr):
            expr = LinExpr(expr)
        return self._addc(expr, sense, rhs, name)

    def addConstr(self, expr, sense=None, rhs=None, name=""):
        if isinstance(sense, str) and rhs is None:
            name, sense = sense, None
        return self.addLConstr(expr, sense, rhs, name)

    def addMConstr(self, A, x, sense, b, name=""):
        A = A if isinstance(A, np.ndarray) else np.asarray(A, dtype=object)
        if A.ndim != 2:
            raise GurobiError("addMConstr: A must be 2-D")
        xs = list(self._vars) if x is None else list(x)
        if A.shape[1] != len(xs):
            raise GurobiError(f"addMConstr: shape mismatch {A.shape} "
                              f"{len(xs)}")
        bs = _seq(b, A.shape[0])
        if len(bs) != A.shape[0]:
            raise GurobiError("addMConstr: rhs of the wrong length")
        ss = list(sense) if not isinstance(sense, str) else \
            [sense] * A.shape[0]
        out = MConstr()
        for i in range(A.shape[0]):
            e = LinExpr([A[i, j] for j in range(A.shape[1])], xs)
            out.append(self._addc(e, ss[i], bs[i], f"{name}[{i}]"))
        return out

    addMConstrs = addMConstr

    def remove(self, c):
        if isinstance(c, (list, tuple)):
            for x in c:
                self.remove(x)
            return
        if isinstance(c, Constr):
            if c.removed or c not in self._constrs:
                raise GurobiError("constraint not in model")
            c.removed = True
            self._constrs = [k for k in self._constrs if k is not c]
        else:
            raise GurobiError("remove: unsupported")

    def update(self):
        pass

    def setObjective(self, expr, sense=None):
        if isinstance(expr, QuadExpr):
            self._quad = dict(expr.q)
            self._obj = expr.lin.copy()
        else:
            self._quad = None
            self._obj = LinExpr(expr) if not isinstance(expr, LinExpr) \
                else expr.copy()
        if sense is not None:
            self.ModelSense = sense

    def setMObjective(self, Q, c, constant, xQ_L=None, xQ_R=None, xc=None,
                      sense=None):
        e = LinExpr([c[i] for i in range(len(c))],
                    list(xc) if xc is not None else self._vars)
        e.const = num(constant)
        self.setObjective(e, sense)

    def getObjective(self):
        return self._obj.copy()

    def getVars(self):
        return list(self._vars)

    def getConstrs(self):
        return list(self._constrs)

    NumVars = property(lambda s: len(s._vars))
    NumConstrs = property(lambda s: len(s._constrs))
    numVars, numConstrs = NumVars, NumConstrs
    SolCount = property(lambda s: s.solCount)
    Status = property(lambda s: s.status)

    def getParamInfo(self, p):
        d = _DEFAULTS.get(p, 0)
        return (p, type(d), self.params.get(p, d), 0, 0, d) if False else \
            (p, type(d), self.params.get(p, d), -float("inf"),
             float("inf"), d)

    def setParam(self, p, v):
        self.params[p] = v

    def cbGet(self, what):
        return self._cb[what]

    def terminate(self):
        self._terminated = True

    def write(self, *a):
        pass

    def printStats(self):
        pass

    # -- solving
    def optimize(self, callback=None):
        if SYMBOLIC:
            return _symbolic_optimize(self, callback)
        _concrete_optimize(self)
        self._terminated = False
        if callback is not None and self.status == 2:
            o = self._sols[0][0]
            self._cb = {4002: o, 4003: o, 4004: o, 3000: o, 3001: o}
            callback(self, 4)
            if self._terminated:
                self.status = 11

    def _solution(self, k, v):
        if not self._sols:
            raise GurobiError("Unable to retrieve attribute 'x'")
        return self._sols[k][1][v.index]

    @property
    def ObjVal(self):
        if not self._sols:
            raise GurobiError("Unable to retrieve attribute 'ObjVal'")
        return self._sols[0][0]

    objVal = ObjVal

    @property
    def PoolObjVal(self):
        return self._sols[int(self.params.get("SolutionNumber", 0))][0]

    @property
    def ObjBound(self):
        return self._sols[0][0]

    # -- evaluation, used by the contracts
    def rows(self):
        """(coef dict, sense, rhs) of every constraint and bound."""
        out = [(c.coef.c, c.Sense, c.RHS, c.ConstrName)
               for c in self._constrs]
        for v in self._vars:
            if not _isinf(v.lb):
                out.append(({v: num(1.)}, ">", v.lb, f"{v.VarName}.lb"))
            elif _inf_sign(v.lb) > 0:
                out.append(({}, "<", num(-1.), f"{v.VarName}.lb infinite"))
            if not _isinf(v.ub):
                out.append(({v: num(1.)}, "<", v.ub, f"{v.VarName}.ub"))
            elif _inf_sign(v.ub) < 0:
                out.append(({}, "<", num(-1.), f"{v.VarName}.ub infinite"))
        return out


def _isinf(x):
    if SYMBOLIC:
        return x.sp is not None if hasattr(x, "sp") else math.isinf(x)
    return abs(x) >= 1e100


def _inf_sign(x):
    if SYMBOLIC and hasattr(x, "sp"):
        return 1 if x.sp == "inf" else -1
    return 1 if x > 0 else -1


def _vmax(a, b):
    if SYMBOLIC:
        from . import sym
        return sym.smax(a, b)
    return max(a, b)


def _vmin(a, b):
    if SYMBOLIC:
        from . import sym
        return sym.smin(a, b)
    return min(a, b)


_symbolic_optimize = None


# ------------------------------------------------------------- concrete solve
def real_cvxpy():
    import cvxpy
    return cvxpy


def _linprog(c, A, b, Aeq, beq, bounds):
    from scipy.optimize import linprog
    return linprog(c, A_ub=A if len(b) else None, b_ub=b if len(b) else None,
                   A_eq=Aeq if len(beq) else None,
                   b_eq=beq if len(beq) else None, bounds=bounds,
                   method="highs")


def _concrete_optimize(m):
    n = len(m._vars)
    m._sols = []
    m.solCount = 0
    A, b, Aeq, beq = [], [], [], []
    for c in m._constrs:
        row = np.zeros(n)
        for v, k in c.coef.c.items():
            row[v.index] += k
        if c.Sense == "<":
            A.append(row), b.append(c.RHS)
        elif c.Sense == ">":
            A.append(-row), b.append(-c.RHS)
        else:
            Aeq.append(row), beq.append(c.RHS)
    cost = np.zeros(n)
    for v, k in m._obj.c.items():
        cost[v.index] += k
    s = m.ModelSense
    bnds = [(None if v.lb <= -1e100 else v.lb,
             None if v.ub >= 1e100 else v.ub) for v in m._vars]
    for v, (lo, up) in zip(m._vars, bnds):
        if lo is not None and up is not None and lo > up + 1e-9:
            m.status = 3
            return
    ints = [v.index for v in m._vars if v.vtype in ("B", "I")]
    quad = m._quad if m._quad else None
    if not ints:
        r = _solve_cont(m, n, cost, s, A, b, Aeq, beq, bnds, quad)
        if r[0] != 2:
            m.status = r[0]
            return
        m._sols = [(r[1] + float(m._obj.const), r[2])]
        m.solCount = 1
        m.status = 2
        return
    pool = int(m.params.get("PoolSolutions", 10))
    sols = []
    unb = False
    p2 = int(m.params.get("PoolSearchMode", 0)) == 2
    if len(ints) <= 4 or (p2 and len(ints) <= 8) or quad:
        for combo in itertools.product(*[
                _irange(bnds[i]) for i in ints]):
            bb = list(bnds)
            for i, v in zip(ints, combo):
                bb[i] = (v, v)
            r = _solve_cont(m, n, cost, s, A, b, Aeq, beq, bb, quad)
            if r[0] == 2:
                sols.append((r[1] + float(m._obj.const), r[2]))
            elif r[0] == 5:
                unb = True
        if unb:
            m.status = 5
            return
    else:
        from scipy.optimize import milp, LinearConstraint, Bounds
        integ = np.zeros(n)
        integ[ints] = 1
        cons = []
        if b:
            cons.append(LinearConstraint(np.array(A), -np.inf, b))
        if beq:
            cons.append(LinearConstraint(np.array(Aeq), beq, beq))
        r = milp(cost * s, constraints=cons, integrality=integ,
                 bounds=Bounds([-np.inf if lo is None else lo
                                for lo, _ in bnds],
                               [np.inf if up is None else up
                                for _, up in bnds]))
        if r.status == 0:
            x = r.x.copy()
            x[ints] = np.round(x[ints])
            sols.append((float(cost @ x) + float(m._obj.const), x))
        elif r.status == 3:
            m.status = 5
            return
    if not sols:
        m.status = 3
        return
    sols.sort(key=lambda t: t[0] * s)
    if int(m.params.get("PoolSearchMode", 0)) == 2:
        sols = sols[:max(pool, 1)]
    else:
        sols = sols[:1]
    m._sols = sols
    m.solCount = len(sols)
    m.status = 2


def _irange(bd):
    lo, up = bd
    lo = 0 if lo is None else math.ceil(lo - 1e-9)
    up = 1 if up is None else math.floor(up + 1e-9)
    return range(lo, up + 1)


def _solve_cont(m, n, cost, s, A, b, Aeq, beq, bnds, quad):
    if quad is None:
        r = _linprog(cost * s, A, b, Aeq, beq, bnds)
        if r.status == 0:
            return (2, float(cost @ r.x), r.x)
        if r.status == 3:
            return (5, )
        if r.status == 4:
            # "infeasible or unbounded": decide by a feasibility problem
            r2 = _linprog(cost * 0, A, b, Aeq, beq, bnds)
            return (5, ) if r2.status == 0 else (3, )
        return (3, )
    cp = real_cvxpy()
    x = cp.Variable(n)
    Q = np.zeros((n, n))
    for (u, v), k in quad.items():
        Q[u.index, v.index] += k
    Q = (Q + Q.T) / 2
    cons = []
    if b:
        cons.append(np.array(A) @ x <= np.array(b))
    if beq:
        cons.append(np.array(Aeq) @ x == np.array(beq))
    for i, (lo, up) in enumerate(bnds):
        if lo is not None:
            cons.append(x[i] >= lo)
        if up is not None:
            cons.append(x[i] <= up)
    o = cp.quad_form(x, cp.psd_wrap(Q * s)) + (cost * s) @ x
    p = cp.Problem(cp.Minimize(o), cons)
    try:
        p.solve(solver=cp.CLARABEL)
    except Exception:
        p.solve()
    if p.status in ("optimal", "optimal_inaccurate"):
        xv = np.asarray(x.value)
        return (2, float(xv @ Q @ xv + cost @ xv), xv)
    if p.status in ("unbounded", "unbounded_inaccurate"):
        return (5, )
    return (3, )


def build(symbolic):
    """The gurobipy module object."""
    global SYMBOLIC
    SYMBOLIC = symbolic
    m = types.ModuleType("gurobipy")
    for k in ("GRB", "Var", "LinExpr", "QuadExpr", "TempConstr", "Constr",
              "MConstr", "MVar", "Model", "GurobiError", "tupledict"):
        m.__dict__[k] = globals()[k]
    m.tuplelist = list

    def quicksum(xs):
        r = LinExpr()
        for x in xs:
            r = r + x
        return r

    m.quicksum = quicksum
    if symbolic:
        from . import sym

        def conv(x):
            if hasattr(x, "_is_tensor"):
                x = x.detach()._one()
            return sym.Sc.of(x)

        _ops.num = conv
        GRB.INFINITY = float("inf")
        Model.addVar.__defaults__ = (0., float("inf"), 0., "C", "")
        Model.addVars.__defaults__ = (0., float("inf"), 0., "C", "")
        Model.addMVar.__defaults__ = (0., float("inf"), 0., "C", "")
    return m
