"""Deductive back end of the contract interface."""
import math
import itertools
import time
import numpy as np
from . import cases, sym, prover, stubs
from .sym import Sc, f_and, f_or, f_eq, to_f
from .h_common import HBase


class Obligation:
    __slots__ = ("name", "status", "backend", "secs", "model", "text",
                 "hint", "abstract", "npaths")

    def __init__(self, name, status, backend, secs, model=None, text="",
                 hint=False, abstract=False):
        self.name = name
        self.status = status
        self.backend = backend
        self.secs = secs
        self.model = model
        self.text = text
        self.hint = hint
        self.abstract = abstract


class SymH(HBase):
    sym = True

    def __init__(self, path, budget=12., deadline=None):
        self.path = path
        self.obl = []
        self.budget = budget
        self.choices = {}
        self.covers = set()
        self.contracts = []
        self.assumed = set()
        self.deadline = deadline
        self._n = 0
        self._nopt = 0
        self._solver = None
        from . import gurobi_core
        gurobi_core._symbolic_optimize = self._optimize

    # ---- the assumed contract of the solver
    def solver(self, witness=None, statuses=("OPTIMAL", "INFEASIBLE",
                                             "UNBOUNDED"),
               solution=False, pool=1, on_solve=None):
        """Assumed contract of Model.optimize() from here on.

        witness(model) -> {Var: value}, a list of such points, or None:
        ghost points.  Each is first proved to satisfy every row and bound;
        then the status is not INFEASIBLE and an optimal value is no worse
        than the objective there.
        solution: also assume that the reported point satisfies every row.
        """
        self.assumed.add(
            "gurobi: a status of OPTIMAL reports a feasible point whose "
            "objective is no worse than that of any feasible point; "
            "INFEASIBLE is reported only when there is none")
        self._solver = (witness, list(statuses), solution, pool, on_solve)

    def _optimize(self, m, cb):
        if self._solver is None:
            raise sym.Unsupported("optimize() outside a solver contract")
        wf, statuses, solution, pool, on_solve = self._solver
        k = self._nopt
        self._nopt += 1
        ws = wf(m) if wf is not None else None
        if ws is None:
            ws = []
        elif isinstance(ws, dict):
            ws = [ws]
        objs = []
        for n, w in enumerate(ws):
            s = self.model_system(m)
            pt = [w.get(v) for v in m.getVars()]
            if any(x is None for x in pt):
                self.obl.append(Obligation(
                    f"opt{k}.witness-layout", "unknown", "witness", 0.,
                    hint=True))
                raise sym.Infeasible()
            n0 = len(self.obl)
            self.exists("opt.witness", s, pt)
            if any(o.status != "proved" for o in self.obl[n0:]):
                raise sym.Infeasible()
            objs.append(self._objective(m, lambda v: w[v]))
        if objs:
            statuses = [s for s in statuses if s != "INFEASIBLE"]
        st = self.choice(f"!status{k}", statuses)
        from .gurobi_core import GRB
        m.status = getattr(GRB.Status, st)
        m._sols = []
        m.solCount = 0
        if st == "OPTIMAL" or (st == "INTERRUPTED"):
            n = pool if isinstance(pool, int) else self.choice(
                f"!pool{k}", pool)
            prev = None
            for q in range(n):
                val = self.fresh("obj")
                xs = [self.fresh("x") for _ in m._vars]
                if solution:
                    for v, x in zip(m._vars, xs):
                        if v.vtype == "B":
                            self.assume(self.or_(x == 0, x == 1))
                    s = self.model_system(m)
                    for r in s.rows:
                        self.assume(self._row_f(r[0], r[1], r[2], xs))
                    self.assume(val == self._objective(
                        m, lambda v: xs[v.index]))
                if q == 0:
                    for o in objs:
                        self.assume(val >= o if m.ModelSense == -1
                                    else val <= o)
                else:
                    self.assume(val <= prev if m.ModelSense == -1
                                else val >= prev)
                prev = val
                m._sols.append((val, xs))
            m.solCount = n
        if on_solve is not None:
            on_solve(m)

    def _objective(self, m, at):
        o = Sc.of(m._obj.const)
        for v, c in m._obj.c.items():
            o = o + c * at(v)
        for (u, v), c in (m._quad or {}).items():
            o = o + c * at(u) * at(v)
        return o

    # ---- inputs
    def real(self, name, lo=None, up=None):
        v = sym.var(name)
        if lo is not None:
            self.assume(v >= lo)
        if up is not None:
            self.assume(v <= up)
        return v

    def tensor(self, name, *shape, lo=None, up=None, dtype=None):
        from . import shim_torch as T
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = self.real(name + "".join(f"[{k}]" for k in ix), lo, up)
        return T.Tensor(a, dtype or T.float64)

    def nparr(self, name, *shape, lo=None, up=None):
        a = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            a[ix] = self.real(name + "".join(f"[{k}]" for k in ix), lo, up)
        return a

    def interval(self, name, n, strict=False):
        lo = self.tensor(name + ".lo", n)
        up = self.tensor(name + ".up", n)
        for a, b in zip(self.vecl(lo), self.vecl(up)):
            self.assume(a < b if strict else a <= b)
        return lo, up

    def between(self, name, lo, up):
        from . import shim_torch as T
        l, u = self.vecl(lo), self.vecl(up)
        out = np.empty((len(l), ), dtype=object)
        for i in range(len(l)):
            out[i] = self.real(f"{name}[{i}]")
            self.assume(l[i] <= out[i])
            self.assume(out[i] <= u[i])
        return T.Tensor(out, T.float64)

    def choice(self, name, options):
        options = list(options)
        i = self.path.choose(len(options)) if len(options) > 1 else 0
        self.choices[name] = i
        return options[i]

    def bit(self, name):
        return self.choice(name, [0, 1])

    def fresh(self, base="f"):
        self._n += 1
        return sym.var(f"!{base}{self._n}")

    def uninterp(self, name, *args):
        return sym.uf(name, *[self.scalar(a) for a in args])

    # ---- conversions
    def scalar(self, t):
        if hasattr(t, "_is_tensor"):
            t = t.detach()
            return Sc.of(t._one())
        if isinstance(t, np.ndarray):
            t = t.reshape(-1)
            assert t.size == 1
            t = t[0]
        if isinstance(t, Sc) and t.sp is None:
            return Sc(sym.thaw(t.p))
        return Sc.of(t)

    def vecl(self, t):
        if hasattr(t, "_is_tensor"):
            return [self.scalar(x) for x in
                    np.asarray(t.detach().a, dtype=object).reshape(-1)]
        if isinstance(t, np.ndarray):
            return [self.scalar(x) for x in t.reshape(-1)]
        if isinstance(t, (list, tuple)):
            return [self.scalar(x) for x in t]
        return [self.scalar(t)]

    def isinf(self, x):
        if isinstance(x, float):
            return math.isinf(x)
        if hasattr(x, "a"):
            x = self.scalar(x)
        return isinstance(x, Sc) and x.sp is not None

    def sign_of_inf(self, x):
        if isinstance(x, float):
            return 1 if x > 0 else -1
        if hasattr(x, "a"):
            x = self.scalar(x)
        return 1 if x.sp == "inf" else -1

    def num(self, x):
        return Sc.of(x)

    def max(self, *a):
        r = self.scalar(a[0])
        for b in a[1:]:
            r = sym.smax(r, self.scalar(b))
        return r

    def min(self, *a):
        return -self.max(*[-self.scalar(x) for x in a])

    def ite(self, c, a, b):
        return sym.ite(to_f(c), self.scalar(a), self.scalar(b))

    def sin(self, x):
        return self.scalar(x).sin()

    def cos(self, x):
        return self.scalar(x).cos()

    def exp(self, x):
        return self.scalar(x).exp()

    def log(self, x):
        return self.scalar(x).log()

    def sqrt(self, x):
        return self.scalar(x).sqrt()

    def and_(self, *fs):
        return f_and([to_f(f) for f in fs])

    def or_(self, *fs):
        return f_or([to_f(f) for f in fs])

    def not_(self, f):
        return to_f(f).neg()

    def implies(self, a, b):
        return f_or([to_f(a).neg(), to_f(b)])

    def holds(self, f):
        """Branch on a condition."""
        return bool(to_f(f))

    # ---- assumptions / obligations
    def assume(self, f):
        f = sym.thaw_f(to_f(f))
        self.path.assume(f)
        if not self.path.feasible():
            raise sym.Infeasible()

    def axiom(self, f, why):
        """Assumed contract of a dependency; listed in the evidence."""
        self.assumed.add(why)
        self.assume(f)

    def cover(self, name="reached"):
        if self.path.feasible():
            self.covers.add(name)

    def _prove(self, name, facts, goal, hint=False):
        goal = sym.thaw_f(goal)
        facts = [sym.thaw_f(f) for f in facts]
        if self.deadline is not None and time.time() > self.deadline:
            self.obl.append(Obligation(name, "unknown", "timeout", 0.,
                                       text=goal.text()[:300], hint=hint))
            return False
        b = self.budget
        if self.deadline is not None:
            b = max(1., min(b, self.deadline - time.time()))
        r = prover.prove(facts, goal, b)
        o = Obligation(name, r.status, r.backend, r.secs,
                       text=goal.text()[:400], hint=hint)
        if r.status == "refuted":
            allf = facts + [goal]
            o.abstract = any(
                sym.get_atom(i).kind in ("sin", "cos", "exp", "fn", "uf")
                for i in prover.closure_atoms(allf))
            o.model = prover.nice_model(facts, goal) or r.model
        elif r.status == "unknown":
            o.model = r.model
        self.obl.append(o)
        return r.status == "proved"

    def true(self, name, cond, hint=False):
        f = to_f(cond)
        ok = self._prove(name, self.path.facts, f, hint)
        if ok and f.op != "const":
            self.path.assume(sym.thaw_f(f))
        return ok

    check = true

    def carries(self, name, values, params):
        """No value depends on a parameter other than through its leaf."""
        raw = set()
        for p in params:
            for x in p.a.reshape(-1):
                raw |= set(sym.thaw(Sc.of(x).poly()).atoms())

        def frozen(p):
            for a in p.atoms():
                at = sym.get_atom(a)
                if at.kind == "leaf":
                    continue
                if a in raw or any(frozen(q) for q in at.args
                                   if isinstance(q, sym.Poly)):
                    return True
            return False

        for i, v in enumerate(values):
            v = Sc.of(v._one() if hasattr(v, "_one") else v)
            self.true(f"{name}: number {i} carries its gradient",
                      v.sp is not None or not frozen(v.p))

    def eq(self, name, a, b, tol=None, hint=False):
        a, b = self.scalar(a), self.scalar(b)
        if a.sp or b.sp:
            return self.true(name, a.sp == b.sp, hint)
        return self.true(name, f_eq(sym.thaw(a.p), sym.thaw(b.p)), hint)

    def le(self, name, a, b, tol=None, hint=False):
        return self.true(name, self.scalar(a) <= self.scalar(b), hint)

    def lt(self, name, a, b, hint=False):
        return self.true(name, self.scalar(a) < self.scalar(b), hint)

    def raises(self, name, fn, excs=(Exception, )):
        try:
            fn()
        except (sym.Unsupported, sym.Infeasible):
            raise
        except tuple(excs):
            return self.true(name, True)
        return self.true(name, False)

    def runs(self, name, fn):
        return fn()

    # ---- linear systems
    def _row_f(self, co, sense, rhs, point):
        s = Sc.of(0.)
        for i, k in co.items():
            s = s + self.scalar(k) * point[i]
        rhs = self.scalar(rhs)
        if sense == "<":
            return s <= rhs
        if sense == ">":
            return s >= rhs
        return s == rhs

    def entail(self, name, sysm, co, k, expected, op="eq", where=(),
               given=None):
        """Every solution of the system has  co.v + k  op  expected.

        where: further constraints (rows) assumed."""
        rows = list(sysm.rows) + list(where)
        n = len(sysm.kinds)
        given = given or {}
        bins = [i for i in range(n) if sysm.kinds[i] == "B" and
                i not in given]
        pt = [None] * n
        for i in range(n):
            if i in given:
                pt[i] = self.scalar(given[i])
            elif sysm.kinds[i] == "C":
                pt[i] = self.fresh("s")
        expected = self.scalar(expected)
        for combo in itertools.product((0, 1), repeat=len(bins)):
            for i, z in zip(bins, combo):
                pt[i] = Sc.of(z)
            fs = []
            dead = False
            for r in rows:
                f = self._row_f(r[0], r[1], r[2], pt)
                if f.op == "const":
                    if not f.p:
                        dead = True
                        break
                    continue
                fs.append(sym.thaw_f(f))
            if dead:
                continue
            e = self.expr_at(co, self.scalar(k), pt)
            g = {"eq": lambda: e == expected, "le": lambda: e <= expected,
                 "ge": lambda: e >= expected}[op]()
            self._prove(name + ("" if not bins else
                                "/z=" + "".join(map(str, combo))),
                        self.path.facts + fs, g)

    def exists(self, name, sysm, witness, eqs=()):
        """The system, with the extra equations eqs = [(co, k, value)], has
        a solution; witness proves it."""
        pt = [self.scalar(w) for w in witness]
        if len(pt) != len(sysm.kinds):
            self.obl.append(Obligation(name, "unknown", "witness-layout", 0.,
                                       hint=True))
            return
        for i, k in enumerate(sysm.kinds):
            if k == "B":
                self.true(f"{name}.bin{i}", self.or_(pt[i] == 0,
                                                     pt[i] == 1), hint=True)
        for j, r in enumerate(sysm.rows):
            f = self._row_f(r[0], r[1], r[2], pt)
            self._prove(f"{name}.row:{r[3]}", self.path.facts, f, hint=True)
        for j, (co, k, val) in enumerate(eqs):
            e = self.expr_at(co, self.scalar(k), pt)
            self.eq(f"{name}.val{j}", e, val, hint=True)

    def satisfied(self, name, sysm, point):
        """The given point satisfies every row."""
        self.exists(name, sysm, point)

    # ---- contracts of callees
    def contract(self, owner, attr, spec, functions=""):
        if not hasattr(owner, attr):
            return
        old = getattr(owner, attr)
        if stubs.is_code(old):
            spec = stubs.as_called(old, spec)
        cases.by_contract(owner, attr)
        self.contracts.append((owner, attr, old,
                               attr in getattr(owner, "__dict__", {})))
        setattr(owner, attr, spec)

    def undo(self):
        for owner, attr, old, had in reversed(self.contracts):
            if had:
                setattr(owner, attr, old)
            else:
                delattr(owner, attr)
        self.contracts = []

    def only_concrete(self):
        """Stop the deductive run here."""
        raise sym.Infeasible()
