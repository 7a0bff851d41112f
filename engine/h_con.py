"""Concrete back end of the contract interface: the same contracts run on the
real torch / numpy with sampled or replayed inputs."""
import itertools
import math
import random
import numpy as np
import torch
from .h_common import HBase

SPECIAL = [0., 1., -1., 0.5, -0.5, 2., -2., 0.25]


class Skip(Exception):
    pass


class Violation(Exception):

    def __init__(self, name, detail):
        super().__init__(f"{name}: {detail}")
        self.name = name
        self.detail = detail


class Uninterp:
    """A fixed pseudo-random smooth function standing for an uninterpreted
    one."""


class ConH(HBase):
    sym = False

    def __init__(self, seed, presets=None, tol=1e-6):
        self.rng = random.Random(seed)
        self.presets = presets or {}
        self.values = {}
        self.pool = []
        self.tol = tol
        self.checks = 0
        self.nontrivial = 0
        self.contracts = []
        self.style = self.rng.random()

    # ---- inputs
    def _draw(self, lo, up):
        r = self.rng
        for _ in range(20):
            u = r.random()
            if u < 0.15 and self.style < 0.7:
                v = r.choice(SPECIAL)
            elif u < 0.25 and self.pool and self.style < 0.5:
                v = r.choice(self.pool) * r.choice((1, 1, -1))
            elif u < 0.7:
                v = round(r.uniform(-3, 3), 2)
            else:
                v = r.gauss(0, 1.5)
            if lo is not None and up is not None:
                if not lo <= v <= up:
                    if u < 0.3:
                        continue
                    t = r.random()
                    v = lo + (up - lo) * t
            elif lo is not None and v < lo:
                v = 2 * lo - v
            elif up is not None and v > up:
                v = 2 * up - v
            if lo is not None and v < lo:
                v = lo
            if up is not None and v > up:
                v = up
            return float(v)
        if lo is not None and up is not None:
            return float(lo + (up - lo) * r.random())
        return float(lo if lo is not None else up)

    def real(self, name, lo=None, up=None):
        if name in self.presets:
            v = float(self.presets[name])
            if lo is not None and v < float(lo) - 1e-9 or \
                    up is not None and v > float(up) + 1e-9:
                raise Skip()
        else:
            v = self._draw(None if lo is None else float(lo),
                           None if up is None else float(up))
        self.values[name] = v
        self.pool.append(v)
        return v

    def tensor(self, name, *shape, lo=None, up=None, dtype=None):
        a = np.empty(shape, dtype=float)
        for ix in np.ndindex(*shape):
            a[ix] = self.real(name + "".join(f"[{k}]" for k in ix), lo, up)
        return torch.tensor(a, dtype=dtype or torch.float64)

    def nparr(self, name, *shape, lo=None, up=None):
        a = np.empty(shape, dtype=float)
        for ix in np.ndindex(*shape):
            a[ix] = self.real(name + "".join(f"[{k}]" for k in ix), lo, up)
        return a

    def interval(self, name, n, strict=False):
        lo, up = [], []
        for i in range(n):
            a, b = f"{name}.lo[{i}]", f"{name}.up[{i}]"
            x = self.real(a)
            y = self.real(b)
            if a not in self.presets and b not in self.presets:
                if x > y:
                    x, y = y, x
                if strict and x == y:
                    y = x + 0.5
                self.values[a], self.values[b] = x, y
            if x > y or (strict and x == y):
                raise Skip()
            lo.append(x)
            up.append(y)
        return (torch.tensor(lo, dtype=torch.float64),
                torch.tensor(up, dtype=torch.float64))

    def between(self, name, lo, up):
        l, u = self.vecl(lo), self.vecl(up)
        out = []
        for i in range(len(l)):
            n = f"{name}[{i}]"
            if n in self.presets:
                v = float(self.presets[n])
                if not l[i] - 1e-9 <= v <= u[i] + 1e-9:
                    raise Skip()
                v = min(max(v, l[i]), u[i])
            else:
                if l[i] > u[i]:
                    raise Skip()
                t = self.rng.random()
                if t < 0.12:
                    v = l[i]
                elif t < 0.24:
                    v = u[i]
                elif t < 0.3 and l[i] <= 0 <= u[i]:
                    v = 0.
                else:
                    v = l[i] + (u[i] - l[i]) * self.rng.random()
            self.values[n] = v
            out.append(v)
        return torch.tensor(out, dtype=torch.float64)

    def choice(self, name, options):
        options = list(options)
        if name in self.presets:
            i = int(self.presets[name])
        else:
            i = self.rng.randrange(len(options))
        self.values[name] = i
        return options[i]

    def bit(self, name):
        return self.choice(name, [0, 1])

    def uninterp(self, name, *args):
        s = sum((i + 1) * ord(k) for i, k in enumerate(name)) % 97 / 31.
        r = math.sin(s * 3.1)
        for i, a in enumerate(args):
            a = self.scalar(a)
            r += math.sin((1.3 + 0.7 * i) * a + s + i) + 0.2 * a * (i % 3 - 1)
        return r

    # ---- conversions
    def scalar(self, t):
        if isinstance(t, torch.Tensor):
            return float(t.detach().reshape(-1)[0]) if t.numel() == 1 \
                else self._bad(t)
        if isinstance(t, np.ndarray):
            assert t.size == 1
            return float(t.reshape(-1)[0])
        return float(t)

    def _bad(self, t):
        raise Violation("shape", f"scalar expected, got {tuple(t.shape)}")

    def vecl(self, t):
        if isinstance(t, torch.Tensor):
            return [float(x) for x in t.detach().reshape(-1)]
        if isinstance(t, np.ndarray):
            return [float(x) for x in t.reshape(-1)]
        if isinstance(t, (list, tuple)):
            return [self.scalar(x) for x in t]
        return [self.scalar(t)]

    def isinf(self, x):
        return math.isinf(x) or abs(x) >= 1e100

    def sign_of_inf(self, x):
        return 1 if x > 0 else -1

    def num(self, x):
        return float(x)

    def max(self, *a):
        return max(self.scalar(x) for x in a)

    def min(self, *a):
        return min(self.scalar(x) for x in a)

    def ite(self, c, a, b):
        return self.scalar(a) if bool(c) else self.scalar(b)

    def sin(self, x):
        return math.sin(self.scalar(x))

    def cos(self, x):
        return math.cos(self.scalar(x))

    def exp(self, x):
        try:
            return math.exp(self.scalar(x))
        except OverflowError:
            return math.inf

    def log(self, x):
        return math.log(self.scalar(x))

    def sqrt(self, x):
        return math.sqrt(self.scalar(x))

    def and_(self, *fs):
        return all(bool(f) for f in fs)

    def or_(self, *fs):
        return any(bool(f) for f in fs)

    def not_(self, f):
        return not bool(f)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def holds(self, f):
        return bool(f)

    # ---- assumptions / obligations
    def assume(self, f):
        if not bool(f):
            raise Skip()

    def axiom(self, f, why):
        self.assume(f)

    def cover(self, name="reached"):
        self.nontrivial += 1

    def true(self, name, cond, hint=False):
        self.checks += 1
        if not bool(cond):
            raise Violation(name, "condition is false")

    check = true

    def _close(self, a, b, tol):
        if math.isnan(a) or math.isnan(b):
            return False
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))

    def eq(self, name, a, b, tol=None, hint=False):
        self.checks += 1
        a, b = self.scalar(a), self.scalar(b)
        if not self._close(a, b, tol or self.tol):
            raise Violation(name, f"{a!r} != {b!r}")

    def le(self, name, a, b, tol=None, hint=False):
        self.checks += 1
        a, b = self.scalar(a), self.scalar(b)
        if math.isnan(a) or math.isnan(b) or \
                a > b + (tol or self.tol) * (1 + abs(b)):
            raise Violation(name, f"{a!r} > {b!r}")

    def lt(self, name, a, b, hint=False):
        self.le(name, a, b)

    def raises(self, name, fn, excs=(Exception, )):
        self.checks += 1
        try:
            fn()
        except tuple(excs):
            return
        raise Violation(name, "no exception raised")

    def runs(self, name, fn):
        return fn()

    # ---- linear systems
    def _mats(self, sysm, extra, given=None):
        n = len(sysm.kinds)
        A, b, Aeq, beq = [], [], [], []
        for co, sense, rhs, *_ in list(sysm.rows) + list(extra):
            row = np.zeros(n)
            for i, k in co.items():
                row[i] += self.scalar(k)
            rhs = self.scalar(rhs)
            if sense == "<":
                A.append(row)
                b.append(rhs)
            elif sense == ">":
                A.append(-row)
                b.append(-rhs)
            else:
                Aeq.append(row)
                beq.append(rhs)
        return n, A, b, Aeq, beq

    def _solve(self, cost, mats, kinds, fix):
        """(status, value): 0 optimal, 2 infeasible, 3 unbounded."""
        n, A, b, Aeq, beq = mats
        if n == 0:
            ok = all(x >= -self.tol for x in b) and \
                all(abs(x) <= self.tol for x in beq)
            return (0, 0.) if ok else (2, None)
        free = [i for i in range(n) if kinds[i] == "B" and i not in fix]
        if len(free) <= 7:
            best = None
            for combo in itertools.product((0., 1.), repeat=len(free)):
                f = dict(fix)
                f.update(zip(free, combo))
                st, v = self._lp(cost, mats, f)
                if st == 3:
                    return 3, None
                if st == 0 and (best is None or v < best):
                    best = v
            return (2, None) if best is None else (0, best)
        from scipy.optimize import milp, LinearConstraint, Bounds
        lo, up = np.full(n, -np.inf), np.full(n, np.inf)
        integ = np.zeros(n)
        for i in range(n):
            if kinds[i] == "B":
                integ[i] = 1
                lo[i], up[i] = 0, 1
        for i, v in fix.items():
            lo[i] = up[i] = v
        cons = []
        if A:
            cons.append(LinearConstraint(np.array(A), -np.inf, np.array(b)))
        if Aeq:
            cons.append(LinearConstraint(np.array(Aeq), np.array(beq),
                                         np.array(beq)))
        r = milp(cost, constraints=cons, integrality=integ,
                 bounds=Bounds(lo, up))
        if r.status == 0:
            return 0, float(r.fun)
        return (3, None) if r.status == 3 else (2, None)

    def _lp(self, cost, mats, fix):
        from scipy.optimize import linprog
        n, A, b, Aeq, beq = mats
        free = [i for i in range(n) if i not in fix]
        c0 = 0.
        A_, Ae_ = np.array(A), np.array(Aeq)
        b_, be_ = np.array(b, dtype=float), np.array(beq, dtype=float)
        cost = np.asarray(cost, dtype=float)
        if fix:
            ix = list(fix)
            fv = np.array([fix[i] for i in ix])
            if len(b_):
                b_ = b_ - A_[:, ix] @ fv
            if len(be_):
                be_ = be_ - Ae_[:, ix] @ fv
            c0 = float(cost[ix] @ fv)
        # drop rows without free unknowns
        eps = 1e-7
        if len(b_):
            A_ = A_[:, free]
            nz = np.abs(A_).max(axis=1, initial=0) > 1e-12
            if np.any(b_[~nz] < -eps * 10):
                return 2, None
            A_, b_ = A_[nz], b_[nz]
        if len(be_):
            Ae_ = Ae_[:, free]
            nz = np.abs(Ae_).max(axis=1, initial=0) > 1e-12
            if np.any(np.abs(be_[~nz]) > eps * 10):
                return 2, None
            Ae_, be_ = Ae_[nz], be_[nz]
        if not free:
            return 0, c0
        # one unknown at a time: exact interval arithmetic
        if len(free) == 1 and not len(be_):
            lo, up = -math.inf, math.inf
            for a, bb in zip(A_[:, 0] if len(b_) else [], b_):
                v = bb / a
                if a > 0:
                    up = min(up, v)
                else:
                    lo = max(lo, v)
            if lo > up + 1e-7:
                return 2, None
            c = cost[free[0]]
            if c == 0:
                return 0, c0
            v = lo if c > 0 else up
            if math.isinf(v):
                return 3, None
            return 0, c0 + c * v
        r = linprog(cost[free], A_ub=A_ if len(b_) else None,
                    b_ub=b_ if len(b_) else None,
                    A_eq=Ae_ if len(be_) else None,
                    b_eq=be_ if len(be_) else None,
                    bounds=[(None, None)] * len(free), method="highs")
        if r.status == 0:
            return 0, c0 + float(r.fun)
        if r.status == 3:
            return 3, None
        if r.status == 4:
            r2 = linprog(np.zeros(len(free)),
                         A_ub=A_ if len(b_) else None,
                         b_ub=b_ if len(b_) else None,
                         A_eq=Ae_ if len(be_) else None,
                         b_eq=be_ if len(be_) else None,
                         bounds=[(None, None)] * len(free), method="highs")
            return (3, None) if r2.status == 0 else (2, None)
        return 2, None

    def entail(self, name, sysm, co, k, expected, op="eq", where=(),
               given=None, tol=1e-5):
        self.checks += 1
        mats = self._mats(sysm, where)
        cost = np.zeros(len(sysm.kinds))
        for i, c in co.items():
            cost[i] += self.scalar(c)
        k = self.scalar(k)
        expected = self.scalar(expected)
        fix = {i: self.scalar(v) for i, v in (given or {}).items()}
        t = tol * (1 + abs(expected) + abs(k))
        if op in ("eq", "ge"):
            st, v = self._solve(cost, mats, sysm.kinds, fix)
            if st == 3:
                raise Violation(name, "unbounded below")
            if st == 0 and v + k < expected - t:
                raise Violation(name, f"value {v+k!r} < {expected!r}")
        if op in ("eq", "le"):
            st, v = self._solve(-cost, mats, sysm.kinds, fix)
            if st == 3:
                raise Violation(name, "unbounded above")
            if st == 0 and -v + k > expected + t:
                raise Violation(name, f"value {-v+k!r} > {expected!r}")

    def exists(self, name, sysm, witness, eqs=()):
        self.checks += 1
        if self._is_solution(sysm, witness, eqs):
            return
        extra = []
        for co, k, val in eqs:
            d = self.scalar(val) - self.scalar(k)
            t = 1e-7 * (1 + abs(d))
            if not any(self.scalar(c) != 0 for c in co.values()):
                if abs(d) > 1e-5 * (1 + abs(self.scalar(val))):
                    raise Violation(name, f"constant output off by {d!r}")
                continue
            extra.append((co, "<", d + t))
            extra.append((co, ">", d - t))
        mats = self._mats(sysm, extra)
        # a hair of slack for rounding in the coefficients
        n, A, b, Aeq, beq = mats
        b = [x + 1e-8 * (1 + abs(x)) for x in b]
        A2 = list(A)
        for r, v in zip(Aeq, beq):
            e = 1e-8 * (1 + abs(v))
            A2.append(r)
            b.append(v + e)
            A2.append(-np.asarray(r))
            b.append(-v + e)
        st, _ = self._solve(np.zeros(n), (n, A2, b, [], []), sysm.kinds, {})
        if st == 2:
            raise Violation(name, "no solution")

    def _is_solution(self, sysm, witness, eqs):
        """The witness satisfies every row up to rounding (relative to the
        terms of the row)."""
        if witness is None or any(w is None for w in witness):
            return False
        pt = [self.scalar(w) for w in witness]
        rows = [(co, sense, self.scalar(rhs)) for co, sense, rhs, _ in
                sysm.rows]
        rows += [(co, "=", self.scalar(v) - self.scalar(k))
                 for co, k, v in eqs]
        for i, kd in enumerate(sysm.kinds):
            if kd == "B" and pt[i] not in (0., 1.):
                return False
        for co, sense, r in rows:
            terms = [self.scalar(k) * pt[i] for i, k in co.items()]
            v = sum(terms)
            t = 1e-9 * (1 + abs(r) + sum(abs(x) for x in terms))
            if not (math.isfinite(v) and math.isfinite(r)):
                return False
            if (sense != ">" and v > r + t) or (sense != "<" and v < r - t):
                return False
        return True

    def satisfied(self, name, sysm, point):
        self.checks += 1
        pt = [self.scalar(p) for p in point]
        for co, sense, rhs, nm in sysm.rows:
            v = sum(self.scalar(k) * pt[i] for i, k in co.items())
            r = self.scalar(rhs)
            t = 1e-6 * (1 + abs(r) + abs(v))
            if (sense == "<" and v > r + t) or (sense == ">" and v < r - t) \
                    or (sense == "=" and abs(v - r) > t):
                raise Violation(name, f"row {nm}: {v!r} {sense} {r!r}")

    def contract(self, owner, attr, spec, functions=""):
        pass

    def undo(self):
        pass

    def solver(self, *a, **k):
        pass

    def only_concrete(self):
        pass
