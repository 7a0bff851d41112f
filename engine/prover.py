"""Discharging obligations: normal form, then z3 (linear abstraction, linear
with product lemmas, full non-linear), then cvc5."""
from fractions import Fraction
import itertools
import os
import subprocess
import tempfile
import time
import z3
from . import sym
from .sym import F, Poly, ZERO, ONE, f_and, f_or, f_le, f_lt, f_eq, patom


def atom_defs(i):
    at = sym.get_atom(i)
    if at.defs is not None:
        return at.defs
    k = at.kind
    x = patom(i)
    d = []
    if k == "pos":
        q = at.args[0]
        d = [f_le(-x), f_le(q - x), f_or([f_le(x), f_le(x - q)])]
    elif k == "ind":
        c = at.args[0]
        d = [
            f_or([f_and([c, f_eq(x, ONE)]),
                  f_and([c.neg(), f_eq(x)])])
        ]
    elif k == "ite":
        c, a, b = at.args
        d = [
            f_or([f_and([c, f_eq(x, a)]),
                  f_and([c.neg(), f_eq(x, b)])])
        ]
    elif k == "inv":
        q = at.args[0]
        d = [
            ("inv", i, q),
            f_or([f_and([f_lt(-q), f_lt(-x)]),
                  f_and([f_lt(q), f_lt(x)])])
        ]
    elif k == "sqrt":
        q = at.args[0]
        # x*x = q is the rewrite rule; state it for the solver explicitly
        d = [f_le(-x), ("sq", i, q),
             f_or([f_and([f_le(q), f_eq(x)]),
                   f_and([f_lt(-q), f_lt(-x)])])]
    elif k in ("sin", "cos"):
        d = [f_le(x - ONE), f_le(-x - ONE)]
        d.append(("trig", i))
    elif k == "exp":
        d = [f_lt(-x)]
    at.defs = d
    return d


class Translator:

    def __init__(self, nonlinear):
        self.nl = nonlinear
        self.mono = {}
        self.fc = {}
        self.pending = []
        self.seen = set()

    def a(self, i):
        if i not in self.seen:
            self.seen.add(i)
            self.pending.append(i)
        return z3.Real(f"a{i}")

    def monomial(self, m):
        z = self.mono.get(m)
        if z is not None:
            return z
        if len(m) == 1 and m[0][1] == 1:
            z = self.a(m[0][0])
        elif self.nl:
            fs = []
            for i, e in m:
                v = self.a(i)
                fs += [v] * e
            z = fs[0]
            for f in fs[1:]:
                z = z * f
        else:
            for i, _ in m:
                self.a(i)
            z = z3.Real("m" + "_".join(f"{i}p{e}" for i, e in m))
            if all(e % 2 == 0 or sym.get_atom(i).kind in
                   ("pos", "ind", "sqrt", "exp") for i, e in m):
                self.pending.append(("nonneg", z))
            inds = [i for i, e in m if sym.get_atom(i).kind == "ind"]
            if len(inds) == 1:
                # product of a 0/1 indicator with the rest of the monomial
                rest = tuple(x for x in m if x[0] != inds[0])
                r = self.monomial(rest) if rest else z3.RealVal(1)
                g = self.a(inds[0])
                self.pending.append(
                    ("raw", z3.Or(z3.And(g == 1, z == r),
                                  z3.And(g == 0, z == 0))))
        self.mono[m] = z
        return z

    def poly(self, p):
        ts = []
        for m, c in p.t.items():
            q = z3.Q(c.numerator, c.denominator) if c.denominator != 1 \
                else z3.RealVal(c.numerator)
            if not m:
                ts.append(q)
            elif c == 1:
                ts.append(self.monomial(m))
            else:
                ts.append(q * self.monomial(m))
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def f(self, f):
        k = f.key()
        z = self.fc.get(k)
        if z is not None:
            return z
        if f.op == "const":
            z = z3.BoolVal(f.p)
        elif f.op == "le":
            z = self.poly(f.p) <= 0
        elif f.op == "lt":
            z = self.poly(f.p) < 0
        elif f.op == "eq":
            z = self.poly(f.p) == 0
        elif f.op == "ne":
            z = self.poly(f.p) != 0
        elif f.op == "and":
            z = z3.And([self.f(g) for g in f.fs])
        elif f.op == "or":
            z = z3.Or([self.f(g) for g in f.fs])
        elif f.op == "bvar":
            z = z3.Bool(f.p)
        elif f.op == "nbvar":
            z = z3.Not(z3.Bool(f.p))
        self.fc[k] = z
        return z

    def flush(self, add):
        """Assert definitions of every atom reached so far."""
        while self.pending:
            i = self.pending.pop()
            if isinstance(i, tuple):
                if i[0] == "nonneg":
                    add(i[1] >= 0)
                else:
                    add(i[1])
                continue
            for d in atom_defs(i):
                if isinstance(d, F):
                    add(self.f(d))
                elif d[0] == "sq" and self.nl:
                    v = self.a(d[1])
                    q = self.poly(d[2])
                    add(z3.Implies(q >= 0, v * v == q))
                elif d[0] == "inv" and self.nl:
                    add(self.a(d[1]) * self.poly(d[2]) == 1)
                elif d[0] == "trig" and self.nl:
                    at = sym.get_atom(i)
                    o = sym.atom("cos" if at.kind == "sin" else "sin",
                                 "cos" if at.kind == "sin" else "sin",
                                 at.args)
                    u, v = self.a(i), self.a(o)
                    add(u * u + v * v == 1)


def elim_inv(p):
    """Multiply an equality goal by the denominators (all proved nonzero on
    the path when the reciprocal was formed)."""
    for _ in range(40):
        invs = [i for i in p.atoms() if sym.get_atom(i).kind == "inv"]
        if not invs:
            return p
        # innermost-last: eliminate the highest id first
        i = max(invs)
        q = sym.get_atom(i).args[0]
        n = max(e for m in p.t for a, e in m if a == i)
        out = ZERO
        for m, c in p.t.items():
            e = dict(m).get(i, 0)
            rest = tuple(x for x in m if x[0] != i)
            t = Poly({rest: c})
            for _ in range(n - e):
                t = t * q
            out = out + t
        p = sym.reduce_poly(out)
    return p


class Result:

    def __init__(self, status, backend, model=None, secs=0., note=""):
        self.status = status  # proved, refuted, unknown
        self.backend = backend
        self.model = model
        self.secs = secs
        self.note = note


def _model_values(m, tr):
    out = {}
    for i, at in enumerate(sym._ATOMS):
        if at.kind == "var":
            v = m.eval(z3.Real(f"a{i}"), model_completion=True)
            out[at.name] = _to_fraction(v)
    return out


def _to_fraction(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def hyps_as_nonneg(facts, tr):
    hs = []
    for f in facts:
        if f.op in ("le", "lt"):
            hs.append(-f.p)
        elif f.op == "eq":
            hs.append(f.p)
            hs.append(-f.p)
    return hs


def product_lemmas(facts, goal_neg, atoms, cap=1500):
    """Valid facts h1*h2 >= 0 for hypotheses h1, h2 >= 0."""
    mset = set()

    def collect(f):
        if f.op in ("le", "lt", "eq", "ne"):
            for m in f.p.t:
                if len(m) > 1 or (m and m[0][1] > 1):
                    mset.add(m)
        for g in f.fs:
            collect(g)

    for f in facts:
        collect(f)
    collect(goal_neg)
    hs, eqs = [], []
    seen = set()

    def add(h):
        if h.key() not in seen and len(h.t) <= 12:
            seen.add(h.key())
            hs.append(h)

    def walk(f):
        if f.op in ("le", "lt"):
            add(-f.p)
        elif f.op == "eq":
            if f.p.key() not in seen and len(f.p.t) <= 12:
                seen.add(f.p.key())
                eqs.append(f.p)
        elif f.op == "and":
            for g in f.fs:
                walk(g)

    for f in facts:
        walk(f)
    walk(goal_neg)
    for i in atoms:
        at = sym.get_atom(i)
        if at.kind == "pos":
            add(patom(i))
            add(patom(i) - at.args[0])
        elif at.kind == "ind":
            add(patom(i))
            add(ONE - patom(i))
        elif at.kind == "inv":
            q = at.args[0]
            for f in facts:
                if f.op in ("lt", "le"):
                    if f.p.key() == (-q).key():
                        add(patom(i))
                    elif f.p.key() == q.key():
                        add(-patom(i))
    # multiplying equalities by atoms of the goal's monomials
    fac = set()
    for m in mset:
        for a, _ in m:
            fac.add(a)
    out = []
    for p in eqs:
        for a in fac:
            q = p * patom(a)
            nl = [m for m in q.t if len(m) > 1 or (m and m[0][1] > 1)]
            if any(m in mset for m in nl):
                out.append(f_eq(q))
                if len(out) > cap:
                    break
    cand = []
    hs = hs[:160]
    for h1, h2 in itertools.combinations_with_replacement(hs, 2):
        if h1.is_const() or h2.is_const():
            continue
        q = h1 * h2
        nl = [m for m in q.t if len(m) > 1 or (m and m[0][1] > 1)]
        if not nl:
            continue
        hit = sum(1 for m in nl if m in mset)
        new = len(nl) - hit
        if hit and new <= 3:
            cand.append((new, len(q.t), f_le(-q)))
    cand.sort(key=lambda x: (x[0], x[1]))
    out += [c[2] for c in cand[:cap]]
    return out


def closure_atoms(fs):
    seen = set()
    stack = []

    def of_f(f):
        if f.op in ("le", "lt", "eq", "ne"):
            stack.extend(f.p.atoms())
        for g in f.fs:
            of_f(g)

    for f in fs:
        of_f(f)
    while stack:
        i = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        for d in atom_defs(i):
            if isinstance(d, F):
                of_f(d)
            elif d[0] in ("sq", "inv"):
                stack.extend(d[2].atoms())
    return seen


def has_nonlinear(fs):
    for f in fs:
        if f.op in ("le", "lt", "eq", "ne"):
            for m in f.p.t:
                if len(m) > 1 or (m and m[0][1] > 1):
                    return True
        elif f.fs and has_nonlinear(f.fs):
            return True
    return False


def is_nonlinear(fs):
    """Anything the linear translation abstracts?"""
    if has_nonlinear(fs):
        return True
    for i in closure_atoms(fs):
        if sym.get_atom(i).kind in ("inv", "sqrt", "sin", "cos"):
            return True
        if has_nonlinear([d for d in atom_defs(i) if isinstance(d, F)]):
            return True
    return False


def run_z3(facts, neg, nonlinear, timeout, extra=()):
    tr = Translator(nonlinear)
    s = z3.SolverFor("QF_NRA") if nonlinear == "nra" else z3.Solver()
    s.set("timeout", int(timeout * 1000))
    for f in facts:
        s.add(tr.f(f))
    for f in extra:
        s.add(tr.f(f))
    s.add(tr.f(neg))
    tr.flush(s.add)
    r = s.check()
    return r, s, tr


class Incremental:
    """The linear abstraction of a growing list of facts, asserted once."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.facts = []
        self.tr = Translator(False)
        self.s = z3.Solver()
        self.s.add(z3.BoolVal(True))

    def check(self, facts, neg, timeout):
        n = len(self.facts)
        if len(facts) < n or any(
                a is not b for a, b in zip(self.facts, facts)):
            self.reset()
            n = 0
        new = list(facts[n:])
        for f in new:
            self.s.add(self.tr.f(f))
        self.facts += new
        z = self.tr.f(neg)
        # definitions hold whatever the goal
        self.tr.flush(self.s.add)
        self.s.set("timeout", int(timeout * 1000))
        self.s.push()
        self.s.add(z)
        r = self.s.check()
        m = _model_values(self.s.model(), self.tr) if r == z3.sat else None
        self.s.pop()
        return r, m


LIN = Incremental()


def run_cvc5(s, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2",
                                     delete=False) as fh:
        fh.write("(set-logic ALL)\n" + s.to_smt2())
        name = fh.name
    try:
        o = subprocess.run(
            ["cvc5", f"--tlimit={int(timeout*1000)}", name],
            capture_output=True, text=True, timeout=timeout + 5)
        return o.stdout.strip().splitlines()[0] if o.stdout.strip() else ""
    except Exception:
        return ""
    finally:
        os.unlink(name)


def prove(facts, goal, budget=20.):
    """Is facts |= goal?"""
    t0 = time.time()
    if goal.op == "const" and goal.p:
        return Result("proved", "normal-form")
    if goal.op == "eq":
        q = elim_inv(goal.p)
        if q.is_zero():
            return Result("proved", "normal-form", secs=time.time() - t0)
        goal = f_eq(q)
    for f in facts:
        if f.key() == goal.key():
            return Result("proved", "normal-form")
    if goal.op == "and":
        worst = None
        secs = 0
        for g in goal.fs:
            r = prove(facts, g, budget)
            secs += r.secs
            if r.status != "proved":
                r.secs = secs
                return r
            if worst is None or len(r.backend) > len(worst.backend):
                worst = r
        return Result("proved", worst.backend, secs=secs)
    neg = goal.neg()
    allf = list(facts) + [neg]
    nl = True
    r, lin_model = LIN.check(facts, neg, min(4., budget / 4))
    if r == z3.unsat:
        return Result("proved", "z3-linear", secs=time.time() - t0)
    if r == z3.unknown:
        r, s, tr = run_z3(facts, neg, False, min(6., budget / 3))
        if r == z3.unsat:
            return Result("proved", "z3-linear", secs=time.time() - t0)
        if r == z3.sat:
            lin_model = _model_values(s.model(), tr)
    atoms = closure_atoms(allf)
    nonl = is_nonlinear(allf)
    if not nonl and r == z3.sat:
        return Result("refuted", "z3-linear", lin_model,
                      time.time() - t0)
    # quick non-linear attempt for counterexamples / proofs
    r2, s2, tr2 = run_z3(facts, neg, True, min(4., budget / 4))
    if r2 == z3.unsat:
        return Result("proved", "z3-nra", secs=time.time() - t0)
    if r2 == z3.sat:
        return Result("refuted", "z3-nra", _model_values(s2.model(), tr2),
                      time.time() - t0)
    lem = product_lemmas(facts, neg, atoms)
    if lem:
        r, s, tr = run_z3(facts, neg, False, min(10., budget / 2), lem)
        if r == z3.unsat:
            return Result("proved", "z3-linear+products",
                          secs=time.time() - t0)
        if r == z3.sat:
            lin_model = _model_values(s.model(), tr)
    left = max(2., budget - (time.time() - t0))
    o = run_cvc5(s2, min(10., left / 2))
    if o == "unsat":
        return Result("proved", "cvc5-nra", secs=time.time() - t0)
    r2, s2, tr2 = run_z3(facts, neg, "nra", min(10., left))
    if r2 == z3.unsat:
        return Result("proved", "z3-nlsat", secs=time.time() - t0)
    if r2 == z3.sat:
        return Result("refuted", "z3-nlsat", _model_values(s2.model(), tr2),
                      time.time() - t0)
    return Result("unknown", "-", lin_model, time.time() - t0)


def nice_model(facts, goal, timeout=2.):
    """A counterexample of moderate size that misses the goal clearly."""
    allf = list(facts) + [goal]
    nonl = is_nonlinear(allf)
    for margin, box in ((Fraction(1, 4), 4), (Fraction(1, 50), 20),
                        (Fraction(1, 5000), 100)):
        neg = _margin(goal, margin)
        if neg is None:
            return None
        tr = Translator(nonl)
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        for f in facts:
            s.add(tr.f(f))
        s.add(tr.f(neg))
        tr.flush(s.add)
        for i, at in enumerate(sym._ATOMS):
            if at.kind == "var":
                v = z3.Real(f"a{i}")
                s.add(v <= box, v >= -box)
        if s.check() == z3.sat:
            return _model_values(s.model(), tr)
    return None


def _margin(goal, m):
    mm = sym.pconst(m)
    if goal.op in ("le", "lt"):
        return f_le(mm - goal.p)
    if goal.op == "eq":
        return f_or([f_le(mm - goal.p), f_le(mm + goal.p)])
    if goal.op == "or":
        fs = [_margin(g, m) for g in goal.fs]
        if any(f is None for f in fs):
            return None
        return f_and(fs)
    if goal.op == "and":
        fs = [_margin(g, m) for g in goal.fs]
        return f_or([f for f in fs if f is not None])
    if goal.op == "ne":
        return goal.neg()
    return None


class Path:
    """One symbolic path: the oracle deciding bool(formula)."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []
        self.alts = []
        self.facts = []
        self.cache = {}
        self.tr = Translator(False)
        self.s = z3.Solver()
        self.s.set("timeout", 1500)
        self.queries = 0
        self.secs = 0.
        self.nfork = 0

    def assume(self, f):
        f = sym.to_f(f)
        if f.op == "const":
            if not f.p:
                raise sym.Infeasible()
            return
        for g in (f.fs if f.op == "and" else (f, )):
            if g.key() in self.cache and self.cache[g.key()]:
                continue
            self.facts.append(g)
            self.cache[g.key()] = True
            self.cache[g.neg().key()] = False
            self.s.add(self.tr.f(g))
        self.tr.flush(self.s.add)

    def feasible(self):
        t = time.time()
        r = self.s.check()
        self.secs += time.time() - t
        return r != z3.unsat

    def _sat(self, f):
        z = self.tr.f(f)
        self.tr.flush(self.s.add)
        t = time.time()
        self.queries += 1
        self.s.push()
        self.s.add(z)
        r = self.s.check()
        self.s.pop()
        self.secs += time.time() - t
        return r != z3.unsat

    def known(self, f):
        """True/False if already decided syntactically, else None."""
        f = sym.thaw_f(f)
        if f.op == "const":
            return f.p
        return self.cache.get(f.key())

    def decide(self, f):
        f = sym.thaw_f(f)
        if f.op == "const":
            return f.p
        k = self.cache.get(f.key())
        if k is not None:
            return k
        if f.op == "not":
            raise AssertionError
        can_t = self._sat(f)
        if not can_t:
            if f.neg().key() not in self.cache:
                self.cache[f.neg().key()] = True
                self.cache[f.key()] = False
            return False
        if not self._sat(f.neg()):
            self.cache[f.key()] = True
            self.cache[f.neg().key()] = False
            return True
        self.nfork += 1
        if len(self.taken) < len(self.prefix):
            d = self.prefix[len(self.taken)]
        else:
            d = True
            self.alts.append(self.taken + [False])
        self.taken.append(d)
        self.assume(f if d else f.neg())
        return d

    def choose(self, n):
        """n-way enumeration."""
        if len(self.taken) < len(self.prefix):
            d = self.prefix[len(self.taken)]
        else:
            d = 0
            for j in range(1, n):
                self.alts.append(self.taken + [j])
        self.taken.append(d)
        return d
