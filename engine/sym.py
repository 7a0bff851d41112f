"""Symbolic real scalars for the contract engine.

A scalar is a polynomial with rational coefficients over hash-consed atoms.
Atoms are: input variables, pos(d) (= max(d,0)), ite, 0/1 indicators,
reciprocals, square roots, sin/cos/exp..., uninterpreted applications and
float32 roundings.  Machine arithmetic is treated as real arithmetic.
Truth values are formulas; Python's bool() on a formula forks the path.
"""
from fractions import Fraction
import math
import numbers


class Unsupported(Exception):
    """The engine cannot express what the code did (never a violation)."""


class Infeasible(Exception):
    """The current path is contradictory (or was cut by an assumption)."""


# --------------------------------------------------------------------------
# atoms


class Atom:
    __slots__ = ("id", "kind", "name", "args", "defs", "aux")

    def __init__(self, id, kind, name, args):
        self.id = id
        self.kind = kind
        self.name = name
        self.args = args
        self.defs = None
        self.aux = None

    def __repr__(self):
        return f"<{self.id}:{self.kind}:{self.name}>"


_ATOMS = []
_ATOM_KEY = {}


def reset_atoms():
    _ATOMS.clear()
    _ATOM_KEY.clear()
    _F_CACHE.clear()


def atom(kind, name, args=()):
    key = (kind, name) + tuple(
        a.key() if isinstance(a, (Poly, F)) else a for a in args)
    i = _ATOM_KEY.get(key)
    if i is None:
        i = len(_ATOMS)
        _ATOMS.append(Atom(i, kind, name, args))
        _ATOM_KEY[key] = i
    return i


def get_atom(i):
    return _ATOMS[i]


# --------------------------------------------------------------------------
# polynomials: dict monomial -> Fraction, monomial = tuple of (atom, exp)


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class Poly:
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items()))
        return self._k

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    def is_zero(self):
        return not self.t

    def __add__(self, o):
        if len(self.t) < len(o.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return Poly(r)

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()})

    def __neg__(self):
        return Poly({m: -v for m, v in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.is_const():
            return o.scale(self.const())
        if o.is_const():
            return self.scale(o.const())
        r = {}
        redo = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
                if not redo and len(m) < len(m1) + len(m2):
                    redo = True
        if len(r) > 20000:
            raise Unsupported("polynomial too large")
        p = Poly(r)
        return reduce_poly(p)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __repr__(self):
        return poly_str(self)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def pconst(c):
    c = Fraction(c)
    return Poly({(): c}) if c != 0 else ZERO


def patom(i):
    return Poly({((i, 1), ): Fraction(1)})


def _rules(m):
    """Rewrite one monomial; returns Poly or None if irreducible."""
    ind_pos = None
    for (a, e) in m:
        at = _ATOMS[a]
        k = at.kind
        if k == "ind" and e >= 2:
            return _replace(m, a, e, patom(a))
        if k == "pos" and e >= 2:
            d = at.args[0]
            r = patom(a)
            for _ in range(e - 1):
                r = r * d if False else _raw_mul(r, d)
            return _replace(m, a, e, r)
        if k == "sqrt" and e >= 2:
            r = ONE
            for _ in range(e // 2):
                r = _raw_mul(r, at.args[0])
            if e % 2:
                r = _raw_mul(r, patom(a))
            return _replace(m, a, e, r)
        if k == "sin" and e >= 2:
            c = patom(atom("cos", "cos", at.args))
            r = ONE + (-_raw_mul(c, c))
            for _ in range(e - 2):
                r = _raw_mul(r, patom(a))
            return _replace(m, a, e, r)
        if k == "inv":
            q = at.args[0]
            if len(q.t) == 1:
                (mq, cq), = q.t.items()
                md = dict(m)
                n = min([e] + [md.get(b, 0) // f for b, f in mq])
                if n > 0:
                    for b, f in mq:
                        md[b] -= f * n
                    md[a] -= n
                    mm = tuple(sorted((b, f) for b, f in md.items() if f))
                    return Poly({mm: Fraction(1) / cq**n})
        if k == "ind":
            for (b, _) in m:
                bt = _ATOMS[b]
                if bt.kind == "pos":
                    # ind(d > 0) * pos(d) = pos(d); ind(d<=0)*pos(d) = 0
                    f = at.args[0]
                    if f.op == "lt" and f.p.key() == (-bt.args[0]).key():
                        return _replace(m, a, e, ONE)
                    if f.op == "le" and f.p.key() == (-bt.args[0]).key():
                        return _replace(m, a, e, ONE)
                    if f.op in ("le", "lt") and \
                            f.p.key() == bt.args[0].key():
                        return ZERO
    return None


def _raw_mul(p, q):
    r = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = _mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return Poly(r)


def _replace(m, a, e, r):
    rest = tuple(x for x in m if x[0] != a)
    return _raw_mul(Poly({rest: Fraction(1)}), r)


def reduce_poly(p):
    for _ in range(60):
        out = None
        for m in p.t:
            if len(m) == 1 and m[0][1] == 1:
                continue
            r = _rules(m)
            if r is not None:
                if out is None:
                    out = dict(p.t)
                c = out.pop(m, None)
                if c is None:
                    continue
                for m2, c2 in r.t.items():
                    v = out.get(m2, 0) + c * c2
                    if v == 0:
                        out.pop(m2, None)
                    else:
                        out[m2] = v
        if out is None:
            return p
        p = Poly(out)
    return p


def poly_str(p, depth=0):
    if not p.t:
        return "0"
    parts = []
    for m, c in sorted(p.t.items(), key=lambda x: (len(x[0]), x[0])):
        f = []
        if c != 1 or not m:
            f.append(str(c))
        for a, e in m:
            f.append(atom_str(a, depth) + (f"^{e}" if e > 1 else ""))
        parts.append("*".join(f))
    return " + ".join(parts)


def atom_str(a, depth=0):
    at = _ATOMS[a]
    if at.kind == "var":
        return at.name
    if depth > 2:
        return f"{at.kind}#{a}"
    return f"{at.kind}:{at.name}(" + ", ".join(
        poly_str(x, depth + 1) if isinstance(x, Poly) else
        (x.text(depth + 1) if isinstance(x, F) else str(x))
        for x in at.args) + ")"


# --------------------------------------------------------------------------
# formulas


class F:
    """op: const, le (p<=0), lt (p<0), eq, ne, and, or, bvar, nbvar."""
    __slots__ = ("op", "p", "fs", "_k")

    def __init__(self, op, p=None, fs=()):
        self.op = op
        self.p = p
        self.fs = fs
        self._k = None

    def key(self):
        if self._k is None:
            if self.op in ("le", "lt", "eq", "ne"):
                self._k = (self.op, self.p.key())
            elif self.op in ("and", "or"):
                self._k = (self.op, tuple(f.key() for f in self.fs))
            else:
                self._k = (self.op, self.p)
        return self._k

    def __hash__(self):
        return hash(self.key())

    def neg(self):
        o = self.op
        if o == "const":
            return FALSE if self.p else TRUE
        if o == "le":
            return F("lt", -self.p)
        if o == "lt":
            return F("le", -self.p)
        if o == "eq":
            return F("ne", self.p)
        if o == "ne":
            return F("eq", self.p)
        if o == "and":
            return f_or([f.neg() for f in self.fs])
        if o == "or":
            return f_and([f.neg() for f in self.fs])
        if o == "bvar":
            return F("nbvar", self.p)
        if o == "nbvar":
            return F("bvar", self.p)
        raise AssertionError(o)

    def __bool__(self):
        if self.op == "const":
            return self.p
        return ORACLE.decide(self)

    def __and__(self, o):
        return f_and([self, to_f(o)])

    __rand__ = __and__

    def __or__(self, o):
        return f_or([self, to_f(o)])

    __ror__ = __or__

    def __invert__(self):
        return self.neg()

    def __xor__(self, o):
        o = to_f(o)
        return f_or([f_and([self, o.neg()]), f_and([self.neg(), o])])

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (F, bool)):
            o = to_f(o)
            return (self ^ o).neg()
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else r.neg()

    # arithmetic on truth values: as 0/1 indicators
    def ind(self):
        return indicator(self)

    def _ar(self, o, f):
        return f(self.ind(), o)

    def __add__(self, o):
        return self.ind() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.ind() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.ind() - o

    def __rsub__(self, o):
        return o - self.ind()

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def text(self, depth=0):
        if self.op == "const":
            return str(self.p)
        if self.op in ("bvar", "nbvar"):
            return ("!" if self.op == "nbvar" else "") + str(self.p)
        if self.op in ("and", "or"):
            return "(" + f" {self.op} ".join(f.text(depth)
                                             for f in self.fs) + ")"
        return "[" + poly_str(self.p, depth) + \
            {"le": " <= 0]", "lt": " < 0]", "eq": " = 0]",
             "ne": " != 0]"}[self.op]

    def __repr__(self):
        return self.text()


TRUE = F("const", True)
FALSE = F("const", False)
_F_CACHE = {}


def to_f(x):
    if isinstance(x, F):
        return x
    if isinstance(x, Sc):
        return f_ne(x.poly(), ZERO)
    if hasattr(x, "__bool__"):
        return TRUE if bool(x) else FALSE
    raise Unsupported(f"truth value of {type(x)}")


def f_and(fs):
    out = []
    seen = set()
    for f in fs:
        if f.op == "const":
            if not f.p:
                return FALSE
            continue
        for g in (f.fs if f.op == "and" else (f, )):
            k = g.key()
            if k not in seen:
                seen.add(k)
                out.append(g)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return F("and", None, tuple(out))


def f_or(fs):
    out = []
    seen = set()
    for f in fs:
        if f.op == "const":
            if f.p:
                return TRUE
            continue
        for g in (f.fs if f.op == "or" else (f, )):
            k = g.key()
            if k not in seen:
                seen.add(k)
                out.append(g)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return F("or", None, tuple(out))


def _norm(p):
    """Scale by a positive rational so that keys are canonical."""
    if not p.t:
        return p
    lead = max(p.t)
    c = abs(p.t[lead])
    return p if c == 1 else p.scale(1 / c)


def f_le(p):
    if p.is_const():
        return TRUE if p.const() <= 0 else FALSE
    return F("le", _norm(p))


def f_lt(p):
    if p.is_const():
        return TRUE if p.const() < 0 else FALSE
    return F("lt", _norm(p))


def f_eq(p, q=None):
    if q is not None:
        p = p - q
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    p = _norm(p)
    if p.t[max(p.t)] < 0:
        p = -p
    return F("eq", p)


def f_ne(p, q=None):
    return f_eq(p, q).neg()


def f_implies(a, b):
    return f_or([a.neg(), b])


def f_iff(a, b):
    return f_and([f_implies(a, b), f_implies(b, a)])


# --------------------------------------------------------------------------
# scalars


def _lead_sign(p):
    """+1/-1: sign of the leading non-constant coefficient."""
    ms = [m for m in p.t if m]
    return 1 if p.t[max(ms)] > 0 else -1


def ppos(d):
    """max(d, 0) as a polynomial (canonical up to sign and scale)."""
    if d.is_const():
        return pconst(max(d.const(), 0))
    # nested: pos(pos(..)) etc. are decided by sign when trivially nonneg
    s = trivial_sign(d)
    if s is not None:
        return d if s >= 0 else ZERO
    neg = _lead_sign(d) < 0
    if neg:
        d = -d
    lead = max(m for m in d.t if m)
    c = d.t[lead]
    d = d.scale(1 / c)
    a = patom(atom("pos", "max0", (d, ))).scale(c)
    if neg:
        # max(-d', 0) = max(d', 0) - d'
        return a - d.scale(c)
    return a


def trivial_sign(d):
    """1 if every monomial is visibly >= 0, -1 if <= 0, else None."""
    sg = 0
    for m, c in d.t.items():
        ok = True
        for a, e in m:
            if e % 2 == 0:
                continue
            if _ATOMS[a].kind not in ("pos", "ind", "sqrt", "exp"):
                ok = False
                break
        if not ok:
            return None
        s = 1 if c > 0 else -1
        if sg == 0:
            sg = s
        elif sg != s:
            return None
    return sg


def _q(x):
    """Python number -> Fraction: the decimal reading of float literals, and
    the quotient meant by a float that is one of small integers."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, numbers.Integral):
        return Fraction(int(x))
    f = float(x)
    r = Fraction(repr(f))
    if r.denominator > 10**12:
        # a quotient of small integers (1/6 and the like)
        s = r.limit_denominator(1000)
        if float(s) == f:
            return s
    return r


def _each(x, arr, op):
    """x op every element of a numpy array."""
    if hasattr(arr, "_is_tensor") or hasattr(arr, "_is_expr"):
        return NotImplemented
    import numpy
    out = numpy.empty(arr.shape, dtype=object)
    f = getattr(x, op)
    for ix in numpy.ndindex(*arr.shape):
        out[ix] = f(arr[ix])
    return out if out.ndim else out[()]


class Sc:
    """Symbolic real (or +-inf / nan)."""
    __slots__ = ("p", "sp")
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, p, sp=None):
        self.p = p
        self.sp = sp  # None or "inf", "-inf", "nan"

    # -- construction
    @staticmethod
    def of(x):
        if isinstance(x, Sc):
            return x
        if isinstance(x, Poly):
            return Sc(x)
        if isinstance(x, F):
            return indicator(x)
        if isinstance(x, bool):
            return Sc(ONE if x else ZERO)
        if isinstance(x, numbers.Number) or type(x).__module__ == "numpy":
            f = x
            if not isinstance(x, Fraction):
                ff = float(x)
                if math.isinf(ff):
                    return Sc(None, "inf" if ff > 0 else "-inf")
                if math.isnan(ff):
                    return Sc(None, "nan")
            return Sc(pconst(_q(f)))
        if hasattr(x, "_as_sc"):
            return x._as_sc()
        raise Unsupported(f"scalar from {type(x)}")

    def poly(self):
        if self.sp is not None:
            raise Unsupported(f"finite value expected, got {self.sp}")
        return self.p

    def is_const(self):
        return self.sp is not None or self.p.is_const()

    def const(self):
        """Python value of a constant."""
        if self.sp is not None:
            return float(self.sp)
        c = self.p.const()
        return int(c) if c.denominator == 1 else float(c)

    # -- arithmetic
    def __neg__(self):
        if self.sp:
            return Sc(None, {"inf": "-inf", "-inf": "inf", "nan": "nan"}
                      [self.sp])
        return Sc(-self.p)

    def __pos__(self):
        return self

    def __add__(self, o):
        if _is_array(o):
            return _each(self, o, "__add__")
        o = Sc.of(o)
        if self.sp or o.sp:
            s = {self.sp, o.sp} - {None}
            if len(s) > 1:
                return Sc(None, "nan")
            return Sc(None, s.pop())
        return Sc(self.p + o.p)

    __radd__ = __add__

    def __sub__(self, o):
        if _is_array(o):
            return _each(self, o, "__sub__")
        return self + (-Sc.of(o))

    def __rsub__(self, o):
        if _is_array(o):
            return _each(-self, o, "__add__")
        return Sc.of(o) + (-self)

    def __mul__(self, o):
        if _is_array(o):
            return _each(self, o, "__mul__")
        o = Sc.of(o)
        if self.sp or o.sp:
            if "nan" in (self.sp, o.sp):
                return Sc(None, "nan")
            a, b = (self, o) if self.sp else (o, self)
            s = 1 if a.sp == "inf" else -1
            if b.sp:
                s *= 1 if b.sp == "inf" else -1
            elif bool(b == 0):
                return Sc(None, "nan")
            elif not bool(b > 0):
                s = -s
            return Sc(None, "inf" if s > 0 else "-inf")
        return Sc(self.p * o.p)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _is_array(o):
            return _each(self, o, "__truediv__")
        o = Sc.of(o)
        if o.sp in ("inf", "-inf") and not self.sp:
            return Sc(ZERO)
        return self * o.recip()

    def __rtruediv__(self, o):
        if _is_array(o):
            return _each(self.recip(), o, "__mul__")
        return Sc.of(o) / self

    def recip(self):
        if self.sp:
            raise Unsupported("division by a non-finite value")
        if self.p.is_const():
            c = self.p.const()
            if c == 0:
                return Sc(None, "nan")
            return Sc(pconst(1 / c))
        if ORACLE is not None:
            if bool(self == 0):
                return Sc(None, "nan")
        p = self.p
        # canonical scale; single monomials are inverted atom by atom
        lead = max(p.t)
        c = p.t[lead]
        q = p.scale(1 / c)
        if len(q.t) == 1:
            r = ONE
            for a, e in lead:
                at = _ATOMS[a]
                if at.kind == "inv":
                    base = at.args[0]
                else:
                    base = patom(atom("inv", "inv", (patom(a), )))
                for _ in range(e):
                    r = r * base
            return Sc(r.scale(1 / c))
        return Sc(patom(atom("inv", "inv", (q, ))).scale(1 / c))

    def __pow__(self, o):
        if isinstance(o, Sc):
            if not o.is_const():
                raise Unsupported("symbolic exponent")
            o = o.const()
        if o == 0.5:
            return self.sqrt()
        if float(o) != int(o):
            raise Unsupported(f"power {o}")
        o = int(o)
        if o < 0:
            return (self**(-o)).recip()
        r = Sc(ONE)
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __mod__(self, o):
        if self.is_const() and Sc.of(o).is_const():
            return Sc.of(self.const() % Sc.of(o).const())
        raise Unsupported("modulo of a symbolic value")

    def __floordiv__(self, o):
        if self.is_const() and Sc.of(o).is_const():
            return Sc.of(self.const() // Sc.of(o).const())
        raise Unsupported("floor division of a symbolic value")

    def __rfloordiv__(self, o):
        return Sc.of(o) // self

    # -- functions
    def pos(self):
        if self.sp:
            if self.sp == "-inf":
                return Sc(ZERO)
            return self
        return Sc(ppos(self.p))

    def __abs__(self):
        if self.sp:
            return Sc(None, "nan" if self.sp == "nan" else "inf")
        q = ppos(self.p)
        return Sc(q + q - self.p)

    def abs(self):
        return abs(self)

    def sqrt(self):
        if self.sp:
            raise Unsupported("sqrt of non-finite")
        if self.p.is_const():
            c = self.p.const()
            if c < 0:
                return Sc(None, "nan")
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return Sc(pconst(Fraction(n, d)))
            return Sc(patom(atom("sqrt", "sqrt", (self.p, ))))
        # sqrt(m^2) = |m| for a single monomial
        if len(self.p.t) == 1:
            (m, c), = self.p.t.items()
            rc = Sc(pconst(c)).sqrt() if c > 0 else None
            if rc is not None and rc.sp is None and rc.p.is_const() and \
                    all(e % 2 == 0 for _, e in m):
                r = Sc(ONE)
                for a, e in m:
                    for _ in range(e // 2):
                        r = r * Sc(patom(a))
                return abs(r) * rc
        return Sc(patom(atom("sqrt", "sqrt", (self.p, ))))

    def _trig(self, fn):
        if self.sp:
            return Sc(None, "nan")
        p = self.p
        if p.is_zero():
            return Sc(ZERO if fn in ("sin", "tan") else ONE)
        ms = [m for m in p.t]
        if p.t[max(ms)] < 0:
            r = (-self)._trig(fn)
            return -r if fn in ("sin", "tan") else r
        return Sc(patom(atom(fn, fn, (p, ))))

    def sin(self):
        return self._trig("sin")

    def cos(self):
        return self._trig("cos")

    def tan(self):
        return self.sin() / self.cos()

    def _fn(self, fn):
        if self.sp:
            if fn == "exp":
                return Sc(ZERO) if self.sp == "-inf" else self
            raise Unsupported(f"{fn} of non-finite")
        if fn == "exp" and self.p.is_zero():
            return Sc(ONE)
        if fn == "log" and self.p.key() == ONE.key():
            return Sc(ZERO)
        if fn in ("tanh", "atan") and self.p.is_zero():
            return Sc(ZERO)
        return Sc(patom(atom("exp" if fn == "exp" else "fn", fn,
                             (self.p, ))))

    def exp(self):
        return self._fn("exp")

    def log(self):
        return self._fn("log")

    def tanh(self):
        return self._fn("tanh")

    def arctan(self):
        return self._fn("atan")

    def sign(self):
        return ite(self > 0, Sc(ONE), ite(self < 0, Sc(pconst(-1)),
                                          Sc(ZERO)))

    def conjugate(self):
        return self

    def item(self):
        return self

    # -- comparison
    def _cmp(self, o, op):
        if o is None:
            return NotImplemented
        if _is_array(o):
            if hasattr(o, "_is_tensor") or hasattr(o, "_is_expr"):
                return NotImplemented
            import numpy
            r = numpy.empty(o.shape, dtype=bool)
            for ix in numpy.ndindex(*o.shape):
                r[ix] = bool(self._cmp(o[ix], op))
            return r
        try:
            o = Sc.of(o)
        except Unsupported:
            return NotImplemented
        if self.sp or o.sp:
            if "nan" in (self.sp, o.sp):
                return TRUE if op == "ne" else FALSE
            a = float(self.sp) if self.sp else 0.
            b = float(o.sp) if o.sp else 0.
            r = {"le": a <= b, "lt": a < b, "ge": a >= b, "gt": a > b,
                 "eq": a == b, "ne": a != b}[op]
            return TRUE if r else FALSE
        d = self.p - o.p
        if op == "le":
            return f_le(d)
        if op == "lt":
            return f_lt(d)
        if op == "ge":
            return f_le(-d)
        if op == "gt":
            return f_lt(-d)
        if op == "eq":
            return f_eq(d)
        return f_ne(d)

    def __le__(self, o):
        return self._cmp(o, "le")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __hash__(self):
        return hash(("inf", self.sp) if self.sp else self.p.key())

    def __bool__(self):
        if self.sp:
            return True
        return bool(f_ne(self.p))

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported("float() of a symbolic value by native code")

    def __int__(self):
        if self.is_const():
            return int(self.const())
        if bool(self >= 0):
            for k in range(16):
                if bool(self < k + 1):
                    return k
        else:
            for k in range(16):
                if bool(self > -(k + 1)):
                    return -k
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const():
            c = self.const()
            if isinstance(c, int):
                return c
        raise Unsupported("index from a symbolic value")

    def __round__(self, n=None):
        if self.is_const():
            return round(self.const(), n) if n else round(self.const())
        raise Unsupported("round of a symbolic value")

    def __format__(self, spec):
        return repr(self)

    def __repr__(self):
        if self.sp:
            return self.sp
        return poly_str(self.p)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def _is_array(o):
    import numpy
    return isinstance(o, numpy.ndarray) or hasattr(o, "_is_tensor") or \
        hasattr(o, "_is_expr")


def var(name):
    return Sc(patom(atom("var", name)))


def indicator(f):
    if f.op == "const":
        return Sc(ONE if f.p else ZERO)
    if f.op in ("le", "ne", "nbvar"):
        return Sc(ONE - patom(atom("ind", "ind", (f.neg(), ))))
    return Sc(patom(atom("ind", "ind", (f, ))))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if c.op == "const":
        return a if c.p else b
    a, b = Sc.of(a), Sc.of(b)
    if ORACLE is not None:
        k = ORACLE.known(c)
        if k is not None:
            return a if k else b
    if a.sp or b.sp:
        return a if bool(c) else b
    if a.p.key() == b.p.key():
        return a
    d = a.p - b.p
    if d.is_const():
        return Sc(indicator(c).p.scale(d.const()) + b.p)
    # max / min patterns
    if c.op in ("le", "lt"):
        # c: p <= 0
        n = _norm(d)
        if n.key() == c.p.key():          # a<=b ? a : b  = min
            return Sc(b.p - ppos(b.p - a.p))
        if (-n).key() == c.p.key():       # a>=b ? a : b  = max
            return Sc(b.p + ppos(d))
    # polarity
    if c.op in ("le", "ne", "nbvar"):
        c, a, b = c.neg(), b, a
    return Sc(patom(atom("ite", "ite", (c, a.p, b.p))))


def smax(a, b):
    a, b = Sc.of(a), Sc.of(b)
    if a.sp or b.sp:
        if "nan" in (a.sp, b.sp):
            return Sc(None, "nan")
        if a.sp == "inf" or b.sp == "-inf":
            return a
        return b
    d = a.p - b.p
    return Sc(b.p + ppos(d))


def smin(a, b):
    return -smax(-Sc.of(a), -Sc.of(b))


def uf(name, *args):
    """Uninterpreted application, congruent on canonical arguments."""
    return Sc(patom(atom("uf", name, tuple(Sc.of(a).poly()
                                           for a in args))))


def round32(x):
    x = Sc.of(x)
    if x.sp:
        return x
    if x.p.is_const():
        import numpy
        c = x.p.const()
        f = numpy.float32(float(c))
        if Fraction(float(f)) == c or repr(float(c)) == repr(float(f)):
            return x
        return Sc(pconst(Fraction(repr(float(f)))))
    return Sc(patom(atom("uf", "round32", (x.p, ))))


ORACLE = None


def set_oracle(o):
    global ORACLE
    ORACLE = o

# --------------------------------------------------------------------------
# gradient leaves

_HAS_LEAF = [False]
_THAW = {}


def thaw(p):
    """Replace gradient leaves by their values, recursively."""
    if not _HAS_LEAF[0]:
        return p
    if not any(_needs_thaw(a) for a in p.atoms()):
        return p
    out = ZERO
    for m, c in p.t.items():
        t = pconst(c)
        for a, e in m:
            x = thaw_atom(a)
            for _ in range(e):
                t = t * x
        out = out + t
    return out


_NT = {}


def _needs_thaw(a):
    r = _NT.get(a)
    if r is None:
        at = _ATOMS[a]
        if at.kind == "leaf":
            r = True
        elif at.kind == "var":
            r = False
        else:
            r = any((isinstance(x, Poly) and any(_needs_thaw(b)
                                                 for b in x.atoms())) or
                    (isinstance(x, F) and _needs_thaw_f(x))
                    for x in at.args)
        _NT[a] = r
    return r


def _needs_thaw_f(f):
    if f.op in ("le", "lt", "eq", "ne"):
        return any(_needs_thaw(b) for b in f.p.atoms())
    return any(_needs_thaw_f(g) for g in f.fs)


def thaw_atom(a):
    if not _needs_thaw(a):
        return patom(a)
    r = _THAW.get(a)
    if r is not None:
        return r
    at = _ATOMS[a]
    k = at.kind
    if k == "leaf":
        r = at.args[0]
    elif k == "pos":
        r = ppos(thaw(at.args[0]))
    elif k == "ind":
        r = indicator(thaw_f(at.args[0])).p
    elif k == "ite":
        r = ite(thaw_f(at.args[0]), Sc(thaw(at.args[1])),
                Sc(thaw(at.args[2]))).p
    elif k == "inv":
        r = Sc(thaw(at.args[0])).recip().p
    elif k == "sqrt":
        r = Sc(thaw(at.args[0])).sqrt().p
    elif k in ("sin", "cos"):
        r = Sc(thaw(at.args[0]))._trig(k).p
    elif k in ("fn", "exp"):
        r = Sc(thaw(at.args[0]))._fn(at.name).p
    elif k == "uf":
        r = patom(atom("uf", at.name, tuple(thaw(x) for x in at.args)))
    else:
        raise Unsupported("thaw " + k)
    _THAW[a] = r
    return r


def thaw_f(f):
    if not _HAS_LEAF[0] or not _needs_thaw_f(f):
        return f
    o = f.op
    if o in ("le", "lt", "eq", "ne"):
        p = thaw(f.p)
        return {"le": f_le, "lt": f_lt, "eq": f_eq, "ne": f_ne}[o](p)
    if o == "and":
        return f_and([thaw_f(g) for g in f.fs])
    if o == "or":
        return f_or([thaw_f(g) for g in f.fs])
    return f


def reset_all():
    reset_atoms()
    _THAW.clear()
    _NT.clear()
