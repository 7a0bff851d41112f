"""Parts of the contract-writing interface shared by both back ends."""
from .cases import System


class HBase:
    """Functions that are the same for both back ends."""

    # ---- systems of linear constraints
    def unbounded(self, v):
        """The variable has no bound."""
        return self.no_lower(v.lb) and self.no_upper(v.ub)

    def no_lower(self, x):
        return self.isinf(x) and self.sign_of_inf(x) < 0

    def no_upper(self, x):
        return self.isinf(x) and self.sign_of_inf(x) > 0

    def cnstr_system(self, c, x, gates=None):
        """System over (output o, slack s, binary z) of a
        MixedIntegerConstraintsReturn at the input x.

        Layout of unknowns: [slacks..., binaries...]; outputs through
        out_expr()."""
        x = self.vecl(x)
        ns, nz = self._cols(c, "slack"), self._cols(c, "binary")
        kinds = ["C"] * ns + ["B"] * nz
        rows = []

        def block(pre, sense, rhs):
            if rhs is None:
                return
            rhs = self.vecl(rhs)
            Mx = getattr(c, f"A{pre}_input")
            Ms = getattr(c, f"A{pre}_slack")
            Mz = getattr(c, f"A{pre}_binary")
            for i in range(len(rhs)):
                r = rhs[i]
                if Mx is not None:
                    for j in range(len(x)):
                        r = r - self.el(Mx, i, j) * x[j]
                co = {}
                if Ms is not None:
                    for j in range(ns):
                        co[j] = self.el(Ms, i, j)
                if Mz is not None:
                    for j in range(nz):
                        co[ns + j] = self.el(Mz, i, j)
                rows.append((co, sense, r, f"{pre}{i}"))

        block("in", "<", c.rhs_in)
        block("eq", "=", c.rhs_eq)
        for off, n, lo, up, nm in ((0, ns, c.slack_lo, c.slack_up, "slack"),
                                   (ns, nz, c.binary_lo, c.binary_up,
                                    "binary")):
            for (b, sense) in ((lo, ">"), (up, "<")):
                if b is None:
                    continue
                b = self.vecl(b)
                for i in range(len(b)):
                    if self.isinf(b[i]):
                        if (self.sign_of_inf(b[i]) > 0) == (sense == ">"):
                            # no value is above +inf or below -inf
                            rows.append(({}, "<", self.num(-1.),
                                         f"{nm}{sense}{i} infinite"))
                        continue
                    rows.append(({off + i: 1.}, sense, b[i],
                                 f"{nm}{sense}{i}"))
        for b, sense in ((c.input_lo, "<"), (c.input_up, ">")):
            # lo <= x  is  0*... : constant rows
            if b is None:
                continue
            b = self.vecl(b)
            for i in range(len(b)):
                if self.isinf(b[i]):
                    if (self.sign_of_inf(b[i]) > 0) == (sense == "<"):
                        rows.append(({}, "<", self.num(-1.),
                                     f"input{i} infinite"))
                    continue
                if sense == "<":
                    rows.append(({}, "<", x[i] - b[i], f"input_lo{i}"))
                else:
                    rows.append(({}, "<", b[i] - x[i], f"input_up{i}"))
        s = System(kinds, rows)
        s.ns, s.nz = ns, nz
        return s

    def _cols(self, c, what):
        for pre in ("Ain_", "Aeq_", "Aout_"):
            m = getattr(c, pre + what)
            if m is not None:
                sh = tuple(m.shape)
                return sh[-1]
        for b in (getattr(c, what + "_lo"), getattr(c, what + "_up")):
            if b is not None:
                return int(b.shape[0])
        return 0

    def out_expr(self, c, x, sysm, i=0):
        """({index: coef}, const) of output i."""
        x = self.vecl(x)
        co, k = {}, 0.

        def row(M, n):
            if len(M.shape) == 1:
                return [self.el1(M, j) for j in range(n)]
            return [self.el(M, i, j) for j in range(n)]

        if c.Aout_input is not None:
            for j, a in enumerate(row(c.Aout_input, len(x))):
                k = k + a * x[j]
        if c.Aout_slack is not None:
            for j, a in enumerate(row(c.Aout_slack, sysm.ns)):
                co[j] = a
        if c.Aout_binary is not None:
            for j, a in enumerate(row(c.Aout_binary, sysm.nz)):
                co[sysm.ns + j] = a
        if c.Cout is not None:
            v = self.vecl(c.Cout)
            k = k + v[i]
        return co, k

    def model_system(self, m, fixed=()):
        """System of a gurobi model; fixed: {Var: value}."""
        fixed = dict(fixed)
        free = [v for v in m.getVars() if v not in fixed]
        ix = {v: i for i, v in enumerate(free)}
        kinds = ["B" if v.vtype == "B" else "C" for v in free]
        rows = []
        for co, sense, rhs, nm in m.rows():
            d = {}
            for v, k in co.items():
                if v in ix:
                    d[ix[v]] = d[ix[v]] + k if ix[v] in d else k
                else:
                    rhs = rhs - k * fixed[v]
            rows.append((d, sense, rhs, nm))
        s = System(kinds, rows, [v.VarName for v in free])
        s.ix = ix
        return s

    def add_cnstr_to_new_model(self, c, x, module, binary_type=None):
        raise NotImplementedError

    def expr_at(self, co, k, point):
        for i, a in co.items():
            k = k + a * point[i]
        return k

    # ---- value helpers
    def vecl(self, t):
        """flat list of scalars"""
        raise NotImplementedError

    def dot(self, a, b):
        r = 0.
        a, b = self.vecl(a), self.vecl(b)
        assert len(a) == len(b)
        for x, y in zip(a, b):
            r = r + x * y
        return r

    def matl(self, M):
        """nested list of scalars"""
        n, m = tuple(M.shape)
        return [[self.el(M, i, j) for j in range(m)] for i in range(n)]

    def mv(self, M, v):
        v = self.vecl(v)
        return [self.dot(r, v) for r in self.matl(M)]

    def el(self, M, i, j):
        return self.scalar(M[i][j])

    def el1(self, M, j):
        return self.scalar(M[j])

    def relu(self, x):
        return self.max(x, 0.)

    def leaky(self, x, c):
        """leaky ReLU, any slope c >= 0"""
        return self.relu(x) - c * self.relu(-x)

    def absv(self, x):
        return self.max(x, -x)

    def clampv(self, x, lo, up):
        return self.max(lo, self.min(x, up))

    def eqv(self, name, a, b, tol=None):
        a, b = self.vecl(a), self.vecl(b)
        self.true(name + ".len", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq(f"{name}[{i}]", x, y, tol)

    def lev(self, name, a, b):
        a, b = self.vecl(a), self.vecl(b)
        self.true(name + ".len", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            self.le(f"{name}[{i}]", x, y)

    def shape(self, name, t, sh):
        self.true(name, tuple(t.shape) == tuple(sh))

    def same_tensor(self, name, a, b):
        self.true(name + ".shape", tuple(a.shape) == tuple(b.shape))
        self.eqv(name, a, b)

    def uninterp(self, name, *args):
        raise NotImplementedError
