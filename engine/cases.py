"""Registry of contract cases."""

CASES = []
CALLEES = set()


def by_contract(owner, attr):
    """Record that the run replaces this function by its contract."""
    old = getattr(owner, attr, None)
    o = owner if hasattr(owner, "__name__") else type(owner)
    q = getattr(old, "__qualname__", None)
    m = getattr(old, "__module__", None)
    if q is None or m is None or not isinstance(m, str):
        m, q = getattr(o, "__module__", ""), \
            f"{getattr(o, '__qualname__', o.__name__)}.{attr}"
    elif m.startswith(("engine", "contracts")):
        m, q = "", f"{o.__name__}.{attr}"
    n = f"{m}.{q}".strip(".").replace("neural_network_lyapunov.", "")
    n = n.replace("engine.shim_torch.", "").replace("torch.torch.", "torch.")
    CALLEES.add(n.replace(".<locals>", ""))


class Case:

    def __init__(self, prop, name, fn, args, functions, scope, budget,
                 con_weight, kind, tier):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.args = args
        self.functions = functions
        self.scope = scope
        self.budget = budget
        self.con_weight = con_weight
        self.kind = kind
        self.tier = tier

    @property
    def id(self):
        a = ",".join(str(x) for x in self.args)
        return self.name + (f"[{a}]" if a else "")


def case(prop, functions, params=((), ), scope="full", budget=60.,
         con_weight=1., kind="both", tier="quick", name=None, thorough=()):
    """Register a contract.

    functions: functions of /repo whose contract this is
    params:    instances (tuples of arguments)
    scope:     "full" when the instances cover the function's domain for all
               inputs; otherwise the stated bound
    kind:      "both", "sym" (deductive only) or "con" (bounded stand-in)
    thorough:  further instances for the thorough tier
    """

    def deco(fn):
        for t, ps in (("quick", params), ("thorough", thorough)):
            for p in ps:
                if not isinstance(p, tuple):
                    p = (p, )
                CASES.append(
                    Case(prop, name or fn.__name__, fn, p, functions, scope,
                         budget, con_weight, kind,
                         t if tier == "quick" else "thorough"))
        return fn

    return deco


def select(prop, tier):
    cs = [c for c in CASES if c.prop == prop and
          (tier == "thorough" or c.tier == "quick")]
    ids = [c.id for c in cs]
    assert len(set(ids)) == len(ids), "duplicate case ids"
    return cs


class System:
    """Linear constraints over unknowns; kinds[i] is 'C' or 'B'."""

    def __init__(self, kinds, rows, names=None):
        self.kinds = list(kinds)
        self.rows = list(rows)  # ({index: coef}, sense, rhs, name)
        self.names = names or [f"v{i}" for i in range(len(self.kinds))]

    def extend(self, rows):
        return System(self.kinds, self.rows + list(rows), self.names)


class ContractMismatch(Exception):
    """The contract no longer fits the code's interface (not a violation)."""
