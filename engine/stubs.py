"""Contracts of callees put in the place of the functions: called the way the
function itself may be called, by position or by its parameters' names."""
import functools
import inspect

POS = (inspect.Parameter.POSITIONAL_ONLY,
       inspect.Parameter.POSITIONAL_OR_KEYWORD)


def shape_of(f):
    try:
        ps = list(inspect.signature(f).parameters.values())
    except (TypeError, ValueError):
        return None
    return ([p.name for p in ps if p.kind in POS],
            any(p.kind is inspect.Parameter.VAR_POSITIONAL for p in ps),
            [p.name for p in ps])


def as_called(real, spec):
    """spec, also when its parameters are given by the names real has."""
    r, s = shape_of(real), shape_of(spec)
    if r is None or s is None or spec is real:
        return spec
    rpos, (spos, star, snames) = r[0], s
    own = set(spos) <= set(r[2])

    def f(*a, **k):
        a, kk, left = list(a), {}, dict(k)
        if not own and not star and len(a) < len(spos):
            # what follows by name stands where the function has it
            while left and len(a) < len(rpos) and len(a) < len(spos) and \
                    rpos[len(a)] in left:
                a.append(left.pop(rpos[len(a)]))
        elif star:
            while left and len(a) < len(rpos) and rpos[len(a)] in left:
                a.append(left.pop(rpos[len(a)]))
        for n, v in left.items():
            i = rpos.index(n) if n in rpos else None
            if not own and i is not None and i < len(spos) and \
                    n not in snames:
                n = spos[i]
            kk[n] = v
        return spec(*a, **kk)

    try:
        functools.update_wrapper(f, spec)
    except AttributeError:
        pass
    return f


def is_code(f):
    return inspect.isroutine(f) and (
        getattr(f, "__module__", None) or "").startswith(
            "neural_network_lyapunov")


def stub(obj, **specs):
    """Methods of one object replaced by their contracts."""
    for n, f in specs.items():
        real = getattr(obj, n, None)
        setattr(obj, n, as_called(real, f) if is_code(real) else f)


def contract_of(real):
    """Decorates a method that stands for this one (self included)."""
    return lambda f: as_called(real, f)


def stands_for(*real):
    """A class whose methods are the contracts of those of the real one."""

    def f(cls):
        for n, m in list(vars(cls).items()):
            if inspect.isfunction(m) and not n.startswith("__"):
                r = next((getattr(c, n) for c in real if hasattr(c, n)), None)
                if inspect.isfunction(r):
                    setattr(cls, n, as_called(r, m))
        return cls

    return f
