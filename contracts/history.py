"""What a call answers depends on its arguments and on the present state of
the objects alone: not on earlier calls, and it changes neither."""
import enum
import numpy as np
import torch
import gurobipy

F = torch.float64


def snap(H, v, seen=()):
    """Everything a caller can read from v, as nested tuples of leaves."""
    if v is None or isinstance(v, (str, bool, type, enum.Enum,
                                   torch.dtype)):
        return ("const", str(v))
    if isinstance(v, torch.Tensor):
        return ("tensor", tuple(v.shape)), H.vecl(v.detach().reshape((-1, )))
    if isinstance(v, np.ndarray):
        return ("array", tuple(v.shape)), [e for e in v.reshape((-1, ))]
    if isinstance(v, torch.nn.Module):
        return ("module", [snap(H, p) for p in v.parameters()])
    if isinstance(v, gurobipy.Var):
        return ("var", [v.index])
    if any(v is s for s in seen):
        return ("seen", )
    seen = seen + (v, )
    if isinstance(v, (list, tuple)):
        return ("list", [snap(H, e, seen) for e in v])
    if isinstance(v, (set, frozenset)):
        return ("set", [str(e) for e in sorted(v)])
    if isinstance(v, dict):
        return ("dict", [(snap(H, k, seen), snap(H, e, seen))
                         for k, e in v.items()])
    if isinstance(v, gurobipy.Model):
        s = H.model_system(v)
        return ("model", list(s.kinds),
                [(sorted(co.items()), sense, rhs)
                 for co, sense, rhs, _ in s.rows],
                sorted((x.index, k) for x, k in v._obj.c.items()),
                v._obj.const, v.ModelSense)
    if callable(v):
        return ("callable", )
    if hasattr(v, "__dict__"):
        return ("object", type(v).__name__,
                [(k, snap(H, e, seen)) for k, e in sorted(
                    vars(v).items())])
    return v        # a number


def leaves(v, out):
    """(structure, numbers) of a snapshot."""
    if isinstance(v, (list, tuple)):
        return tuple(leaves(e, out) for e in v)
    if isinstance(v, str):
        return v
    out.append(v)
    return "#"


def same(H, name, a, b):
    x, y = [], []
    sa, sb = leaves(a, x), leaves(b, y)
    H.true(name + ": form", sa == sb)
    H.true(name + ": size", len(x) == len(y))
    if len(x) != len(y):
        return
    if H.sym:
        # one obligation for all numbers of the answer
        return H.true(name, H.and_(*[H.scalar(p) == H.scalar(q)
                                     for p, q in zip(x, y)]))
    for i, (p, q) in enumerate(zip(x, y)):
        if np.isinf(p) or np.isinf(q):
            H.true(f"{name}[{i}]", p == q)
        else:
            H.eq(f"{name}[{i}]", p, q)


def net(values):
    """A real network of these weights: [(W, b)], ReLUs between."""
    layers = []
    for i, (W, b) in enumerate(values):
        lin = torch.nn.Linear(W.shape[1], W.shape[0], bias=b is not None,
                              dtype=F)
        lin.weight.data = W.detach().clone()
        if b is not None:
            lin.bias.data = b.detach().clone()
        layers += [lin, torch.nn.ReLU()]
    return torch.nn.Sequential(*layers[:-1])


def weights(H, name, widths):
    return [(H.tensor(f"{name}.W{i}", m, n), H.tensor(f"{name}.b{i}", m))
            for i, (n, m) in enumerate(zip(widths, widths[1:]))]


def fixed(widths, k=0):
    """Weights of another network: plain numbers."""
    out = []
    for n, m in zip(widths, widths[1:]):
        k += 1
        out.append((torch.tensor([[0.5 + 0.25 * ((i + 2 * j + k) % 5) - 0.75
                                   for j in range(n)] for i in range(m)],
                                 dtype=F),
                    torch.tensor([0.125 * (i + k) for i in range(m)],
                                 dtype=F)))
    return out


def train(network, values):
    """The parameters become these, in place (as optimizers do)."""
    with torch.no_grad():
        for p, q in zip(network.parameters(),
                        [t for W in values for t in W if t is not None]):
            p.data.copy_(q)


class Refusing:
    """A call that may be refused: a refusal is an answer."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *args):
        try:
            return self.f(*args)
        except Exception as e:
            if type(e).__module__.startswith("engine"):
                raise
            return ("refused", type(e).__name__)


def answer(H, f, *args):
    return snap(H, f(*args))


def replay(H, build, now, before, calls, move=None):
    """build(state) makes an object; calls: [(name, f(object, state))].

    An object made in the state `before`, used there and then moved to `now`
    answers as a new one made in `now`, also when asked once more in any
    order; no call changes the state."""
    old = build(before)
    for _, f in calls:
        answer(H, f, old, before)
        # asked already before the change what is asked after it
        answer(H, f, old, now)
    move(old, now)
    new = build(now)
    ref = {}
    for n, f in calls:
        keep = snap(H, now)
        ref[n] = answer(H, f, new, now)
        same(H, n + " keeps its arguments", snap(H, now), keep)
    H.cover()
    for n, f in calls:
        same(H, n, answer(H, f, old, now), ref[n])
    for n, f in reversed(calls):
        same(H, n + " once more", answer(H, f, new, now), ref[n])
