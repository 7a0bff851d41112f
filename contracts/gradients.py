"""Every number of an answer carries its gradient: each is recorded as a
function of the parameters and never as a copy of their present values."""
import enum
import numpy as np
import torch
import gurobipy

F = torch.float64


def collect(v, out, seen):
    """The numbers an answer holds, in a fixed order (tensor entries and
    plain numbers); programs handed to the solver itself hold floats only
    and are not part of the answer."""
    if v is None or isinstance(v, (str, bool, int, type, enum.Enum,
                                   torch.dtype, gurobipy.Model,
                                   gurobipy.Var, torch.nn.Module)):
        return
    if isinstance(v, torch.Tensor):
        t = v.reshape((-1, ))
        out.extend(t[i] for i in range(t.shape[0]))
        return
    if isinstance(v, np.ndarray):
        out.extend(v.reshape((-1, )))
        return
    if any(v is s for s in seen):
        return
    seen.append(v)
    if isinstance(v, (list, tuple)):
        for e in v:
            collect(e, out, seen)
    elif isinstance(v, dict):
        for k in v:
            collect(v[k], out, seen)
    elif callable(v):
        return
    elif hasattr(v, "__dict__"):
        for k, e in sorted(vars(v).items()):
            collect(e, out, seen)
    else:
        out.append(v)      # a number


def numbers(v):
    out = []
    collect(v, out, [])
    return out


def differentiates(H, name, f, params):
    """f() answers with numbers that carry their gradient by params."""
    for p in params:
        p.requires_grad_(True)
    if H.sym:
        return H.carries(name, numbers(f()), params)
    rng = np.random.default_rng(7)

    def answer():
        return numbers(f())

    ref = answer()
    w = rng.uniform(0.5, 1.5, len(ref)) * rng.choice([-1, 1], len(ref))

    def total(values):
        return float(sum(
            wi * (float(x.detach()) if isinstance(x, torch.Tensor)
                  else float(x))
            for wi, x in zip(w, values) if np.isfinite(float(x))))

    g = sum((wi * x for wi, x in zip(w, ref) if isinstance(x, torch.Tensor)
             and x.requires_grad and torch.isfinite(x)),
            torch.zeros((), dtype=F))
    if g.requires_grad:
        grads = torch.autograd.grad(g, params, allow_unused=True)
    else:
        grads = [None] * len(params)
    here = total(ref)
    h = 1e-6
    for k, p in enumerate(params):
        for i in range(p.numel()):
            d = []
            for s in (-1., 1.):
                with torch.no_grad():
                    keep = p.data.reshape((-1, ))[i].item()
                    p.data.reshape((-1, ))[i] += s * h
                v = answer()
                d.append(s * (total(v) - here) / h
                         if len(v) == len(ref) else np.nan)
                with torch.no_grad():
                    p.data.reshape((-1, ))[i] = keep
            mean = (d[0] + d[1]) / 2
            scale = max(1., abs(mean))
            if not abs(d[0] - d[1]) <= 1e-4 * scale:
                continue      # not differentiable here
            got = 0. if grads[k] is None else grads[k].reshape(
                (-1, ))[i].item()
            H.true(f"{name}: gradient by entry {i} of parameter {k}",
                   abs(got - mean) <= 1e-3 * max(scale, abs(here) * 1e-2))
