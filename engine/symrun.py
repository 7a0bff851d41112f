"""Deductive runs: one process per case, every path, every obligation."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback


def _load(prop):
    from . import loader
    loader.setup(True)
    import importlib
    names = contract_modules()
    for n in names:
        importlib.import_module("contracts." + n)


def contract_modules():
    d = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), "contracts")
    return sorted(f[:-3] for f in os.listdir(d)
                  if f.endswith(".py") and f[0] == "c")


def modules_for(prop):
    """Contract files that register cases for prop (by a textual scan)."""
    d = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), "contracts")
    out = []
    for n in contract_modules():
        with open(os.path.join(d, n + ".py")) as fh:
            if f'"{prop}"' in fh.read():
                out.append(n)
    return out


def run_case(c, deadline, obl_budget):
    """All paths of one case."""
    from . import cases, sym, prover, shim_torch, gurobi_core, h_sym
    stack = [()]
    res = {"case": c.id, "paths": 0, "pruned": 0, "obl": {}, "unsup": [],
           "exc": [], "covers": [], "assumed": [], "forks": 0,
           "incomplete": False, "secs": 0.}
    t0 = time.time()
    covers, assumed = set(), set()
    while stack:
        if time.time() > deadline:
            res["incomplete"] = True
            break
        prefix = stack.pop()
        sym.reset_all()
        prover.LIN.reset()
        shim_torch.reset()
        gurobi_core.MODELS.clear()
        p = prover.Path(prefix)
        sym.set_oracle(p)
        H = h_sym.SymH(p, obl_budget, deadline)
        try:
            c.fn(H, *c.args)
            res["paths"] += 1
        except sym.Infeasible:
            if H.obl:
                res["paths"] += 1
            else:
                res["pruned"] += 1
        except sym.Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next((f"{os.path.basename(f.filename)}:{f.lineno}"
                          for f in reversed(tb)
                          if "neural_network_lyapunov" in f.filename or
                          "contracts" in f.filename), "?")
            res["unsup"].append(f"{e} @ {where}")
        except RecursionError:
            res["unsup"].append("recursion limit")
        except Exception as e:
            if p.feasible() and not impossible(p):
                tb = traceback.extract_tb(e.__traceback__)
                res["exc"].append({
                    "error": f"{type(e).__name__}: {e}"[:300],
                    "tb": [f"{f.filename}:{f.lineno} {f.line}"
                           for f in tb[-8:]],
                    "model": _ser(_exc_model(p), H.choices),
                })
            else:
                res["pruned"] += 1
        finally:
            H.undo()
        stack.extend(p.alts)
        covers |= H.covers
        assumed |= H.assumed
        for o in H.obl:
            r = res["obl"].setdefault(
                o.name, {"n": 0, "proved": 0, "backends": {}, "secs": 0.,
                         "bad": []})
            r["n"] += 1
            r["secs"] += o.secs
            if o.status == "proved":
                r["proved"] += 1
                r["backends"][o.backend] = \
                    r["backends"].get(o.backend, 0) + 1
            elif len(r["bad"]) < 4:
                r["bad"].append({
                    "status": o.status, "goal": o.text, "hint": o.hint,
                    "abstract": o.abstract,
                    "model": _ser(o.model, H.choices)})
        if len(res["unsup"]) + len(res["exc"]) > 20:
            res["incomplete"] = True
            break
    res["covers"] = sorted(covers)
    res["assumed"] = sorted(assumed)
    res["callees"] = sorted(cases.CALLEES)
    res["secs"] = time.time() - t0
    return res


def impossible(p):
    """The full prover refutes the facts of the path."""
    from . import prover, sym
    return prover.prove(list(p.facts), sym.f_or([]), 5.).status == "proved"


def _exc_model(p):
    import z3
    from . import sym
    if p.s.check() != z3.sat:
        return None
    m = p.s.model()
    from .prover import _to_fraction
    out = {}
    for i, at in enumerate(sym._ATOMS):
        if at.kind == "var":
            out[at.name] = _to_fraction(
                m.eval(z3.Real(f"a{i}"), model_completion=True))
    return out


def _ser(model, choices):
    if model is None:
        return None
    d = {k: float(v) for k, v in model.items() if not k.startswith("!")}
    d.update(choices)
    return d


def _child(c, deadline, ob, q, i):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        r = run_case(c, deadline, ob)
    except MemoryError:
        r = {"case": c.id, "crash": "memory"}
    except BaseException:
        r = {"case": c.id, "crash": traceback.format_exc()[-1500:]}
    q.put((i, r))


def run(prop, tier, jobs, total, only=None, verbose=False):
    """Run every case of prop; returns the list of results."""
    from . import loader
    loader.setup(True)
    import importlib
    load_err = []
    for n in modules_for(prop):
        try:
            importlib.import_module("contracts." + n)
        except Exception:
            load_err.append((n, traceback.format_exc()[-1500:]))
    from . import cases
    cs = [c for c in cases.select(prop, tier) if c.kind in ("both", "sym")]
    if only:
        only = [only] if isinstance(only, str) else only
        cs = [c for c in cs if any(o in c.id for o in only)]
    ctx = mp.get_context("fork")
    q = ctx.SimpleQueue()
    start = time.time()
    pending = list(enumerate(cs))[::-1]
    live = {}
    out = {}
    mult = 1. if tier == "quick" else 6.
    while pending or live:
        while pending and len(live) < jobs:
            i, c = pending.pop()
            b = min(c.budget * mult, max(5., total - (time.time() - start)))
            dl = time.time() + b
            p = ctx.Process(target=_child,
                            args=(c, dl, 12. if tier == "quick" else 60.,
                                  q, i))
            p.start()
            live[i] = (p, dl + 25., c)
        while not q.empty():
            i, r = q.get()
            out[i] = r
            if verbose:
                brief(r)
        for i in list(live):
            p, dl, c = live[i]
            if not p.is_alive():
                p.join()
                while not q.empty():
                    j, r = q.get()
                    out[j] = r
                    if verbose:
                        brief(r)
                out.setdefault(i, {"case": c.id, "crash": "died"})
                del live[i]
            elif time.time() > dl:
                p.kill()
                p.join()
                out[i] = {"case": c.id, "crash": "timeout"}
                del live[i]
        time.sleep(0.02)
    return [dict(out[i], scope=cs[i].scope, functions=cs[i].functions)
            for i in range(len(cs))], load_err


def brief(r):
    if "crash" in r:
        print("CRASH", r["case"], r["crash"])
        return
    n = sum(o["n"] for o in r["obl"].values())
    k = sum(o["proved"] for o in r["obl"].values())
    print(f"{r['case']}: paths={r['paths']} pruned={r['pruned']} "
          f"obl={k}/{n} {r['secs']:.1f}s" +
          (" INCOMPLETE" if r["incomplete"] else ""))
    for nm, o in r["obl"].items():
        for b in o["bad"][:1]:
            print("   BAD", nm, b["status"], "hint" if b["hint"] else "",
                  b["goal"][:300])
            print("      ", str(b["model"])[:600])
    for u in sorted(set(r["unsup"]))[:5]:
        print("   UNSUP", u)
    for e in r["exc"][:3]:
        print("   EXC", e["error"])
        for t in e["tb"]:
            print("       ", t)
        print("       ", str(e["model"])[:300])


if __name__ == "__main__":
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default="quick")
    a.add_argument("--jobs", type=int, default=8)
    a.add_argument("--total", type=float, default=600.)
    a.add_argument("--only", action="append")
    a.add_argument("--out")
    a = a.parse_args()
    rs, le = run(a.prop, a.tier, a.jobs, a.total, a.only, not a.out)
    if a.out:
        with open(a.out, "w") as fh:
            json.dump({"results": rs, "load_errors": le}, fh)
    else:
        for n, e in le:
            print("LOAD", n, e)
