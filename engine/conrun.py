"""Concrete runs of the same contracts on the real code: cross-check of the
deductive engine, bounded stand-in, and replay of counterexamples."""
import json
import multiprocessing as mp
import random
import re
import time
import traceback
import types


def classify(e):
    """Is an exception raised by the code under contract?"""
    tb = traceback.extract_tb(e.__traceback__)
    last = None
    for f in tb:
        if "/contracts/" in f.filename:
            last = "contract"
        elif "/neural_network_lyapunov/" in f.filename:
            last = "code"
    return last


SIGNATURE = re.compile(r"unexpected keyword argument|missing \d+ required|"
                       r"takes (no|from|\d+|\w+) .*arguments? but|"
                       r"takes no arguments|multiple values for")


def interface(e, who):
    """Does the exception only say that the code's inner interface (names,
    signatures, what a stand-in of the contract is asked for) changed?"""
    if isinstance(e, (ImportError, NameError)) and \
            not isinstance(e, UnboundLocalError):
        return who == "contract" or isinstance(e, ImportError)
    if isinstance(e, TypeError):
        return bool(SIGNATURE.search(str(e)))
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if o is None:  # a missing value, not a missing name
            return False
        m = o.__name__ if isinstance(o, types.ModuleType) else (
            o if isinstance(o, type) else type(o)).__module__
        if m.startswith(("contracts", "engine", "gurobipy", "cvxpy")) or \
                isinstance(o, types.SimpleNamespace):
            return True
        if isinstance(o, types.ModuleType) or \
                type(o).__module__.startswith("neural_network_lyapunov") or \
                isinstance(o, type):
            return who == "contract"
        return False
    return False


def _trim(e):
    tb = traceback.extract_tb(e.__traceback__)
    return [f"{f.filename}:{f.lineno} in {f.name}: {f.line}"
            for f in tb[-8:]]


def one(c, seed, presets=None):
    """Returns (kind, detail, H)."""
    from . import h_con, cases, gurobi_core
    import torch
    import numpy as np
    import warnings
    warnings.simplefilter("ignore")
    torch.manual_seed(seed)
    np.random.seed(seed % (2**32 - 1))
    random.seed(seed)
    gurobi_core.MODELS.clear()
    H = h_con.ConH(seed, presets)
    try:
        c.fn(H, *c.args)
        return "ok", None, H
    except h_con.Skip:
        return "skip", None, H
    except h_con.Violation as e:
        return "violation", {"obligation": e.name, "detail": e.detail}, H
    except cases.ContractMismatch as e:
        return "mismatch", {"detail": str(e)}, H
    except Exception as e:
        who = classify(e)
        d = {"obligation": "no-exception",
             "detail": f"{type(e).__name__}: {e}"[:400], "tb": _trim(e)}
        if interface(e, who):
            return "mismatch", d, H
        if who == "code" and (presets or not isinstance(e, MemoryError)):
            return "violation", d, H
        if who == "contract":
            return "violation", d, H
        return "mismatch", d, H


def partial(pr, rnd, rng):
    """Some of a model's values: the large ones, those that are not zero,
    or a random part."""
    def size(v):
        return abs(v) if isinstance(v, (int, float)) else 1.

    if rnd % 4 == 0:
        top = max([size(v) for v in pr.values()], default=0.)
        return {k: v for k, v in pr.items() if size(v) > top / 10 and top > 0}
    if rnd % 4 == 1:
        return {k: v for k, v in pr.items() if size(v) != 0}
    share = rng.choice([0.1, 0.3, 0.6])
    return {k: v for k, v in pr.items() if rng.random() < share}


def run_case(c, seed, secs, nmax, presets_list=()):
    res = {"case": c.id, "runs": 0, "skips": 0, "checks": 0, "nontrivial": 0,
           "violation": None, "mismatch": None, "samples": []}
    t0 = time.time()
    for pr, ob in presets_list:
        k, d, H = one(c, seed, pr)
        res["replays"] = res.get("replays", 0) + 1
        if k == "violation":
            res["violation"] = dict(d, seed=seed, presets=pr,
                                    values=H.values, source="counterexample",
                                    from_obligation=ob)
            return res
    # the same with only some of the values: a model of an abstraction, or
    # one that an assumption rules out, still shows the branch to take
    rng = random.Random(seed)
    for rnd in range(16):
        for pr, ob in presets_list[:12]:
            if time.time() - t0 > secs / 2:
                break
            part = partial(pr, rnd, rng)
            if not part or any(abs(v) > 1e6 for v in part.values()
                               if isinstance(v, (int, float))):
                continue
            s = seed * 7907 + rnd
            k, d, H = one(c, s, part)
            res["replays"] += 1
            if k == "violation":
                res["violation"] = dict(d, seed=s, presets=part,
                                        values=H.values,
                                        source="counterexample",
                                        from_obligation=ob)
                return res
    i = 0
    while res["runs"] < nmax and i < 40 * nmax and \
            time.time() - t0 < secs:
        s = seed * 1000003 + i * 7919 + sum(map(ord, c.id))
        i += 1
        k, d, H = one(c, s)
        if k == "skip":
            res["skips"] += 1
            continue
        if k == "mismatch":
            res["mismatch"] = d
            break
        res["runs"] += 1
        res["checks"] += H.checks
        res["nontrivial"] += 1 if H.checks else 0
        if len(res["samples"]) < 2:
            res["samples"].append({"case": c.id, "seed": s, "inputs": dict(
                list(H.values.items())[:12])})
        if k == "violation":
            res["violation"] = dict(d, seed=s, presets=None, values=H.values,
                                    source="sampling")
            break
    res["secs"] = time.time() - t0
    return res


def _load(prop):
    from . import loader, symrun
    loader.setup(False)
    import importlib
    import torch
    torch.set_num_threads(1)
    err = []
    for n in symrun.modules_for(prop):
        try:
            importlib.import_module("contracts." + n)
        except Exception:
            err.append((n, traceback.format_exc()[-1500:]))
    return err


def _child(c, args, q, i):
    try:
        r = run_case(c, *args)
    except BaseException:
        r = {"case": c.id, "crash": traceback.format_exc()[-1500:]}
    q.put((i, r))


def run(prop, tier, jobs, seed, secs, nmax, presets=None, only=None):
    err = _load(prop)
    from . import cases
    presets = presets or {}
    cs = [c for c in cases.select(prop, tier)
          if c.kind in ("both", "con") or c.id in presets]
    if only is not None:
        cs = [c for c in cs if any(o in c.id for o in only)]
    ctx = mp.get_context("fork")
    q = ctx.SimpleQueue()
    pending = list(enumerate(cs))[::-1]
    live, out = {}, {}
    while pending or live:
        while pending and len(live) < jobs:
            i, c = pending.pop()
            s = secs * c.con_weight
            p = ctx.Process(target=_child, args=(
                c, (seed, s, nmax, presets.get(c.id, ())), q, i))
            p.start()
            live[i] = (p, time.time() + s * 3 + 60, c)
        while not q.empty():
            i, r = q.get()
            out[i] = r
        for i in list(live):
            p, dl, c = live[i]
            if not p.is_alive():
                p.join()
                while not q.empty():
                    j, r = q.get()
                    out[j] = r
                out.setdefault(i, {"case": c.id, "crash": "died"})
                del live[i]
            elif time.time() > dl:
                p.kill()
                p.join()
                out[i] = {"case": c.id, "crash": "timeout"}
                del live[i]
        time.sleep(0.02)
    return [dict(out[i], scope=cs[i].scope, functions=cs[i].functions,
                 kind=cs[i].kind) for i in range(len(cs))], err


def brief(r):
    if "crash" in r:
        print("CRASH", r["case"], r["crash"])
        return
    print(f"{r['case']}: runs={r['runs']} skips={r['skips']} "
          f"checks={r['checks']} {r.get('secs', 0):.1f}s")
    if r["violation"]:
        v = r["violation"]
        print("   VIOL", v["obligation"], v["detail"], "seed", v["seed"])
        for t in v.get("tb", []):
            print("       ", t)
        print("      ", str(v["values"])[:500])
    if r["mismatch"]:
        print("   MISMATCH", r["mismatch"])


if __name__ == "__main__":
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default="quick")
    a.add_argument("--jobs", type=int, default=8)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--secs", type=float, default=3.)
    a.add_argument("--nmax", type=int, default=200)
    a.add_argument("--only", action="append")
    a.add_argument("--presets")
    a.add_argument("--out")
    a = a.parse_args()
    pr = json.load(open(a.presets)) if a.presets else None
    rs, le = run(a.prop, a.tier, a.jobs, a.seed, a.secs, a.nmax, pr, a.only)
    if a.out:
        with open(a.out, "w") as fh:
            json.dump({"results": rs, "load_errors": le}, fh)
    else:
        for r in rs:
            brief(r)
        for n, e in le:
            print("LOAD", n, e)
