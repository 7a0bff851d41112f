#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   verify one property
   check.py --replay FILE                      replay a recorded violation

Runs the contracts of a property against /repo's current source with the
deductive back end (obligations -> z3 / cvc5) and with the concrete back end
(same contracts, real torch); refuted obligations are replayed on the real
code.  Exit 0: held; 1: VIOLATION; 3: the check itself failed."""
import argparse
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SYM = os.environ.get("VERIF_SYM_PY", "/opt/veriftools/pyvenv/bin/python")
CON = os.environ.get("VERIF_CON_PY", "/opt/venv/bin/python")
EV = os.environ.get("VERIF_EV", os.path.join(HERE, "evidence"))


def env():
    e = dict(os.environ)
    e["PYTHONPATH"] = HERE
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["MKL_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["PYTHONHASHSEED"] = "0"
    return e


def start(py, module, args, log):
    return subprocess.Popen([py, "-m", module] + args, cwd=HERE, env=env(),
                            stdout=log, stderr=subprocess.STDOUT,
                            start_new_session=True)


def wait(p, secs):
    try:
        p.wait(timeout=secs)
        return True
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return False


def load(f):
    try:
        with open(f) as fh:
            return json.load(fh)
    except Exception:
        return None


def known_findings():
    k = load(os.path.join(HERE, "known_findings.json")) or {}
    return k.get("findings", [])


def match_known(prop, case, v):
    for k in known_findings():
        if k.get("status") != "known" or k["property"] != prop:
            continue
        if re.fullmatch(k["case"], case) and \
                re.search(k["detail"], v["obligation"] + ": " +
                          v.get("detail", "")):
            return k
    return None


def run_check(prop, tier, seed, only=(), jobs="8"):
    t0 = time.time()
    part = [x for o in only for x in ("--only", o)]
    os.makedirs(os.path.join(EV, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(EV, "replay")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(EV, "replay", f))
    tmp = tempfile.mkdtemp(prefix="verif_")
    q = tier == "quick"
    total = 390. if q else 3000.
    fs, fc, fr = [os.path.join(tmp, n) for n in
                  ("sym.json", "con.json", "rep.json")]
    lg = open(os.path.join(tmp, "log"), "w")
    ps = start(SYM, "engine.symrun", part + [
        prop, "--tier", tier, "--jobs", jobs, "--total", str(total), "--out",
        fs], lg)
    pc = start(CON, "engine.conrun", part + [
        prop, "--tier", tier, "--jobs", jobs, "--seed", str(seed), "--secs",
        "4" if q else "60", "--nmax", "120" if q else "3000", "--out", fc],
        lg)
    wait(pc, 420 if q else 5000)
    wait(ps, max(20., t0 + (600 if q else 9000) - time.time()))
    sym, con = load(fs), load(fc)
    if con is None:
        sys.stdout.write(open(os.path.join(tmp, "log")).read()[-4000:])
        print("check.py: the concrete back end did not finish")
        return 3
    errs = [f"{n}: {e}" for n, e in con["load_errors"]]
    if sym is None:
        sym = {"results": [], "load_errors": [["symrun", "did not finish"]]}
    errs += [f"{n}: {e}" for n, e in sym["load_errors"]]
    # ---- replay of refuted obligations
    presets = {}
    for r in sym["results"]:
        ms = []
        for e in r.get("exc", [])[:6]:
            if e["model"]:
                ms.append((e["model"], "no-exception: " + e["error"]))
        for nm, o in r.get("obl", {}).items():
            for b in o["bad"][:2]:
                if b["model"]:
                    ms.append((b["model"], nm))
        if ms or any(o["bad"] for o in r.get("obl", {}).values()):
            presets[r["case"]] = ms[:60]
    rep = None
    if presets:
        pf = os.path.join(tmp, "presets.json")
        json.dump(presets, open(pf, "w"))
        a = [prop, "--tier", tier, "--jobs", jobs, "--seed", str(seed + 17),
             "--secs", "20" if q else "120", "--nmax",
             "600" if q else "5000", "--presets", pf, "--out", fr]
        for c in presets:
            a += ["--only", c]
        p = start(CON, "engine.conrun", a, lg)
        wait(p, 250 if q else 2000)
        rep = load(fr)
    # ---- verdict
    violations, knowns = [], []
    seen = set()
    for src in ([rep] if rep else []) + [con]:
        for r in src["results"]:
            v = r.get("violation")
            if v and r["case"] not in seen:
                seen.add(r["case"])
                k = match_known(prop, r["case"], v)
                if k:
                    knowns.append((k, r["case"]))
                else:
                    violations.append(dict(v, case=r["case"], replayed=True))
    n_obl = n_ok = 0
    backends, secs = {}, 0.
    undis, unsup, bycase = [], [], []
    assumed = set((load(os.path.join(HERE, "assumptions.json")) or {})
                  .get(prop, []))
    callees = set()
    functions = set()
    bounded = set()
    for r in sym["results"]:
        functions |= set(r["functions"])
        callees |= set(r.get("callees", []))
        if r["scope"] != "full":
            bounded.add(f"{r['case'].split('[')[0]}: {r['scope']}")
        if "crash" in r:
            unsup.append(f"{r['case']}: {r['crash'][-300:]}")
            continue
        a = sum(o["n"] for o in r["obl"].values())
        b = sum(o["proved"] for o in r["obl"].values())
        n_obl += a
        n_ok += b
        assumed |= set(r["assumed"])
        for nm, o in r["obl"].items():
            secs += o["secs"]
            for be, n in o["backends"].items():
                backends[be] = backends.get(be, 0) + n
            for x in o["bad"]:
                undis.append({"case": r["case"], "obligation": nm,
                              "status": x["status"], "goal": x["goal"][:200],
                              "hint": x["hint"]})
                if x["status"] == "refuted" and not x["hint"] and \
                        not x["abstract"] and r["case"] not in seen:
                    seen.add(r["case"])
                    violations.append({
                        "case": r["case"], "obligation": nm,
                        "detail": "obligation refuted by the solver: " +
                        x["goal"], "model": x["model"], "replayed": False,
                        "presets": x["model"], "seed": seed})
        for u in sorted(set(r["unsup"])):
            unsup.append(f"{r['case']}: {u}")
        for e in r["exc"]:
            undis.append({"case": r["case"], "obligation": "no-exception",
                          "status": "unreplayed", "goal": e["error"]})
            n_obl += 1
        bycase.append({"case": r["case"], "scope": r["scope"],
                       "paths": r["paths"], "obligations": a,
                       "discharged": b, "covers": r["covers"],
                       "seconds": round(r["secs"], 2),
                       "complete": not r["incomplete"] and
                       not r["unsup"]})
    runs = sum(r.get("runs", 0) for r in con["results"])
    checks = sum(r.get("checks", 0) for r in con["results"])
    mism = [f"{r['case']}: {r['mismatch']['detail']}"
            for r in con["results"] if r.get("mismatch")]
    crash = [f"{r['case']}: {r['crash'][-300:]}" for r in con["results"]
             if "crash" in r]
    samples = [s for r in con["results"] for s in r.get("samples", [])][:8]
    vac = [b["case"] for b in bycase
           if b["obligations"] == 0 or not b["covers"]]
    complete = (not undis and not unsup and not vac and n_obl > 0 and
                all(b["complete"] for b in bycase))
    lvl = declared_level(prop)
    text = (f"{n_ok} of {n_obl} obligations discharged over "
            f"{len(bycase)} contract instances on {len(functions)} "
            f"functions of /repo; every obligation is for all real inputs of "
            f"the instance. " +
            ("Instances with a stated bound: " +
             "; ".join(sorted(bounded)) + ". " if bounded else "") +
            f"The same contracts were cross-checked on the real code with "
            f"{runs} sampled inputs ({checks} checks)." +
            (f" Undischarged: {len(undis)}; outside the engine: "
             f"{len(unsup)} (there the concrete run is the bounded "
             f"stand-in)." if undis or unsup else ""))
    cov = {
        "obligations": n_obl, "discharged": n_ok,
        "checker_cmd": f"python3 check.py {prop} --tier {tier}",
        "trusted_base": TRUSTED,
        "explanation": text,
        "functions_under_contract": sorted(functions),
        "callees_by_contract": [judged_where(c) for c in sorted(callees)],
        "back_ends": backends, "solver_seconds": round(secs, 2),
        "undischarged": undis[:60], "outside_engine": unsup[:60],
        "vacuous_instances": vac,
        "bounded_instances": sorted(bounded),
        "instances": bycase,
        "evaluations": runs, "distinct_nontrivial": sum(
            r.get("nontrivial", 0) for r in con["results"]),
        "rule": "inputs drawn per contract from special values, ties and "
                "continuous ranges; non-trivial when the preconditions hold "
                "and at least one postcondition was evaluated",
        "samples": samples, "contract_mismatch": mism + crash,
        "all_obligations_discharged": complete,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lvl,
          "coverage": cov, "assumptions": sorted(assumed) + ASSUME,
          "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    with open(os.path.join(EV, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for k, c in {(k["what"], c): (k, c) for k, c in knowns}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']} (case {c})")
    print(f"{prop}: {text} [{time.time()-t0:.1f}s]")
    for e in errs:
        print("contract file not loadable:", e[-600:])
    for m in mism + crash:
        print("contract not applicable:", m)
    if errs and not violations and n_obl == 0 and runs == 0:
        print("check.py: nothing could be checked")
        return 3
    if n_obl == 0 and runs == 0:
        print("check.py: no obligation and no run")
        return 3
    for i, v in enumerate(sorted(violations,
                                 key=lambda v: not v["replayed"])[:5]):
        f = os.path.join(EV, "replay", f"{prop}-{i}.json")
        with open(f, "w") as fh:
            json.dump(dict(v, property=prop), fh, indent=1)
        print(f"  case {v['case']}: obligation {v['obligation']}: "
              f"{v['detail'][:400]}")
        print(f"VIOLATION property={prop} replay={os.path.relpath(f, HERE)}"
              + ("" if v["replayed"] else " no-failing-input-found"))
    subprocess.call(["rm", "-rf", tmp])
    return 1 if violations else 0


TRUSTED = [
    "the obligation generator /verif/engine (symbolic interpreter of the "
    "torch/numpy operations the code uses); cross-checked against the real "
    "torch on every run",
    "z3 and cvc5",
    "CPython's execution of the repository source",
    "the gurobipy stand-in /verif/engine/gurobi_core.py (gurobipy is not "
    "installed)",
]
ASSUME = [
    "machine arithmetic is treated as exact real arithmetic",
    "float literals are read as their decimal values",
]


def judged_where(callee):
    """Where the contract assumed of a callee is itself proved."""
    ix = load(os.path.join(HERE, "contracts", "INDEX.json")) or {}
    ps = sorted(set(p for f, v in ix.items() for p in v
                    if f == callee or f.startswith(callee + ".")))
    return callee + (": under contract in " + ", ".join(ps) if ps else
                     ": assumed")


def declared_level(prop):
    m = load(os.path.join(HERE, "MANIFEST.json")) or {}
    for c in m.get("checks", []):
        if c["property"] == prop:
            return c["level"]
    return "other"


def replay(f):
    v = load(f)
    d = tempfile.mkdtemp(prefix="verif_")
    pf = os.path.join(d, "p.json")
    json.dump({v["case"]: [(v.get("values") or v.get("presets") or {},
                            v["obligation"])]}, open(pf, "w"))
    r = subprocess.call([CON, "-m", "engine.conrun", v["property"],
                         "--tier", "thorough", "--presets", pf, "--only",
                         v["case"], "--nmax", "0"], cwd=HERE, env=env())
    subprocess.call(["rm", "-rf", d])
    return r


if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("prop", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--replay")
    a.add_argument("--only", action="append", default=[],
                   help="development: only the cases with this in their name")
    a.add_argument("--jobs", default="8")
    a = a.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(run_check(a.prop, a.tier,
                       int(os.environ.get("VERIF_SEED", "1")), a.only,
                       a.jobs))
