"""prove(property, tier): generate and discharge the obligations of a property."""
import concurrent.futures
import importlib
import json
import multiprocessing
import os
import pkgutil
import sys
import time
import traceback

import z3

from . import contract as C
from . import solve
from .core import Unsupported
from .expr import Exec
from .source import Source

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    if ROOT not in sys.path:
        sys.path.insert(0, ROOT)
    import contracts

    for m in sorted(x.name for x in pkgutil.iter_modules(contracts.__path__)):
        importlib.import_module("contracts." + m)


def generate(src, key, opts=None):
    """Obligations of one contract as SMT texts."""
    from contracts import schema

    c = C.REG[key]
    eng = Exec(src, C.REG, dict(schema.OPTS, **(opts or {})))
    obs = eng.verify(c)
    out = []
    names = {}
    for o in obs:
        n = names.get(o.name, 0)
        names[o.name] = n + 1
        out.append((o.name if n == 0 else "%s #%d" % (o.name, n + 1), o.kind, solve.smt(o.hyps, o.goal, o.wf, eng)))
    covers = [solve.smt(h, z3.BoolVal(False), w, eng)[-1] for h, w in eng.cover]
    pre = solve.smt(eng.pre, z3.BoolVal(False), {}, eng)[-1]
    return {"obs": out, "cover": covers, "pre": pre, "trusted": sorted(eng.trusted), "background": sorted(eng.background), "inlined": sorted(eng.inlined),
            "used": sorted(eng.used), "paths": eng.nexits}


def lemma_task(key):
    """Obligations of a lemma: from definitions alone."""
    load()
    t0 = time.time()
    eng = Exec(Source(), C.REG, {})
    for name, props, goals in C.LEMMAS:
        if name == key[1]:
            obs = [("lemma %s%s" % (name, ": " + n if n else ""), "lemma", solve.smt([], g, {}, eng, without=[name])) for n, g in goals()]
            return key, {"lemma": name, "obs": obs}, time.time() - t0


def gen_task(key, opts=None):
    """Runs in a worker process."""
    if key[0] == "lemma":
        return lemma_task(key)
    load()
    src = Source()
    t0 = time.time()
    try:
        r = generate(src, key, opts)
    except Unsupported as e:
        return key, {"unsupported": str(e)}, time.time() - t0
    except Exception as e:
        return key, {"unsupported": "engine: %s" % e, "trace": traceback.format_exc()}, time.time() - t0
    return key, r, time.time() - t0


def gen_plain(key):
    return gen_task(key, {"steps": False})


def closure(prop):
    """The property's contracts and the contracts they rely on."""
    return list(C.PROPS.get(prop, []))


HINTS = os.path.join(ROOT, "pyvc", "hints.json")
LIMIT = {"quick": 420, "thorough": 640}     # seconds for all obligations of a property


def hints():
    try:
        with open(HINTS) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {}


def prove(prop, tier="quick", keys=None, workers=7, verbose=False, stop=None):
    """`stop`: called between solver runs; when true, no further ones are started."""
    load()
    hs = hints()
    end = time.time() + LIMIT[tier]

    def deadline():
        return 0 if stop is not None and stop() else end

    keys = keys or closure(prop)
    keys = [k for k in keys if not C.REG[k].trusted]
    if not keys:
        return None
    keys += [("lemma", n) for n, ps, _ in C.LEMMAS if prop in ps or prop == "-"]
    budget = solve.QUICK if tier == "quick" else solve.THOROUGH
    res = {"obligations": [], "trusted": set(), "functions": [], "bounded": [], "backends": {}, "solver_s": 0.0, "lemmas": [], "assumptions": set()}
    # every contract in a process of its own: the texts do not depend on the others
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONPATH"] = ROOT + os.pathsep + os.environ.get("PYTHONPATH", "")
    mp = multiprocessing.get_context("forkserver")
    mp.set_forkserver_preload(["pyvc.preload"])
    with mp.Pool(workers, maxtasksperchild=1) as pool, \
            concurrent.futures.ThreadPoolExecutor(max_workers=8) as threads:
        pend = []

        def add(key, r, secs):
            c = C.REG[key]
            if "unsupported" in r:
                res["bounded"].append({"function": c.label, "reason": r["unsupported"]})
                if verbose:
                    print("UNSUPPORTED", c.label, r["unsupported"])
                    if "trace" in r:
                        print(r["trace"])
                return
            if verbose:
                print("%s: %d obligations, %d paths, %.1f s" % (c.label, len(r["obs"]), r["paths"], secs))
            res["functions"].append({"function": c.fn, "contract": c.label, "obligations": len(r["obs"]), "inlined": r["inlined"]})
            res["trusted"].update(r["trusted"])
            res["assumptions"].update(r["background"])
            bud = budget
            if c.budget:
                bud = [(b, int(rl * c.budget), int(s * c.budget)) for b, rl, s in budget]
            for n, kind, text in sorted(r["obs"], key=lambda o: -hs.get(o[0], [0, 0, 1])[2]):
                pend.append((n, kind, threads.submit(solve.discharge, text, bud[:5] if kind == "step" else bud, hs.get(n), deadline)))
            if not r["obs"]:
                pend.append(("%s: generates obligations" % c.label, "vacuity", None))
            pend.append(("%s: precondition is satisfiable" % c.label, "cover", threads.submit(solve.run_one, r["pre"], 3_000_000, 20, "z3")))
            if r["cover"]:
                pend.append(("%s: an exit is reachable" % c.label, "cover*", [threads.submit(solve.run_one, t, 3_000_000, 20, "z3") for t in r["cover"][:8]]))

        for key, r, secs in pool.imap_unordered(gen_task, keys, chunksize=1):
            if key[0] == "lemma":
                res["lemmas"].append(r["lemma"])
                for n, kind, text in r["obs"]:
                    pend.append((n, kind, threads.submit(solve.discharge, text, budget, hs.get(n), deadline)))
                continue
            add(key, r, secs)

        def drain():
            for n, kind, f in pend:
                if kind == "cover":
                    s, t = f.result()
                    res["solver_s"] += t
                    res["obligations"].append({"name": n, "status": "discharged" if s != "unsat" else "contradictory precondition", "detail": s})
                    continue
                if kind == "cover*":
                    rs = [x.result() for x in f]
                    res["solver_s"] += sum(t for _, t in rs)
                    ok = any(s != "unsat" for s, _ in rs)
                    res["obligations"].append({"name": n, "status": "discharged" if ok else "every exit path is contradictory", "detail": ""})
                    continue
                if kind == "vacuity":
                    res["obligations"].append({"name": n, "status": "no obligations", "detail": ""})
                    continue
                s, b, t, i = f.result()
                res["solver_s"] += t
                if s == "discharged":
                    res["backends"][b] = res["backends"].get(b, 0) + 1
                elif verbose:
                    print("  %-11s %s (%.1f s)" % (s, n, t))
                res["obligations"].append({"name": n, "status": s, "detail": kind, "secs": round(t, 2), "back_end": b, "hint": i})

        drain()
        # the steps of a proof are hints for the code as it is: where one fails, prove without them
        lost = {}
        for o in res["obligations"]:
            if o["detail"] == "step" and o["status"] not in ("discharged", "not attempted"):
                for key in keys:
                    if key[0] != "lemma" and o["name"].startswith(C.REG[key].label + ": "):
                        lost[key] = C.REG[key].label + ": "
        if lost:
            res["obligations"] = [o for o in res["obligations"] if not o["name"].startswith(tuple(lost.values()))]
            res["functions"] = [f for f in res["functions"] if f["contract"] + ": " not in lost.values()]
            pend = []
            for key, r, secs in pool.imap_unordered(gen_plain, list(lost), chunksize=1):
                add(key, r, secs)
            drain()
    res["trusted"] = sorted(res["trusted"])
    res["assumptions"] = sorted(res["assumptions"])
    res["functions"].sort(key=lambda x: x["contract"])
    return res


def main():
    """python3 -m pyvc.run LABEL... | --prop Cxx [--dump NAME FILE]"""
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("labels", nargs="*")
    ap.add_argument("--prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--dump")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--record", action="store_true")
    ap.add_argument("--slow", action="store_true")
    a = ap.parse_args()
    load()
    if a.prop:
        keys = closure(a.prop)
    else:
        keys = [k for k in C.REG if any(x in C.REG[k].label for x in a.labels)]
    if a.dump is not None:
        for k in keys:
            _, r, _ = gen_task(k, {"debug": a.debug})
            if "unsupported" in r:
                print(r)
                continue
            for n, kind, text in r["obs"]:
                if a.dump in n:
                    open("/tmp/dump.smt2", "w").write(text[0])
                    print(n)
                    return
        return
    t0 = time.time()
    res = prove("-", a.tier, keys, verbose=True)
    if res is None:
        print("no contracts")
        return
    bad = [o for o in res["obligations"] if o["status"] != "discharged"]
    if a.record:
        hs = hints()
        for o in res["obligations"]:
            if o["status"] == "discharged" and o.get("hint"):
                h = [o["back_end"], o["hint"][0], round(o["hint"][1], 1)]
                hs.pop(o["name"], None)
                if h[0] != "z3+" or h[1] != 0 or h[2] > 1.0:
                    hs[o["name"]] = h
        with open(HINTS, "w") as f:
            json.dump(hs, f, indent=0, sort_keys=True)
    if a.slow:
        for o in sorted(res["obligations"], key=lambda o: -o.get("secs", 0))[:10]:
            print("   %.1f %s %s" % (o.get("secs", 0), o.get("back_end"), o["name"]))
    print("%d obligations, %d not discharged, %.1f solver s, %.1f s, back ends %s" % (
        len(res["obligations"]), len(bad), res["solver_s"], time.time() - t0, res["backends"]))
    for o in bad:
        if o["detail"] in ("", "sat", "unknown") or o["status"].startswith(("contra", "every", "no ")):
            print("  !!", o["name"], o["status"])


if __name__ == "__main__":
    main()
