#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] [--no-proof]

Decides one property of /repo's current working tree.

1. the deductive verifier (pyvc) regenerates every proof obligation of the
   property's contracts from the current source and discharges them;
2. the executable oracle (concrete/) runs the real code on generated cases: the
   bounded stand-in for what is not under contract, and the search for a failing
   input when an obligation is not discharged.

exit 0: property held on everything explored; exit 1: a VIOLATION line.
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable
REPO = os.environ.get("VERIF_REPO", "/repo")

# quick: cases per shard, seconds per shard; thorough likewise
BUDGET = {"quick": (3000, 13), "thorough": (20000, 240)}
SHARDS = {"quick": 4, "thorough": 7}
OVERRIDE = {  # property: cases per shard in the quick tier
    "C03": 6000, "C06": 6000, "C07": 6000,
}


def fuzz(prop, seed, cases, secs, hashseed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return subprocess.Popen(
        [PY, os.path.join(HERE, "concrete", "fuzz.py"), prop, "--seed", str(seed), "--cases", str(cases), "--time", str(secs)],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd="/")


def collect(procs, limit):
    out = []
    t0 = time.time()
    for p in procs:
        try:
            so, se = p.communicate(timeout=max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            so, se = p.communicate()
            out.append({"error": "no result in %d s: %s" % (limit, se[-800:])})
            continue
        try:
            out.append(json.loads(so.strip().splitlines()[-1]))
        except (ValueError, IndexError):
            out.append({"error": (se or so)[-1500:]})
    return out


def known(prop):
    path = os.path.join(HERE, "known-findings.txt")
    res = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                res[key] = text
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cases, secs = BUDGET[tier]
    if tier == "quick":
        cases = OVERRIDE.get(prop, cases)
    shards = SHARDS[tier]
    procs = [fuzz(prop, seed * 1000 + k, cases, secs, (seed * 7919 + k * 13) % 4294967295) for k in range(shards)]

    proof = early = None
    if not a.no_proof:
        try:
            from pyvc import run as pyvc_run
        except ImportError:
            pyvc_run = None
        if pyvc_run is not None:
            # a failing input decides: no need to wait for the remaining obligations
            found = threading.Event()
            ahead = concurrent.futures.ThreadPoolExecutor(max_workers=1)

            def watch():
                rs = collect(procs, secs + 90)
                if any(r.get("fail") for r in rs):
                    found.set()
                return rs

            early = ahead.submit(watch)
            proof = pyvc_run.prove(prop, tier, stop=found.is_set)

    if proof and tier == "thorough":
        # the background facts of the proofs, checked once more by Lean
        lean = shutil.which("lean")
        if lean:
            try:
                p = subprocess.run([lean, os.path.join(HERE, "lean", "Background.lean")], capture_output=True, text=True, timeout=600)
                ok = p.returncode == 0 and "error" not in p.stdout and "sorry" not in p.stdout
            except subprocess.TimeoutExpired:
                ok = None
            if ok is not None:
                proof["obligations"].append({"name": "background facts: lean/Background.lean", "status": "discharged" if ok else "unknown", "detail": "lean"})
                proof["backends"]["lean"] = 1

    runs = early.result() if early is not None else collect(procs, secs + 90)
    undecided = [o for o in (proof or {}).get("obligations", []) if o["status"] != "discharged"]
    fails = [r for r in runs if r.get("fail")]
    if undecided and not fails:
        # search longer for a failing input
        deep = (4000, 45) if tier == "quick" else (40000, 240)
        procs = [fuzz(prop, seed * 1000 + 500 + k, deep[0], deep[1], (seed * 104729 + k * 17) % 4294967295) for k in range(7)]
        more = collect(procs, deep[1] + 90)
        runs += more
        fails = [r for r in more if r.get("fail")]

    errors = [r["error"] for r in runs if r.get("error")]
    distinct = set()
    samples = []
    evals = skipped = 0
    for r in runs:
        evals += r.get("cases", 0)
        skipped += r.get("skipped", 0)
        distinct.update(r.get("distinct", []))
        for s in r.get("samples", []):
            if len(samples) < 3:
                samples.append(s)

    # recorded findings that still occur
    kf = known(prop)
    if kf:
        p = subprocess.run([PY, os.path.join(HERE, "concrete", "fuzz.py"), prop, "--findings"], capture_output=True, text=True, cwd="/",
                           env=dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1"))
        try:
            still = json.loads(p.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            still = []
        for k in still:
            if k in kf:
                print("KNOWN-FINDING: property=%s %s %s" % (prop, k, kf[k]))

    from meta import META

    meta = META[prop]
    violations = 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    replay_dir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    path = os.path.join(replay_dir, "%s.json" % prop)
    line = None
    if fails:
        fails.sort(key=lambda r: len(json.dumps(r["fail"]["case"])))
        f = fails[0]
        rec = {"property": prop, "message": f["fail"]["message"], "case": f["fail"]["case"], "hashseed": f.get("hashseed"),
               "undischarged": [o["name"] for o in undecided if o["status"] != "not attempted"],
               "how": "PYTHONHASHSEED=%s %s %s/concrete/fuzz.py %s --replay %s" % (f.get("hashseed"), PY, HERE, prop, path)}
        with open(path, "w") as h:
            json.dump(rec, h, indent=1)
        line = "VIOLATION property=%s replay=%s" % (prop, path)
        print(line)
        print("  " + f["fail"]["message"][:600])
        violations = len(fails)
    elif errors and len(errors) == len(runs):
        # the code could not even be loaded or run by the oracle
        rec = {"property": prop, "message": "the code under test could not be run", "stderr": errors[0]}
        with open(path, "w") as h:
            json.dump(rec, h, indent=1)
        line = "VIOLATION property=%s replay=%s" % (prop, path)
        print(line)
        print("  " + errors[0][-600:])
        violations = 1
    elif undecided:
        rec = {"property": prop, "message": "proof obligation not discharged",
               "failed_obligations": undecided[:20]}
        with open(path, "w") as h:
            json.dump(rec, h, indent=1)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)
        print(line)
        for o in undecided[:5]:
            print("  %s: %s (%s)" % (o["name"], o["status"], str(o.get("detail", ""))[:200]))
        violations = len(undecided)

    cov = {
        "evaluations": evals - skipped,
        "distinct_nontrivial": len(distinct),
        "rule": meta["rule"] + "; non-trivial: inside the property's hypotheses and not generated before in this run; "
                "bounded stand-in, not counted as proved",
        "samples": samples,
    }
    if proof:
        obs = proof["obligations"]
        cov["obligations"] = len(obs)
        cov["discharged"] = sum(o["status"] == "discharged" for o in obs)
        cov["checker_cmd"] = "check.py %s --tier %s" % (prop, tier)
        cov["trusted_base"] = proof["trusted"]
        cov["functions_under_contract"] = proof["functions"]
        cov["functions_bounded_only"] = proof["bounded"]
        cov["back_ends"] = proof["backends"]
        cov["solver_s"] = round(proof["solver_s"], 2)
        cov["lemmas"] = proof.get("lemmas", [])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta["level"] if proof or meta["level"] != "proof" else "exploration",
        "coverage": cov, "assumptions": meta["assumptions"] + (proof or {}).get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as h:
        json.dump(ev, h, indent=1)
    if line is None:
        msg = "%s holds: %d cases" % (prop, evals - skipped)
        if proof:
            msg += ", %d/%d obligations discharged over %d functions" % (cov["discharged"], cov["obligations"], len(cov["functions_under_contract"]))
            if proof["bounded"]:
                msg += ", bounded only: " + ", ".join(b if isinstance(b, str) else b["function"] for b in proof["bounded"])
        print(msg + " (%.1f s)" % (time.time() - t0))
        for e in errors[:1]:
            print("  note: one shard gave no result: " + e[-200:])
    return 1 if line else 0


if __name__ == "__main__":
    sys.exit(main())
