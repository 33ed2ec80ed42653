"""Bounded stand-in and replayer: runs the real code of the repository on
generated cases and compares it with an independent oracle.

  fuzz.py PROP --seed S --cases N --time T     search; prints one JSON line
  fuzz.py PROP --replay FILE                   re-run one recorded case
  fuzz.py PROP --findings                      which recorded findings still occur
"""
import argparse
import contextlib
import hashlib
import io
import json
import os
import random
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
warnings.filterwarnings("ignore")
sys.setrecursionlimit(5000)

import signal

import common
import props_bbn
import props_graph

PROPS = {}
for mod in (props_bbn, props_graph):
    for k, v in vars(mod).items():
        if isinstance(v, type) and k[0] == "C" and k[1:].isdigit():
            PROPS[k] = v


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def run_case(prop, case, limit=20):
    """None if the property holds on the case, else a message."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            prop.check(json.loads(json.dumps(case)))
        return None
    except common.Skip:
        return "SKIP"
    except common.Fail as e:
        return str(e)
    except Timeout:
        return "no result after %d s" % limit
    except RecursionError:
        return "recursion error"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "pybbn" in f.filename]
        loc = where[-1] if where else tb[-1]
        return "%s: %s (%s:%s in %s)" % (type(e).__name__, e, os.path.basename(loc.filename), loc.lineno, loc.name)
    finally:
        signal.alarm(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cases", type=int, default=200)
    ap.add_argument("--time", type=float, default=10)
    ap.add_argument("--replay")
    ap.add_argument("--findings", action="store_true")
    a = ap.parse_args()
    prop = PROPS[a.prop]
    if a.findings:
        f = getattr(prop, "findings", None)
        print(json.dumps(f() if f else []))
        return 0
    if a.replay:
        with open(a.replay) as h:
            rec = json.load(h)
        msg = run_case(prop, rec["case"])
        if msg in (None, "SKIP"):
            print("the property holds on this case")
            return 0
        print("FAILS: " + msg)
        return 1
    t0 = time.time()
    n = skipped = 0
    seen = set()
    samples = []
    fails = []
    failed_at = None
    while n < a.cases and time.time() - t0 < a.time:
        rng = random.Random("%s/%d/%d" % (a.prop, a.seed, n))
        n += 1
        case = prop.gen(rng)
        text = json.dumps(case, sort_keys=True)
        msg = run_case(prop, case)
        if msg == "SKIP":
            skipped += 1
            continue
        seen.add(hashlib.md5(text.encode()).hexdigest())
        if len(samples) < 2 and len(text) < 900:
            samples.append(case)
        if msg is not None:
            fails.append((len(text), case, msg))
            failed_at = failed_at or time.time()
            if len(fails) >= 6:
                break
        if failed_at and time.time() - failed_at > 4:
            break
    out = {"cases": n, "skipped": skipped, "distinct": sorted(seen), "samples": samples, "fail": None,
           "hashseed": os.environ.get("PYTHONHASHSEED")}
    if fails:
        fails.sort(key=lambda f: f[0])
        out["fail"] = {"case": fails[0][1], "message": fails[0][2]}
    print(json.dumps(out))
    return 0


if __name__ == "__main__":
    sys.exit(main())
