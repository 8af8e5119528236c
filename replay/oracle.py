"""Run-time evaluation of the property contracts on the real code (bounded; never counted as proved).

oracle.py PID --seed S --seconds N [--replay FILE]    hints: JSON list on stdin
last line of output: ORACLE {json}
A case is a JSON-able parameter set; running it again gives the same verdict."""
import argparse
import importlib
import json
import os
import random
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.environ.get("DG1D_ROOT", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
from skip import Skip
warnings.simplefilter("ignore")

GROUP = {}
for mod, pids in (("p_scheme", "C01 C02 C03 C04 C22 C23 C24 C26"), ("p_flux", "C05 C06 C07 C08 C25"),
                  ("p_time", "C09 C10 C11 C12"), ("p_limit", "C13 C14 C15 C16"), ("p_io", "C17 C18 C19 C20 C21"),
                  ("p_analysis", "C27")):
    for p in pids.split():
        GROUP[p] = mod


def run_case(fn, case, scratch):
    """returns None, 'skip' or a message"""
    import numpy as np
    out, cwd = sys.stdout, os.getcwd()
    null = open(os.devnull, "w")
    sys.stdout = null
    os.chdir(scratch)
    try:
        with np.errstate(all="ignore"):
            r = fn(case)
    except Skip:
        r = "skip"
    except SystemExit as e:
        r = "the code stopped the run: %s" % (e,)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if ROOT in f.filename and HERE not in f.filename]
        r = "raised %s: %s (%s)" % (type(e).__name__, e, "%s:%d" % (tb[-1].filename, tb[-1].lineno))
        if not inside:
            # an error of the harness itself: not a verdict about the code
            r = ("harness", r + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-800:])
    finally:
        os.chdir(cwd)
        sys.stdout = out
        null.close()
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        hints = [] if sys.stdin.isatty() else json.loads(sys.stdin.read() or "[]")
    except Exception:
        hints = []
    import numpy as np
    m = importlib.import_module(GROUP[a.pid])
    prop = m.PROPS[a.pid]
    gen, fn, rule = prop
    res = dict(evaluations=0, distinct=0, rule=rule, samples=[], violations=[], error=None, skipped=0)
    seen = set()
    with tempfile.TemporaryDirectory(prefix="dg1d_oracle_") as scratch:
        if a.replay:
            cases = json.load(open(a.replay)).get("failing_inputs", [])
            cases = iter([c["case"] for c in cases])
        else:
            cases = gen(random.Random(a.seed * 7919 + 13), hints)
        t0 = time.time()
        harness = 0
        for i, case in enumerate(cases):
            if time.time() - t0 > a.seconds or i > 200000:
                break
            r = run_case(fn, case, scratch)
            for f in os.listdir(scratch):
                p = os.path.join(scratch, f)
                if os.path.isfile(p):
                    os.unlink(p)
            if r == "skip":
                res["skipped"] += 1
                continue
            if isinstance(r, tuple):
                harness += 1
                res["error"] = r[1]
                if harness > 5:
                    break
                continue
            res["evaluations"] += 1
            k = json.dumps(case, sort_keys=True, default=str)
            if k not in seen:
                seen.add(k)
            if len(res["samples"]) < 3 and i % 3 == 0:
                res["samples"].append(case)
            if r is not None:
                res["violations"].append(dict(case=case, observed=str(r)[:600]))
                if len(res["violations"]) >= 5:
                    break
        res["distinct"] = len(seen)
    print("ORACLE " + json.dumps(res, default=str))


if __name__ == "__main__":
    main()
