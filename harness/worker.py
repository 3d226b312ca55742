"""worker.py PID --budget S --seed N --scratch DIR [--inputs FILE] [--only-inputs]
Runs the run-time contract of one property on the real, uninstrumented code; prints one JSON line."""
import argparse
import contextlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("VP_REPO_SRC", "/repo/src"))

from harness import chip_checks, song_checks, stream_checks  # noqa: E402
from harness.common import Violation  # noqa: E402

CHECKS = {}
for m in (chip_checks, song_checks, stream_checks):
    CHECKS.update(m.CHECKS)

REAL_OUT = sys.stdout
INAPPLICABLE = []


class Slow(BaseException):
    pass


def _alarm(*a):
    raise Slow()


def run_one(chk, inp, limit=25):
    """None or a description of the violation"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            chk.run(inp)
        return None
    except Violation as e:
        return str(e)
    except Slow:
        return f"no result within {limit} s"
    except RecursionError:
        return "RecursionError in the code under test"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if "/src/" in f.filename or f.filename.startswith(os.environ.get("VP_REPO_SRC", "/repo/src"))]
        if not own and isinstance(e, (AttributeError, ImportError, NameError)) and "NoneType" not in str(e):
            INAPPLICABLE.append(f"{type(e).__name__}: {e}")
            return None                       # the harness no longer fits the interface: no verdict
        if not own:
            return f"{type(e).__name__}: {e} (interface changed at {tb[-1].filename.rsplit('/', 1)[-1]}:{tb[-1].lineno})"
        return f"{type(e).__name__}: {e} at {own[-1].filename.rsplit('/', 1)[-1]}:{own[-1].lineno}"
    finally:
        signal.alarm(0)


def shrink(chk, inp, msg, until):
    changed = True
    while changed and time.time() < until:
        changed = False
        for cand in chk.shrink(inp):
            if time.time() > until:
                break
            m = run_one(chk, cand)
            if m:
                inp, msg, changed = cand, m, True
                break
    return inp, msg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--max", type=int, default=10 ** 9)
    ap.add_argument("--inputs")
    ap.add_argument("--only-inputs", action="store_true")
    ap.add_argument("--known", action="store_true", help="print which of the known findings of this property are present")
    a = ap.parse_args()
    chk = CHECKS[a.pid]()
    if a.known:
        with contextlib.redirect_stdout(io.StringIO()):
            ks = chk.known() if hasattr(chk, "known") else []
        print(json.dumps(ks), file=REAL_OUT)
        return
    t0 = time.time()
    n, bad = 0, None
    given = json.load(open(a.inputs)) if a.inputs else []

    def stream():
        for g in given:
            yield g
        if not a.only_inputs:
            yield from chk.inputs(random.Random(a.seed))
    distinct = set()
    samples = []
    for inp in stream():
        if (time.time() - t0 > a.budget or n >= a.max) and n >= len(given):
            break
        n += 1
        if n <= 20000:
            distinct.add(hash(json.dumps(inp, sort_keys=True)))
        if n in (1, 40, 400):
            samples.append(json.dumps(inp)[:400])
        m = run_one(chk, inp, inp.get("limit", 25) if isinstance(inp, dict) else 25)
        if m and m.startswith("no result within") and "limit" in inp:
            m = None                          # a big case on a slow machine
        if m:
            inp, m = shrink(chk, inp, m, time.time() + 15)
            bad = {"input": inp, "message": m}
            break
    print(json.dumps({"pid": a.pid, "runs": n, "distinct": len(distinct), "seconds": round(time.time() - t0, 2), "violation": bad,
                      "samples": samples, "inapplicable": len(INAPPLICABLE), "why_inapplicable": INAPPLICABLE[:1]}), file=REAL_OUT)


if __name__ == "__main__":
    main()
