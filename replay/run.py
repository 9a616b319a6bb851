"""Search for an input on which the real code breaks a property, or replay one.
usage: run.py PROP --budget SECONDS --seed N [--hints JSON] [--max CASES]  |  run.py PROP --file REPLAY.json"""
import importlib
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(3000)
import common


def opt(name, default=None):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


class Hang(Exception):
    pass


def on_alarm(*a):
    raise Hang()


def run_check(mod, inp, seconds=20):
    """None, or the text of the failure."""
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        mod.check(inp)
        return None
    except common.Bad as e:
        return str(e)
    except Hang:
        return "does not terminate within %d s" % seconds
    except RecursionError:
        return "RecursionError"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/solver/" in f.filename]
        if not where:
            return "%s: %s while the result is examined (line %d of the oracle)" % (type(e).__name__, e, tb[-1].lineno)
        return "raises %s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(where[-1].filename), where[-1].lineno)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    prop = sys.argv[1]
    import logging
    logging.disable(logging.NOTSET)
    mod = importlib.import_module(prop.lower())
    if "--file" in sys.argv:
        with open(opt("--file")) as f:
            d = json.load(f)
        r = run_check(mod, d["input"])
        print("input: %s" % json.dumps(d["input"]))
        print("result: %s" % (r or "the property holds on this input"))
        return 1 if r else 0
    budget, seed = float(opt("--budget", "10")), int(opt("--seed", "1"))
    limit = int(opt("--max", "1000000000"))
    S = common.Source(seed, json.loads(opt("--hints", "[]")))
    t0 = time.time()
    n = 0
    out = {"cases": 0, "found": None, "error": None}
    try:
        for inp in mod.cases(S):
            inp = json.loads(json.dumps(inp))
            r = run_check(mod, inp)
            n += 1
            if r:
                out["found"] = {"input": inp, "failure": r}
                break
            if n >= limit or time.time() - t0 > budget:
                break
    except Exception:
        out["error"] = traceback.format_exc()[-1500:]
    out["cases"] = n
    out["seconds"] = time.time() - t0
    out["bound"] = getattr(mod, "BOUND", "")
    print("RESULT " + json.dumps(out))
    return 0


if __name__ == "__main__":
    sys.exit(main())
