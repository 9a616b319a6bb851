"""Developer tool: run the specifications of a property and print the outcome of each."""
import sys, time, importlib
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
from pyvc import verify, solve
from pyvc.interp import Interp
import os
root = os.environ.get("VROOT", "/repo")
verbose = "-v" in sys.argv
args = [a for a in sys.argv[1:] if not a.startswith("-")]
for m in args[:1]:
    importlib.import_module("contracts." + m)
for s in verify.SPECS:
    if len(args) > 1 and not any(a in s.name for a in args[1:]):
        continue
    if s.prop != args[0].upper():
        continue
    it = Interp(root)
    try:
        from contracts import library
        library.install(it)
    except ImportError:
        pass
    r = verify.explore(it, s)
    t1 = time.time()
    solve.discharge(r.obligations, float(os.environ.get("BUDGET", "20")))
    by = {}
    for o in r.obligations:
        by[o.status] = by.get(o.status, 0) + 1
    print("%-34s paths=%d oblig=%s gen=%.1fs solve=%.1fs %s" % (s.prop + " " + s.name, r.paths, by, r.time, time.time() - t1,
          ("UNSUPPORTED " + r.unsupported) if r.unsupported else ""))
    if (r.unsupported or r.notes) and verbose:
        print("\n".join(x[-400:] for x in r.notes)); print(r.crash or "")
    for o in r.obligations:
        if o.status != "proved":
            print("   ", o.status, o.name, o.reason, "%.1f" % o.time, {k: v[1] for k, v in sorted((o.model or {}).items())} if verbose else "")
