#!/usr/bin/env python3
"""Decide one property on /repo's current source.

  check.py PROP            (VERIF_TIER = quick | thorough, VERIF_SEED)

1. The specifications of the property (contracts/<prop>.py) are run over the current source text by the
   verification-condition generator (pyvc), and every obligation is discharged by z3, cvc5 or normal form.
2. A concrete search (replay/<prop>.py) on the real code runs beside it; it replays counter-models, and is the
   bounded stand-in for functions the verifier cannot reach on this source.
Exit 0: held.  Exit 1 with a VIOLATION line: an obligation is refuted, or a failing input was found."""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True

ROOT = os.environ.get("VROOT", "/repo")
VENV = "/opt/venv/bin/python"


def start_search(prop, budget, seed, hints=(), cases=None):
    cmd = [VENV, "-W", "ignore", os.path.join(HERE, "replay", "run.py"), prop, "--budget", str(budget), "--seed", str(seed),
           "--hints", json.dumps(list(hints)[:60])]
    if cases:
        cmd += ["--max", str(cases)]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VROOT=ROOT)
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, cwd=HERE), \
        time.time() + budget * 2 + 60


def peek(h):
    """The result of a search that has ended."""
    if not hasattr(h[0], "result"):
        h[0].result = finish_search(h)
    return h[0].result


def finish_search(h):
    p, end = h
    if hasattr(p, "result"):
        return p.result
    try:
        out, err = p.communicate(timeout=max(1, end - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"cases": 0, "found": None, "error": "time limit of the concrete search"}
    for line in out.splitlines():
        if line.startswith("RESULT "):
            return json.loads(line[7:])
    return {"cases": 0, "found": None, "error": "concrete search failed: " + (err or "")[-1500:]}


def model_hints(models):
    from fractions import Fraction
    out = []
    for m in models:
        for k, (kind, v) in sorted(m.items()):
            if kind == "real":
                try:
                    f = float(Fraction(v))
                except (ValueError, OverflowError):
                    continue
                if f not in out:
                    out.append(f)
    return out


def run_spec(spec, budget, tier):
    """In a forked worker: obligations of one specification, discharged."""
    from pyvc import verify, solve
    from pyvc.interp import Interp
    from contracts import library
    t0 = time.time()
    it = Interp(ROOT)
    library.install(it)
    r = verify.explore(it, spec, budget=150 if tier == "quick" else 600)
    # vacuity guard: the stated preconditions can be met
    covers = {}
    obls = list(r.obligations)
    solve.discharge(obls, budget, jobs=3)
    # once more, with more time, for the few that no back end decided
    left = [o for o in obls if o.status == solve.UNDECIDED]
    if 0 < len(left) <= 12:
        solve.discharge(left, budget * 3, jobs=3)
    for name, pc in r.covers[:1]:
        import z3
        s = z3.Solver()
        s.set("timeout", 3000)
        for f in pc:
            s.add(f)
        covers[name] = str(s.check())
    if r.unsupported:
        # the generation stopped: summaries used so far may be unverified, so counter-models refute nothing
        for o in obls:
            if o.status == solve.REFUTED:
                o.status, o.reason = solve.UNDECIDED, "counter-model, but not every path of the specification is within reach"
    return {"name": spec.name, "functions": spec.functions, "note": spec.note, "unsupported": r.unsupported, "crash": r.crash,
            "notes": r.notes[-2:], "paths": r.paths, "gen": r.time, "wall": time.time() - t0, "covers": covers,
            "inlined": sorted(r.inlined), "used": sorted(r.used), "assumed": sorted(r.assumed), "loops": r.loops,
            "exits": r.exits,
            "obligations": [{"name": o.name, "status": o.status, "backend": o.backend, "time": round(o.time, 3),
                             "reason": o.reason, "model": o.model} for o in obls]}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    quick = tier == "quick"
    cross = start_search(prop, 20 if quick else 240, seed, cases=None if not quick else 20000)
    from pyvc import verify, solve
    importlib.import_module("contracts." + prop.lower())
    specs = [s for s in verify.SPECS if s.prop == prop]
    budget = 25 if quick else 120
    tasks = [(lambda s=s: run_spec(s, budget, tier)) for s in specs]
    results = [None] * len(specs)
    decided = []
    latest = [t0 + (420 if quick else 3000)]

    def deadline():
        # once the search has a failing input the verdict is known: a last while for the obligations to be named
        if not decided and cross[0].poll() is not None and peek(cross).get("found"):
            latest[0] = min(latest[0], max(time.time() + 45, t0 + 75))
            decided.append(True)
        return latest[0]
    for i, res, t in solve.run_pool(tasks, 400 if quick else 2500, jobs=8, deadline=deadline, group=True):
        if res is None or not isinstance(res, dict):
            res = {"name": specs[i].name, "functions": specs[i].functions, "note": "", "obligations": [], "paths": 0,
                   "unsupported": "time or memory limit" if res is None else str(res[3]), "crash": None, "notes": [],
                   "gen": t, "wall": t, "covers": {}, "inlined": [], "used": [], "assumed": [], "loops": 0, "exits": 0}
        results[i] = res
    total = sum(len(r["obligations"]) for r in results)
    proved = sum(o["status"] == "proved" for r in results for o in r["obligations"])
    refuted = [(r, o) for r in results for o in r["obligations"] if o["status"] == "refuted"]
    open_ = [(r, o) for r in results for o in r["obligations"] if o["status"] == "undecided"]
    unsup = [r for r in results if r["unsupported"]]
    vacuous = [r for r in results if not r["unsupported"] and (not r["obligations"] or not r["exits"] or
                                                                "unsat" in r["covers"].values())]
    first = finish_search(cross)
    searches = [first]
    found = first.get("found")
    undecided = bool(open_ or unsup or vacuous)
    if not found and (refuted or undecided):
        hints = model_hints([o["model"] for _, o in refuted if o["model"]])
        second = finish_search(start_search(prop, 60 if quick else 300, seed + 1, hints))
        searches.append(second)
        found = second.get("found")
    cases = sum(s.get("cases", 0) for s in searches)
    violation = None
    os.makedirs(os.path.join(HERE, "replay_out"), exist_ok=True)
    path = os.path.join(HERE, "replay_out", "%s.json" % prop)
    failed = [{"specification": r["name"], "functions": r["functions"], "obligation": o["name"], "backend": o["backend"],
               "verifier_output": o["reason"], "counter_model": o["model"]} for r, o in refuted]
    if found:
        violation = "VIOLATION property=%s replay=%s" % (prop, path)
        body = {"property": prop, "input": found["input"], "failure": found["failure"], "failed_obligations": failed[:20],
                "rerun": "%s %s/replay/run.py %s --file %s" % (VENV, HERE, prop, path)}
    elif refuted:
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)
        body = {"property": prop, "input": None, "failed_obligations": failed[:50],
                "note": "the verifier refutes these obligations; the concrete search found no failing input"}
    if violation:
        with open(path, "w") as f:
            json.dump(body, f, indent=1, default=str)
    elif os.path.exists(path):
        os.remove(path)
    wall = time.time() - t0
    backends = {}
    for r in results:
        for o in r["obligations"]:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    from contracts import info
    manifest_level = info.LEVEL.get(prop, "proof")
    level = manifest_level
    covered = {
        "obligations": total, "discharged": proved, "refuted": len(refuted), "undecided": len(open_),
        "checker_cmd": "VERIF_TIER=%s VERIF_SEED=%d python3-vt check.py %s" % (tier, seed, prop),
        "trusted_base": info.TRUSTED + info.TRUSTED_FOR.get(prop, []),
        "functions_under_contract": sorted({f for r in results for f in r["functions"]}),
        "functions_inlined_from_source": sorted({f for r in results for f in r["inlined"]}),
        "contracts_used_at_call_sites": sorted({f for r in results for f in r["used"]}),
        "back_ends": backends, "solver_seconds": round(sum(o["time"] for r in results for o in r["obligations"]), 2),
        "paths": sum(r["paths"] for r in results), "loops_by_induction": sum(r["loops"] for r in results),
        "specifications": [{"name": r["name"], "obligations": len(r["obligations"]), "paths": r["paths"],
                            "discharged": sum(o["status"] == "proved" for o in r["obligations"]),
                            "seconds": round(r["wall"], 2), "precondition_satisfiable": r["covers"],
                            "out_of_reach": r["unsupported"], "note": r["note"]} for r in results],
        "out_of_reach_on_this_source": [{"specification": r["name"], "reason": r["unsupported"]} for r in unsup],
        "undecided_obligations": [{"specification": r["name"], "obligation": o["name"], "reason": o["reason"]} for r, o in open_][:40],
        "bounded_cross_check": {"evaluations": cases, "bound": first.get("bound", ""), "label": "bounded, never counted as proved",
                                "errors": [s["error"] for s in searches if s.get("error")]},
        "evaluations": cases,
        "explanation": "deductive verification of the source text; obligations that are out of reach or undecided on this "
                       "source are covered only by the bounded cross-check",
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": covered,
          "assumptions": info.ASSUMPTIONS + info.ASSUMPTIONS_FOR.get(prop, []) +
          sorted({a for r in results for a in r["assumed"]}), "wall_s": round(wall, 2), "violations": int(bool(violation))}
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for r in unsup:
        print("out of reach: %s: %s" % (r["name"], r["unsupported"]))
    for r, o in open_[:10]:
        print("undecided: %s: %s (%s)" % (r["name"], o["name"], o["reason"]))
    for r in vacuous:
        print("vacuous: %s" % r["name"])
    for s in searches:
        if s.get("error"):
            print("concrete search: %s" % s["error"])
    print("%s: %d obligations, %d discharged, %d refuted, %d undecided, %d specifications out of reach; %d concrete cases; %.1f s"
          % (prop, total, proved, len(refuted), len(open_), len(unsup), cases, wall))
    if violation:
        for f in failed[:8]:
            print("failed obligation: %s: %s" % (f["specification"], f["obligation"]))
        if found:
            print("failing input: %s: %s" % (json.dumps(found["input"])[:300], found["failure"]))
        print(violation)
        return 1
    for line in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    return 0


def known(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % prop):
                out.append(line.split(" ", 2)[2].strip())
    return out


if __name__ == "__main__":
    sys.exit(main())
