"""usage: refs.py [NAME ...]   behaviour-preserving edits: the checks must stay quiet on every one.
Applies each bundle to a scratch copy, runs the repository's tests, then the module's checks (VROOT), one line each."""
import glob, importlib.util, os, subprocess, sys, tempfile, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
want = [a for a in sys.argv[1:] if not a.startswith("C")]
only = [a for a in sys.argv[1:] if a.startswith("C")]


def jobs():
    for p in sorted(glob.glob(HERE + "/refs/*.py")):
        s = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        for name, edits in m.REFS.items():
            if want and name not in want:
                continue
            d = tempfile.mkdtemp(prefix="ref_")
            subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
            f = d + "/repo/solver/" + m.F
            t = open(f).read()
            for a, b in edits:
                if t.count(a) < 1:
                    print("%s: text not found: %r" % (name, a[:70]))
                t = t.replace(a, b)
            open(f, "w").write(t)
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=d + "/repo",
                               capture_output=True, text=True)
            print(name, "tests:", r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-200:], flush=True)
            subprocess.run(["cp", "-a", "/verif", d + "/verif"], check=True)
            for c in m.CHECKS.split():
                if not only or c in only:
                    yield name, d, c


def run(j):
    name, d, c = j
    t = time.time()
    r = subprocess.run(["python3-vt", d + "/verif/check.py", c], capture_output=True, text=True, cwd=d + "/verif",
                       env=dict(os.environ, VROOT=d + "/repo", VERIF_SEED="1"))
    out = r.stdout.strip().splitlines()
    extra = [l for l in out if l.startswith(("VIOLATION", "failing", "failed", "out of", "undecided", "vacuous"))]
    tail = [l for l in out if l.startswith(c + ":")]
    return "%s %s rc=%d %.0fs %s%s" % (name, c, r.returncode, time.time() - t, (tail or [r.stderr[-300:]])[-1],
                                     "".join("\n      " + l[:220] for l in extra[:14]))


dirs = set()
with cf.ThreadPoolExecutor(int(os.environ.get("PAR", "3"))) as ex:
    fs = []
    for j in jobs():
        dirs.add(j[1])
        fs.append(ex.submit(run, j))
    for f in fs:
        print(f.result(), flush=True)
for d in dirs:
    subprocess.run(["rm", "-rf", d])
