"""Developer tool: (re)creates /verif/seeded/<id>/ from tools/seeds/*.py and confirms each one:
applies, passes the 31 tests, demo fails with the patch and passes without.
usage: mkseed.py [ID ...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append((id, prop, edits, demo, needs, breaks))
for f in sorted(glob.glob("/verif/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"), {"seed": seed})
base = json.load(open("/opt/vp/BASELINE.json"))
SH = '#!/bin/bash\nexec env PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=300)
for id, prop, edits, demo, needs, breaks in SEEDS:
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        continue
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        sh("git clone -q /repo r", d)
        r = d + "/r"
        orig = subprocess.run("git show 18dbe88:%s", shell=True, capture_output=True, cwd=r)
        for file, old, new in edits:
            p = os.path.join(r, file)
            s = open(p).read()
            assert s.count(old) >= 1, (id, file, old)
            b = sh("git show 18dbe88:%s" % file, r).stdout
            if not any(l in b for l in old.splitlines() if l.strip()):
                print(id, "WARNING: does not touch original lines")
            open(p, "w").write(s.replace(old, new, 1))
        diff = sh("git diff", r).stdout
        out = "/verif/seeded/" + id
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write(demo.strip() + "\n")
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
        bad = sh("bash %s/demo.sh" % out, r)
        t = sh("PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider 2>&1 | tail -5", r)
        sh("git checkout -q -- .", r)
        good = sh("bash %s/demo.sh" % out, r)
        ok = bad.returncode != 0 and good.returncode == 0
        print(id, prop, "demo", "ok" if ok else "BAD (clean %d, patched %d) %s %s" % (good.returncode, bad.returncode, good.stderr[-300:], bad.stderr[-200:]), "|", t.stdout.strip().splitlines()[-1])
    finally:
        shutil.rmtree(d)
