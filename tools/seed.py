"""Maintain /verif/seeded: regenerate patches from the definitions in
tools/seeds/*.py and confirm each planted bug.

  seed.py gen [id...]      write patch.diff, demo.sh, demo.py, meta.json
  seed.py confirm [id...]  demo 0 on clean tree, nonzero when patched, tests pass
  seed.py run [id...]      run the property's quick check with the bug applied
"""
import glob, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("SEED_REPO", "/repo")
BUGS = {}


def bug(id, prop, needs, breaks, edits, demo):
    assert id not in BUGS
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


for f in sorted(glob.glob(os.path.join(V, "tools", "seeds", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh("git -C " + R + " checkout -- .")


def gen(id):
    b = BUGS[id]
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert sh("git -C " + R + " status --porcelain").stdout.strip() == ""
    try:
        for fn, old, new in b["edits"]:
            p = os.path.join(R, fn)
            s = open(p).read()
            assert s.count(old) == 1, (id, fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C " + R + " diff").stdout
        assert diff, id
    finally:
        clean()
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(b["demo"].lstrip("\n"))
    shutil.copy(os.path.join(V, "tools", "demo_common.py"), d + "/demo_common.py")
    open(d + "/demo.sh", "w").write(
        '#!/bin/bash\n# run with cwd /repo: exit 0 when the behaviour is right\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" exec timeout 280 /opt/venv/bin/python "$here/demo.py"\n'
    )
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def confirm(id, tests=True):
    d = os.path.join(V, "seeded", id)
    r0 = sh(["bash", d + "/demo.sh"], cwd=R)
    a = sh("git -C " + R + " apply " + d + "/patch.diff")
    assert a.returncode == 0, a.stdout
    try:
        r1 = sh(["bash", d + "/demo.sh"], cwd=R)
        bad = []
        if tests:
            out = "/tmp/seedtest.json"
            sh("bash /opt/vp/test.sh " + out)
            res = json.load(open(out))
            base = json.load(open("/opt/vp/BASELINE.json"))
            want = set(base.get("stable") or base.get("passed") or base.get("stable_tests") or [])
            got = set(res["passed"])
            bad = sorted(want - got)
            assert want
    finally:
        clean()
    ok = r0.returncode == 0 and r1.returncode != 0 and not bad
    print(id, "confirmed" if ok else "NOT CONFIRMED", "clean", r0.returncode, "patched", r1.returncode, "failing tests", bad[:3])
    if not ok:
        print(r0.stdout[-1500:] if r0.returncode else r1.stdout[-1500:])
    sys.stdout.flush()


def run(id):
    d = os.path.join(V, "seeded", id)
    p = json.load(open(d + "/meta.json"))["property"]
    a = sh("git -C " + R + " apply " + d + "/patch.diff")
    assert a.returncode == 0, a.stdout
    t = time.time()
    try:
        r = sh(["bin/check", p, "--quick"], cwd=V)
    finally:
        clean()
    print(id, p, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t))
    for l in r.stdout.splitlines()[-8:]:
        print("     ", l[:220])
    sys.stdout.flush()


if __name__ == "__main__":
    what, ids = sys.argv[1], sys.argv[2:] or sorted(BUGS)
    for i in ids:
        m = [b for b in sorted(BUGS) if b == i or b.startswith(i + "-")]
        for b in m:
            {"gen": gen, "confirm": confirm, "demo": lambda x: confirm(x, False), "run": run}[what](b)
