"""Plants a bug: mk(id, prop, edits, demo, needs, breaks) writes seeded/<id>/ after confirming it in a scratch clone.
Usage from a script:  from mkseed import mk;  mk(...)
"""
import os, subprocess, json, sys, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
WT = "/tmp/seedwt"
PY = "/opt/venv/bin/python"
BASE = "868cd7d"
STABLE = ["tests/test_crudedataset.py", "tests/test_epathlib.py", "tests/test_transforms.py"]


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def clone():
    if not os.path.isdir(WT):
        subprocess.check_call(["git", "clone", "-q", "/repo", WT])
    sh("git", "-C", WT, "fetch", "-q"); sh("git", "-C", WT, "reset", "-q", "--hard", "origin/HEAD"); sh("git", "-C", WT, "checkout", "-q", "--detach", "origin/HEAD")
    sh("git", "-C", WT, "clean", "-qfd")
    h = sh("git", "-C", "/repo", "rev-parse", "HEAD").stdout.strip()
    assert sh("git", "-C", WT, "rev-parse", "HEAD").stdout.strip() == h


def run_demo(d, cwd):
    env = {"PATH": "/usr/bin:/bin", "HOME": "/root", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}
    try:
        return sh("bash", os.path.join(d, "demo.sh"), cwd=cwd, env=env, timeout=290)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 99, "timeout", "")


def check(prop, src, *extra):
    env = dict(os.environ, VERIF_REPO_SRC=src, VERIF_SEED="1", VERIF_TIER="quick")
    r = sh("python3", "check.py", prop, "--tier", "quick", *extra, cwd=ROOT, env=env)
    return r


def mk(id, prop, edits, demo, needs, breaks, lib=True, tests=True, chk=True, evaluate=True):
    clone()
    for f, old, new in edits:
        p = f"{WT}/src/megatron/energon/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "-C", WT, "diff").stdout
    # original lines?
    for f, old, new in edits:
        p = f"src/megatron/energon/{f}"
        hs = re.findall(r"@@ -(\d+)(?:,(\d+))?", sh("git", "-C", WT, "diff", "-U0", "--", p).stdout)
        for a, n in hs:
            n = int(n) if n else 1
            if n == 0:
                continue
            bl = sh("git", "-C", WT, "blame", "-s", "-L", f"{a},+{n}", "HEAD", "--", p).stdout
            for line in bl.splitlines():
                if not line.lstrip("^").startswith(BASE[:6]):
                    print(id, "WARNING: not an original line:", line)
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    if lib:
        shutil.copy(f"{HERE}/seedlib/lib.py", f"{d}/lib.py")
    open(f"{d}/demo.py", "w").write(demo)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository; exit 0: behaviour as stated, 1: broken\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    a, b = run_demo(d, "/repo"), run_demo(d, WT)
    ok = a.returncode == 0 and b.returncode != 0
    print(id, "demo clean:", a.returncode, "patched:", b.returncode, "OK" if ok else "BAD")
    if not ok:
        print("--- clean:", (a.stdout + a.stderr)[-1500:]); print("--- patched:", (b.stdout + b.stderr)[-800:])
    elif "Traceback" in b.stderr and "AssertionError" not in b.stderr:
        print("   patched:", b.stderr.strip().splitlines()[-1][:300])
    if tests:
        r = sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", *STABLE, cwd=WT, env=dict(os.environ, PYTHONPATH=f"{WT}/src", PYTHONDONTWRITEBYTECODE="1"))
        print("   tests:", r.stdout.strip().splitlines()[-1] if r.stdout else r.stderr[-300:])
    if chk:
        r = check(prop, f"{WT}/src")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("   check:", r.returncode, v or r.stdout[-300:])
    sys.stdout.flush()
    return ok


if __name__ == "__main__":
    # python3 tools/mkseed.py check ID...: run the check of each planted bug against a patched clone
    ids = sys.argv[2:] or sorted(os.listdir(f"{ROOT}/seeded"))
    for i in ids:
        m = json.load(open(f"{ROOT}/seeded/{i}/meta.json"))
        clone()
        r = sh("git", "-C", WT, "apply", f"{ROOT}/seeded/{i}/patch.diff")
        if r.returncode:
            print(i, "does not apply", r.stderr[:200]); continue
        a, b = run_demo(f"{ROOT}/seeded/{i}", "/repo"), run_demo(f"{ROOT}/seeded/{i}", WT)
        r = check(m["property"], f"{WT}/src")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, m["property"], "demo", a.returncode, b.returncode, "check", r.returncode, v, flush=True)
