"""Verify planted changes in a scratch copy, and optionally run checks on them.

  python3 tools/plant.py verify ID...          apply, tests, demo with and without
  python3 tools/plant.py run ID [CHECK...]     run checks (default: its property) against the change

Works on /tmp/w/repo, a copy of /repo that it makes; /repo is not touched.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("PLANT_W", "/tmp/w/repo")
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    env = dict(os.environ, PYTHONPATH=W, JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", RV_REPO=W)
    return subprocess.run(cmd, cwd=W, env=env, text=True, capture_output=True, **kw)


def reset():
    if not os.path.isdir(W):
        shutil.copytree("/repo", W, symlinks=True)
    sh(["git", "checkout", "-q", "--", "."])


def apply(i):
    reset()
    r = sh(["git", "apply", os.path.join(HERE, "seeded", i, "patch.diff")])
    assert r.returncode == 0, r.stderr


def demo(i):
    r = sh(["bash", os.path.join(HERE, "seeded", i, "demo.sh")], timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-400:].strip()


def verify(i):
    reset()
    clean, out0 = demo(i)
    apply(i)
    bad, out1 = demo(i)
    t = sh([PY, "-m", "pytest", "-q", "-n", "6", "-p", "no:cacheprovider", "tests"])
    tests = t.stdout.strip().splitlines()[-1:]
    reset()
    ok = clean == 0 and bad != 0 and "failed" not in str(tests) and "passed" in str(tests)
    print(i, "OK" if ok else "NOT OK", "clean", clean, "patched", bad, tests)
    if not ok:
        print("   ", out0, "\n   ", out1)
    else:
        print("   ", out1.splitlines()[-1:] )


def run(i, checks):
    prop = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))["property"]
    apply(i)
    for c in checks or [prop]:
        r = sh(["python3", os.path.join(HERE, "rv", "run.py"), "check", c, "quick"])
        print(i, c, "exit", r.returncode)
        for line in r.stdout.strip().splitlines()[-3:]:
            print("     ", line[:400])
        sys.stdout.flush()
    reset()


if __name__ == "__main__":
    if sys.argv[1] == "verify":
        for i in sys.argv[2:]:
            verify(i)
    else:
        run(sys.argv[2], sys.argv[3:])
