#!/usr/bin/env python3
"""Plant a bug: seed.py SPEC.py  (SPEC defines id, property, file, edits,
needs, breaks, demo).  Checks that it counts, writes seeded/<id>/."""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
MINI = open(os.path.join(ROOT, "tools", "mini.py")).read()
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           MPLBACKEND="Agg", PATH="/opt/venv/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=ENV,
                          capture_output=True, text=True, **k)


def plant(s, check=True):
    d = os.path.join(ROOT, "seeded", s["id"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        r = os.path.join(w, "repo")
        shutil.copytree("/repo", r, symlinks=True)
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", r).stdout
        base = sh("git rev-list --max-parents=0 HEAD", r).stdout.strip()
        for f, _, _ in s["edits"]:
            orig = sh(f"git show {base}:{f}", r).stdout.split("\n")
        for line in diff.split("\n"):
            if line.startswith("-") and not line.startswith("---") and \
                    line[1:].strip() and line[1:] not in orig:
                print(s["id"], "WARN: not an original line:", line)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
        if "mini" in s["demo"]:
            open(os.path.join(d, "mini.py"), "w").write(MINI)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"],
                   "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        good = sh(["bash", d + "/demo.sh"], "/repo")
        bad = sh(["bash", d + "/demo.sh"], r)
        t = sh(f"{PY} -m pytest -q -p no:cacheprovider --junitxml={w}/j.xml "
               f"--basetemp={w}/t pdr/tests && true; {PY} "
               f"/opt/vp/results.py {w}/o.json junit:{w}/j.xml", r)
        o = json.load(open(w + "/o.json"))
        miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - \
            set(o["passed"])
        ok = good.returncode == 0 and bad.returncode != 0 and not miss
        print(s["id"], "counts" if ok else "DOES NOT COUNT",
              "good", good.returncode, "bad", bad.returncode, "tests", miss)
        if good.returncode:
            print(good.stdout[-800:], good.stderr[-1500:])
        if not ok:
            return
        print("   ", bad.stderr.strip().split("\n")[-1][:200])
        if check:
            c = subprocess.run(["python3", "check.py", s["property"]],
                               cwd=ROOT, env=dict(os.environ, PYVC_REPO=r),
                               capture_output=True, text=True)
            v = [x for x in c.stdout.split("\n") if x.startswith(
                ("VIOLATION", "obligation"))]
            print("   ", "CAUGHT" if c.returncode == 1 else
                  f"MISSED ({c.returncode})", *[x[:220] for x in v[:3]],
                  sep="\n      ")
            if c.returncode not in (0, 1):
                print(c.stderr[-800:])
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        if f == "--no-check":
            continue
        m = runpy.run_path(f)
        for s in m["SEEDS"]:
            if not os.environ.get("ONLY") or s["id"] in os.environ[
                    "ONLY"].split(","):
                plant(s, "--no-check" not in sys.argv)
