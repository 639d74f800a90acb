"""Make and try planted bugs.

  plant.py make FILE.py     FILE.py defines BUGS: list of dict(id, property, needs, breaks, edits=[(path, old, new)], demo=python source)
                            writes seeded/<id>/ (patch.diff, demo.sh, demo.py, mini.py, meta.json)
  plant.py try ID [...]     applies to /repo, runs the stable tests, the demo and the check, and undoes it again
  plant.py check ID [...]   the same without tests and demo
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")  # a scratch copy: no stable tests are run there


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def clean():
    out = sh(f"git -C {REPO} status --porcelain").stdout
    assert not out.strip(), out


def revert():
    sh(f"git -C {REPO} checkout -- .")


DEMO_SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src:$here" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns["BUGS"]:
        clean()
        d = os.path.join(ROOT, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        for file, old, new in b["edits"]:
            p = os.path.join(REPO, file)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], file, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {REPO} diff").stdout
        revert()
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        for x in ["tools/mini.py", *b.get("files", [])]:
            shutil.copy(os.path.join(ROOT, x), os.path.join(d, os.path.basename(x)))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", b["id"])


def attempt(bug, full):
    clean()
    d = os.path.join(ROOT, "seeded", bug)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    res = {}
    if full:
        r = sh(f"bash {d}/demo.sh", cwd=REPO)
        res["demo_clean"] = r.returncode == 0 or r.stdout[-300:] + r.stderr[-800:]
    r = sh(f"git -C {REPO} apply {d}/patch.diff")
    assert r.returncode == 0, r.stderr
    try:
        if full:
            r = sh(f"bash {d}/demo.sh", cwd=REPO)
            res["demo_bug"] = r.returncode != 0
            res["demo_says"] = (r.stdout + r.stderr).strip().splitlines()[-1:] if r.returncode else None
            if REPO == "/repo":
                sh("bash /opt/vp/test.sh /tmp/seedout.json")
                base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                got = json.load(open("/tmp/seedout.json"))
                passed = set(got.get("passed") or got.get("pass"))
                res["tests_broken"] = sorted(base - passed)[:3]
        r = sh(f"bash run.sh {prop} quick", cwd=ROOT, env={**os.environ, "VERIF_REPO": REPO})
        res["check"] = "CAUGHT" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout else f"MISSED rc={r.returncode}"
        res["msg"] = [l for l in r.stdout.splitlines() if not l.startswith((prop, "case", "VIOL"))][:1]
        if r.returncode not in (0, 1):
            res["stderr"] = r.stderr[-1500:]
    finally:
        revert()
    sh(f"git -C {ROOT} checkout -- replays; git -C {ROOT} clean -fdq replays")
    print(bug, prop, json.dumps(res)[:900], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        for x in sys.argv[2:]:
            attempt(x, sys.argv[1] == "try")
