"""Makes /verif/seeded/<id> from a definition file and confirms it, each in its own copy of the repository.

Usage: plant.py DEFS.py [ID...]      A definition: dict(id=, property=, edits=[(file, old, new)], needs=, what=, demo=python source).
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

REPO, OUT = "/repo", "/verif/seeded"
PY = "/opt/venv/bin/python"
BASE = "e0ed29a"
SH = '''#!/bin/bash
# run with cwd = the repository, after its build
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$(mktemp -d)" MPLBACKEND=Agg
export MPLCONFIGDIR="$PYTHONPYCACHEPREFIX/mpl" OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$d/demo.py"
rc=$?
rm -rf "$PYTHONPYCACHEPREFIX"
exit $rc
'''


def plant(s):
    tmp = tempfile.mkdtemp(prefix="plant-")
    repo = os.path.join(tmp, "repo")
    try:
        subprocess.run(["git", "clone", "-q", REPO, repo], check=True)
        return plant_in(s, repo)
    finally:
        shutil.rmtree(tmp)


def plant_in(s, repo):
    def sh(*a, **k):
        return subprocess.run(a, cwd=repo, capture_output=True, text=True, **k)

    d = os.path.join(OUT, s["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(d + "/meta.json", "w"), indent=1)
    msg = []
    r0 = sh("bash", d + "/demo.sh")
    if r0.returncode:
        msg.append("DEMO FAILS ON CLEAN TREE: " + (r0.stdout + r0.stderr)[-600:])
    for f, old, new in s["edits"]:
        p = os.path.join(repo, "templatefitter", f)
        t = open(p).read()
        if t.count(old) != 1:
            return "%s: %d matches of %r" % (s["id"], t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = sh("git", "diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    base = "\n".join(sh("git", "show", "%s:templatefitter/%s" % (BASE, f)).stdout for f, _, _ in s["edits"]).splitlines()
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    mine = [l for l in removed if l not in base]
    if mine or not removed:
        msg.append("not original lines: %r" % (mine,))
    env = dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONDONTWRITEBYTECODE="1")
    t = sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests", env=env)
    if t.returncode:
        msg.append("tests fail: " + "".join(l + "; " for l in t.stdout.splitlines() if l.startswith("FAILED"))[:400])
    r1 = sh("bash", d + "/demo.sh")
    if r1.returncode == 0:
        msg.append("DEMO PASSES WITH THE PATCH")
    last = (r1.stdout + r1.stderr).strip().splitlines()
    env = dict(os.environ, VERIF_SEED="1", VERIF_NO_EVIDENCE="1", VERIF_REPO=repo, VERIF_SHRINK="0")
    c = subprocess.run([PY, "check.py", s["property"]], cwd="/verif", capture_output=True, text=True, env=env)
    hit = c.returncode == 1 and "VIOLATION property=%s " % s["property"] in c.stdout
    for l in c.stdout.splitlines():
        if l.startswith("VIOLATION"):
            f = l.split("replay=")[1]
            if os.path.exists(f):
                os.remove(f)
    sub = [l for l in c.stdout.splitlines() if l.startswith("sub-check")]
    out = "%-28s %s %s | demo: %s | %s" % (s["id"], s["property"], "CAUGHT" if hit else "MISSED(%s)" % c.returncode,
                                           last[-1][:80] if last else "", (sub[0][:120] if sub else ""))
    return out + "".join("\n    !! " + m for m in msg)


def main():
    defs = runpy.run_path(sys.argv[1])["SEEDS"]
    want = sys.argv[2:]
    with ThreadPoolExecutor(3) as ex:
        for f in as_completed([ex.submit(plant, s) for s in defs if not want or s["id"] in want]):
            print(f.result(), flush=True)


main()
