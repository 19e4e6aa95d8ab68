#!/usr/bin/env python3
"""Re-confirms every planted bug in clones of the repository and runs the check of its property on it; writes the table of DESIGN.md.

Usage: seed_table.py [--write] [ID...]; --write only rewrites the table.  Results are kept in tools/seed_table.json.
Per bug: the patch applies to HEAD and changes original lines, the tests pass, the demonstration passes without and fails with it.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "tools", "seed_table.json")
PY = "/opt/venv/bin/python"
BASE = "e0ed29a"


def one(i):
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(tmp, "repo")
    bad = []

    def sh(*a, **k):
        return subprocess.run(a, cwd=repo, capture_output=True, text=True, **k)

    try:
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        if sh("bash", d + "/demo.sh").returncode:
            bad.append("the demonstration fails on the unchanged tree")
        if sh("git", "apply", d + "/patch.diff").returncode:
            return i, dict(property=prop, rc=-1, sub="", bad=["the patch does not apply"])
        diff = sh("git", "diff").stdout
        files = sh("git", "diff", "--name-only").stdout.split()
        base = "\n".join(sh("git", "show", "%s:%s" % (BASE, f)).stdout for f in files).splitlines()
        if [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:] not in base]:
            bad.append("changes lines which are not original")
        env = dict(os.environ, PYTHONPATH=repo, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        if sh(PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests", env=env).returncode:
            bad.append("the tests fail")
        if sh("bash", d + "/demo.sh").returncode == 0:
            bad.append("the demonstration passes with the patch")
        env = dict(os.environ, VERIF_SEED="1", VERIF_NO_EVIDENCE="1", VERIF_SHRINK="0", VERIF_REPO=repo)
        c = subprocess.run([PY, "check.py", prop], cwd=ROOT, capture_output=True, text=True, env=env)
        for f in re.findall(r"VIOLATION property=\w+ replay=(\S+)", c.stdout):
            if os.path.exists(f):
                os.remove(f)
        sub = re.search(r"sub-check (\w+):", c.stdout)
        return i, dict(property=prop, rc=c.returncode, sub=sub.group(1) if sub else "", bad=bad)
    finally:
        shutil.rmtree(tmp)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    res = json.load(open(OUT)) if os.path.exists(OUT) else {}
    ids = args or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    if "--write" not in sys.argv:
        with ThreadPoolExecutor(4) as ex:
            for f in as_completed([ex.submit(one, i) for i in ids]):
                i, r = f.result()
                res[i] = r
                print("ok " if r["rc"] == 1 and not r["bad"] else "!! ", i, r, flush=True)
                json.dump(res, open(OUT, "w"), indent=0, sort_keys=True)
    for i in list(res):
        if not os.path.exists(os.path.join(ROOT, "seeded", i)):
            del res[i]
    json.dump(res, open(OUT, "w"), indent=0, sort_keys=True)
    rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
    for i in sorted(res):
        meta = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
        rows.append("| %s | %s | %s |" % (i, meta["needs"], "%s/%s" % (res[i]["property"], res[i]["sub"]) if res[i]["rc"] == 1 else "**missed**"))
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read()
    head = "## Planted bugs and the checks that catch them\n"
    s = s.split(head)[0].rstrip() + "\n\n" + head + "\nWritten by `tools/seed_table.py` (VERIF_SEED=1, quick tier).\n\n" + "\n".join(rows) + "\n"
    open(p, "w").write(s)


main()
