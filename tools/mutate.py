#!/usr/bin/env python3
"""Mutation testing of the checks themselves (development tool, not part of any check).

Usage: mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--seed S] [--jobs J]
Every mutant is made in a scratch copy of /repo under /tmp, filtered by the existing tests and then given
to the checks of the properties that concern the file, until one of them reports a violation.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUTATE_REPO", "/repo")
PY = "/opt/venv/bin/python"
FILES = {
    "histograms/hist1d.py": "P01 P02 P03",
    "histograms/hist2d.py": "P01 P02 P03",
    "histograms/abstract_hist.py": "P01 P02 P03",
    "histograms/hist_utils.py": "P03",
    "templates/abstract_template.py": "P04 P05 P06 P08 P09 P10",
    "templates/template1d.py": "P05 P04 P23 P07",
    "templates/template2d.py": "P05 P04 P23 P07",
    "templates/channel.py": "P09 P07 P08 P12 P22 P23 P10 P13",
    "templates/multi_channel_template.py": "P08 P09 P07 P10 P12 P27",
    "utility.py": "P19 P11 P21 P05",
    "stats.py": "P20",
    "toy_study.py": "P18",
    "minimizer.py": "P25 P21 P15 P14 P13 P16",
    "fitter.py": "P14 P16 P17 P13 P15",
    "nll.py": "P24",
    "templates_legacy.py": "P24 P23",
    "histogram_legacy.py": "P24",
}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.MatMult: "*", ast.FloorDiv: "/", ast.Mod: "+"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}


def mutants(src):
    warnings.simplefilter("ignore")
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()

    out = []

    def add(n, new, what):
        s, e = pos(n)
        out.append((s, e, new, "line %d: %s" % (n.lineno, what)))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n.value)
        if isinstance(n, ast.Call) and text(n.func).split(".")[0] in ("print", "logging"):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)):
            for a in [n.returns] + [x.annotation for x in n.args.args]:
                if a is not None:
                    skip.update(ast.walk(a))
            for d in n.decorator_list:
                skip.update(ast.walk(d))
        if isinstance(n, ast.Assign) and text(n.targets[0]).endswith("__doc__"):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                continue
            add(n, "(%s) %s (%s)" % (text(n.left), BIN[type(n.op)], text(n.right)), "%s -> %s" % (type(n.op).__name__, BIN[type(n.op)]))
            add(n, "(%s)" % text(n.left), "%s keeps the left side" % type(n.op).__name__)
        elif isinstance(n, ast.AugAssign):
            add(n, "%s = %s" % (text(n.target), text(n.value)), "augmented assignment -> assignment")
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            add(n, "%s %s %s" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "%s -> %s" % (type(n.ops[0]).__name__, CMP[type(n.ops[0])]))
        elif isinstance(n, ast.BoolOp):
            add(n, "(%s)" % text(n.values[0]), "keeps the first condition")
            add(n, "(%s)" % text(n.values[-1]), "keeps the last condition")
        elif isinstance(n, ast.UnaryOp):
            add(n, "(%s)" % text(n.operand), "removes %s" % type(n.op).__name__)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            v = n.value
            if v is True or v is False:
                add(n, str(not v), "%s -> %s" % (v, not v))
            elif isinstance(v, int):
                add(n, str(v + 1), "%s -> %s" % (v, v + 1))
                if v > 0:
                    add(n, str(v - 1), "%s -> %s" % (v, v - 1))
            elif isinstance(v, float):
                add(n, repr(v * 3), "%r -> %r" % (v, v * 3))
        elif isinstance(n, ast.IfExp):
            add(n, "(%s)" % text(n.body), "always the first alternative")
            add(n, "(%s)" % text(n.orelse), "always the second alternative")
        elif isinstance(n, ast.If):
            add(n.test, "True", "condition -> True")
            add(n.test, "False", "condition -> False")
        elif isinstance(n, ast.Call):
            f = text(n.func).split(".")[-1]
            if len(n.args) == 1 and not n.keywords and f in ("sqrt", "abs", "copy", "asarray", "array", "flatten", "ravel", "rint", "cumsum", "sorted", "transpose", "list", "tuple", "set", "diag", "int", "float", "max", "min"):
                add(n, "(%s)" % text(n.args[0]), "removes %s" % f)
            if not n.args and not n.keywords and isinstance(n.func, ast.Attribute) and f in ("copy", "flatten", "ravel", "values", "items"):
                if f in ("copy", "flatten", "ravel"):
                    add(n, "(%s)" % text(n.func.value), "removes %s" % f)
            for k in n.keywords:
                if k.arg is not None and k.arg not in ("desc", "edgecolor", "histtype", "lw", "label", "color", "marker", "ls", "hatch", "fill", "alpha", "total", "cmap"):
                    s, e = pos(k)
                    c = e
                    while b[c:c + 1] in (b" ", b"\n"):
                        c += 1
                    if b[c:c + 1] == b",":
                        c += 1
                    out.append((s, c, "", "line %d: removes %s" % (n.lineno, k.arg)))
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a = [text(x) for x in n.args]
                s, e = pos(n.args[0])[0], pos(n.args[1])[1]
                out.append((s, e, "%s, %s" % (a[1], a[0]), "line %d: swaps arguments" % n.lineno))
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is None:
                add(n.lower, "(%s) + 1" % text(n.lower), "slice start + 1")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, "pass", "removes statement %s" % text(n)[:60].replace("\n", " "))
        if isinstance(n, ast.Break):
            add(n, "continue", "break -> continue")
        if isinstance(n, ast.Continue):
            add(n, "break", "continue -> break")
        if isinstance(n, (ast.Attribute, ast.Name)) and not isinstance(n, ast.Call):
            t = text(n)
            pairs = {"np.sum": "np.mean", "np.mean": "np.sum", "np.std": "np.var", "np.vstack": "np.hstack", "np.linspace": None,
                     "np.maximum": "np.minimum", "np.minimum": "np.maximum", "np.any": "np.all", "all": "any", "any": "all",
                     "max": "min", "min": "max", "np.zeros_like": "np.ones_like", "np.zeros": "np.ones", "np.abs": "np.sign"}
            if pairs.get(t):
                add(n, pairs[t], "%s -> %s" % (t, pairs[t]))
    res = []
    for s, e, new, what in sorted(set(out)):
        m = (b[:s] + new.encode() + b[e:]).decode()
        if m == src:
            continue
        try:
            if ast.dump(ast.parse(m)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        res.append((m, what, s, e))
    return res


HELPER = '''
import os
import numpy as np
_calls = {}
_seen = set()
_MARK = %r


def cond(kind, site, v=None):
    try:
        r = bool(_cond(kind, site, v))
    except Exception:
        r = False
    if r and site not in _seen:
        _seen.add(site)
        open(_MARK, "a").close()
    return r


def _cond(kind, site, v):
    if kind == "calls":
        _calls[site] = _calls.get(site, 0) + 1
        return _calls[site] > 3
    if kind.startswith("size"):
        return (len(v) if hasattr(v, "__len__") else np.size(v)) > int(kind[4:])
    if isinstance(v, (str, dict)) or v is None:
        return kind == "none" and v is None
    a = np.asarray(v)
    if a.dtype == object:
        a = np.concatenate([np.ravel(x) for x in v])
    if kind == "ndim":
        return a.ndim > 1
    if kind == "int":
        return a.dtype.kind in "iu"
    a = a.astype(float)
    return dict(neg=lambda: (a < 0).any(), zero=lambda: (a == 0).any(), large=lambda: np.abs(a).max() > 1e3, small=lambda: 0 < np.abs(a).max() < 0.5,
                frac=lambda: (a != np.rint(a)).any(), unsorted=lambda: (np.diff(a.ravel()) < 0).any() and a.size > 2,
                one=lambda: a.size == 1, wide=lambda: np.abs(a).max() > 30 * np.abs(a[a != 0]).min(),
                lastmax=lambda: a.size > 2 and a.ravel().argmax() == a.size - 1, equal=lambda: a.size > 1 and (a.ravel()[1:] == a.ravel()[:-1]).any())[kind]()
'''
KINDS = ["size4", "size7", "size11", "neg", "zero", "large", "small", "frac", "unsorted", "one", "wide", "lastmax", "equal", "ndim", "int", "calls", "calls"]


def conditional(src, rnd):
    """Every expression mutant, restricted to a randomly chosen condition on something the function uses."""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    exprs = {}
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        if any("jit" in ast.dump(d) for d in fn.decorator_list):
            continue
        args = [x.arg for x in fn.args.args if x.arg not in ("self", "cls")]
        for st in fn.body:
            for n in ast.walk(st):
                if isinstance(n, (ast.expr,)) and hasattr(n, "end_lineno"):
                    s, e = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
                    sub = [b[off[k.lineno - 1] + k.col_offset:off[k.end_lineno - 1] + k.end_col_offset].decode() for k in ast.walk(n)
                           if isinstance(k, (ast.Name, ast.Attribute)) and isinstance(k.ctx, ast.Load)]
                    exprs[s, e] = (args, [t for t in sub if t.split(".")[0] not in ("np", "self", "stats", "scipy") or t.count(".") == 1 and t.startswith("self.")])
    out = []
    for m, what, s, e in mutants(src):
        if (s, e) not in exprs:
            continue
        new = m.encode()[s:len(m.encode()) - (len(b) - e)].decode()
        old = b[s:e].decode()
        if new == "pass" or not new:
            continue
        args, near = exprs[s, e]
        v = rnd.choice((args + near * 2) or ["None"])
        kind = rnd.choice(KINDS)
        if v == "None" or v in ("range", "sum", "list", "zip", "map", "len", "self") and v not in args:
            v, kind = "None", "calls"
        site = "%d-%d" % (s, len(out))
        m2 = (b[:s] + ('(%s if __import__("templatefitter._mut", fromlist=["x"]).cond(%r, %r, %s) else %s)' % (new, kind, site, v, old)).encode() + b[e:]).decode()
        try:
            ast.parse(m2)
        except SyntaxError:
            continue
        out.append((m2, "%s if %s(%s) [%s]" % (what, kind, v, site), s, e))
    return out


def run(job):
    f, m, what, props, idx, known = job
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.copytree(os.path.join(REPO, "templatefitter"), d + "/templatefitter", ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(os.path.join(REPO, "tests"), d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
        with open(os.path.join(d, "templatefitter", f), "w") as h:
            h.write(m)
        mark = d + "/reached"
        with open(os.path.join(d, "templatefitter", "_mut.py"), "w") as h:
            h.write(HELPER % mark)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONPATH=d, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MPLCONFIGDIR=d + "/mpl")
        try:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=120)
            ok = t.returncode == 0
        except subprocess.TimeoutExpired:
            ok = False
        if not ok:
            return dict(file=f, what=what, status="tests")
        env = dict(os.environ, VERIF_REPO=d, VERIF_NO_EVIDENCE="1", VERIF_SHRINK="0", VERIF_SEED="1")
        rcs = []
        if os.path.exists(mark):
            os.remove(mark)
        todo = [[p] for p in props]
        if "_mut" in m:  # a short run first: is the condition ever met?
            todo = [[p, "--scale", "0.1"] for p in props] + [None] + todo
        for p in todo:
            if p is None:
                if not os.path.exists(mark):
                    break
                continue
            try:
                c = subprocess.run([PY, "check.py"] + p, cwd=ROOT, env=env, capture_output=True, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                rcs.append((p[0], "timeout"))
                continue
            if c.returncode == 1:
                return dict(file=f, what=what, status="killed", by=p[0])
            if c.returncode:
                rcs.append((p[0], c.returncode))
        import difflib
        old = open(os.path.join(REPO, "templatefitter", f)).read().splitlines()
        diff = [l for l in difflib.unified_diff(old, m.splitlines(), lineterm="", n=0) if l[:1] in "+-" and l[:3] not in ("+++", "---")]
        return dict(file=f, what=what, status="SURVIVED" if "_mut" not in m or os.path.exists(mark) else "not reached", rcs=rcs, diff=diff)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--conditional", action="store_true", help="mutants restricted to a random condition")
    a = ap.parse_args()
    jobs = []
    for f in (a.files.split(",") if a.files else FILES):
        src = open(os.path.join(REPO, "templatefitter", f)).read()
        ms = conditional(src, random.Random(a.seed)) if a.conditional else mutants(src)
        print(f, len(ms))
        jobs += [(f, m, what, FILES[f].split(), i, None) for i, (m, what, s, e) in enumerate(ms)]
    if a.count:
        return
    done = set()
    if os.path.exists(a.out):
        done = {(r["file"], r["what"]) for r in map(json.loads, open(a.out))}
    jobs = [j for j in jobs if (j[0], j[2]) not in done]
    if a.sample:
        jobs = random.Random(a.seed).sample(jobs, min(a.sample, len(jobs)))
    n = {}
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(run, jobs):
            with open(a.out, "a") as h:
                h.write(json.dumps(r) + "\n")
            n[r["status"]] = n.get(r["status"], 0) + 1
            if r["status"] == "SURVIVED":
                print(r["status"], r["file"], r["what"], r["rcs"], *r["diff"], sep="\n   ", flush=True)
            print(n, flush=True) if sum(n.values()) % 20 == 0 else None
    print(n)


main()
