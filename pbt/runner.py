"""Drives the sub-checks of one property and reports the outcome."""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback

from . import boot

NPROC = 8
SHRINK_BUDGET = float(os.environ.get("VERIF_SHRINK", "40"))  # seconds after the first failure in a worker
CASE_LIMIT = 150.0  # seconds without progress before a worker is considered stuck
WALL = {"quick": 420.0, "thorough": 7200.0}


class Abort(KeyboardInterrupt):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True)


def digest(text):
    return hashlib.sha256(text.encode()).hexdigest()[:12]


def shard_seed(seed, prop, sub, shard):
    return int.from_bytes(hashlib.sha256(("%d:%s:%s:%d" % (seed, prop, sub, shard)).encode()).digest()[:8], "big")


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    for f in tb:
        if f.filename.startswith(boot.REPO):
            where = " [at %s:%s]" % (os.path.relpath(f.filename, boot.REPO), f.name)
    return "%s: %s%s" % (type(exc).__name__, str(exc)[:1200], where)


def run_case(sub, case):
    """Runs one case; returns (ctx, message or None)."""
    from .core import Ctx
    import numpy as np
    ctx = Ctx()
    # the code under test may use the global generators: make every case reproducible
    h = int(digest(canon(case))[:8], 16)
    np.random.seed(h)
    import random
    random.seed(h)
    try:
        sub.check(case, ctx)
    except Abort:
        raise
    except Exception as e:  # any exception on a valid case is a violation
        return ctx, describe(e)
    return ctx, None


def quiet():
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(fd, 2)


def worker(prop, sub, shard, n, seed, deadline, out, cur):
    """Runs one shard in a forked process and writes its result."""
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from hypothesis.errors import HypothesisException

    res = dict(sub=sub.name, shard=shard, evaluations=0, nontrivial=[], labels={}, samples=[], failure=None,
               error=None, truncated=False)
    seen = set()
    best = {}
    t_first = [None]

    def execute(case):
        text = canon(case)
        case = json.loads(text)
        now = time.time()
        if now > deadline:
            res["truncated"] = True
            raise Abort()
        if t_first[0] is not None and now - t_first[0] > SHRINK_BUDGET:
            raise Abort()
        with open(cur, "w") as f:
            f.write(text)
        ctx, msg = run_case(sub, case)
        if t_first[0] is None:
            res["evaluations"] += 1
            for l in ctx.labels:
                res["labels"][l] = res["labels"].get(l, 0) + 1
            if ctx.nontrivial:
                d = digest(text)
                if d not in seen:
                    seen.add(d)
                    if len(res["samples"]) < 2 and len(text) < 1500 and len(seen) % 7 == 1:
                        res["samples"].append(case)
        if msg is not None:
            if t_first[0] is None:
                t_first[0] = time.time()
            if not best or len(text) < len(best["text"]):
                best.update(text=text, message=msg)
            raise AssertionError("violation")

    try:
        if shard == 0:
            for case in sub.corpus:
                execute(case)

        @hseed(shard_seed(seed, prop, sub.name, shard))
        @settings(max_examples=n, database=None, deadline=None, phases=[Phase.generate, Phase.shrink],
                  suppress_health_check=list(HealthCheck), print_blob=False, report_multiple_bugs=False)
        @given(sub.strategy())
        def test(case):
            execute(case)

        test()
    except Abort:
        pass
    except BaseException as e:
        if not best:
            res["error"] = "".join(traceback.format_exception(e))[-3000:]
    if best:
        res["failure"] = dict(case=json.loads(best["text"]), message=best["message"])
    res["nontrivial"] = sorted(seen)
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)


def in_child(fn, limit):
    """Runs fn in a forked child; returns (status, seconds); status is the wait status or None on timeout."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.setsid()
            quiet()
            code = fn()
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    t0 = time.time()
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            return st, time.time() - t0
        if time.time() - t0 > limit:
            kill(pid)
            os.waitpid(pid, 0)
            return None, time.time() - t0
        time.sleep(0.02)


def kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass


def replay_case(sub, case, limit=240.0):
    """Direct execution of one case in a fresh child: message if it fails, else None."""
    path = os.path.join(boot.SCRATCH, "replay-%d.json" % os.getpid())
    if os.path.exists(path):
        os.remove(path)

    def fn():
        ctx, msg = run_case(sub, json.loads(canon(case)))
        with open(path, "w") as f:
            json.dump(msg, f)
        return 0

    st, _ = in_child(fn, limit)
    if st is None:
        return "did not terminate within %d s" % limit
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return "the process died (wait status %d)" % st


def load(prop):
    mod = importlib.import_module("props." + prop.lower())
    return mod


def run(prop, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    boot.boot()
    mod = load(prop)
    subs = [s for s in mod.SUBS if only is None or s.name in only]
    deadline = t0 + WALL[tier]
    tasks = []
    for s in subs:
        n = max(1, int(round((s.quick if tier == "quick" else s.thorough) * scale)))
        k = max(1, min(s.shards, n))
        for i in range(k):
            m = n // k + (1 if i < n % k else 0)
            tasks.append((s, i, m))
    # interleave so that long sub-checks start early
    tasks.sort(key=lambda t: t[1])

    running = {}
    results = []
    crashes = []
    stop = False
    idx = 0
    while idx < len(tasks) or running:
        while idx < len(tasks) and len(running) < NPROC and not stop:
            s, i, m = tasks[idx]
            out = os.path.join(boot.SCRATCH, "r%d.json" % idx)
            cur = os.path.join(boot.SCRATCH, "c%d.json" % idx)
            pid = os.fork()
            if pid == 0:
                try:
                    os.setsid()
                    quiet()
                    worker(prop, s, i, m, seed, deadline, out, cur)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            running[pid] = (s, i, m, out, cur, time.time())
            idx += 1
        if stop and idx < len(tasks):
            idx = len(tasks)
        time.sleep(0.02)
        for pid in list(running):
            s, i, m, out, cur, ts = running[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            stuck = False
            if not p:
                try:
                    last = max(ts, os.path.getmtime(cur))
                except OSError:
                    last = ts
                if time.time() - last > CASE_LIMIT:
                    kill(pid)
                    os.waitpid(pid, 0)
                    p, stuck = pid, True
            if not p:
                continue
            kill(pid)  # left-over children of the worker's process group
            del running[pid]
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if r["failure"]:
                    stop = True
            else:
                case = None
                if os.path.exists(cur):
                    with open(cur) as f:
                        try:
                            case = json.loads(f.read())
                        except ValueError:
                            case = None
                crashes.append((s, i, m, case, "stuck" if stuck else "died (status %s)" % st))
                if case is not None:
                    stop = True

    return finish(prop, mod, subs, tier, seed, t0, results, crashes, len(tasks))


def finish(prop, mod, subs, tier, seed, t0, results, crashes, ntasks):
    by_name = {s.name: s for s in subs}
    failures = []
    notes = []
    errors = [r["error"] for r in results if r["error"]]
    for r in results:
        if r["failure"]:
            failures.append((r["sub"], r["shard"], r["failure"]["case"], r["failure"]["message"]))
    for s, i, m, case, what in crashes:
        if case is None:
            errors.append("worker for %s/%d %s before its first case" % (s.name, i, what))
        else:
            failures.append((s.name, i, case, what))
    failures.sort(key=lambda f: len(canon(f[2])))

    confirmed = None
    for name, shard, case, message in failures[:6]:
        msg = replay_case(by_name[name], case)
        if msg is not None:
            confirmed = dict(property=prop, sub=name, mode="case", case=case, message=msg, tier=tier, seed=seed)
            break
    if failures and confirmed is None:
        # depends on earlier cases of the same process: repeat the whole shard
        name, shard, case, message = failures[0]
        s = by_name[name]
        n = s.quick if tier == "quick" else s.thorough
        k = max(1, min(s.shards, n))
        m = n // k + (1 if shard < n % k else 0)
        rep = dict(property=prop, sub=name, mode="shard", shard=shard, examples=m, seed=seed, case=case, message=message)
        if replay_shard(prop, s, rep):
            confirmed = rep
        else:
            notes.append("a failure of %s did not reproduce: %s" % (name, message))

    nontrivial = set()
    labels = {}
    per_sub = {}
    samples = []
    for r in results:
        for d in r["nontrivial"]:
            nontrivial.add((r["sub"], d))
        ps = per_sub.setdefault(r["sub"], dict(evaluations=0, nontrivial=0, labels={}))
        ps["evaluations"] += r["evaluations"]
        for l, c in r["labels"].items():
            ps["labels"][l] = ps["labels"].get(l, 0) + c
        samples_here = [x for x in samples if x["sub"] == r["sub"]]
        for c in r["samples"]:
            if len(samples_here) < 2:
                samples.append(dict(sub=r["sub"], case=c))
                samples_here.append(c)
    for name, _ in nontrivial:
        per_sub[name]["nontrivial"] += 1
    rule = getattr(mod, "RULE", "") + " " + " | ".join("%s: %s" % (s.name, s.rule) for s in subs)
    truncated = any(r["truncated"] for r in results)
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(r["evaluations"] for r in results),
            distinct_nontrivial=len(nontrivial),
            rule=rule.strip(),
            samples=samples[:12] or [dict(note="no non-trivial sample recorded")],
            per_sub_check=per_sub,
            shards_run=len(results), shards_planned=ntasks, truncated_by_wall_clock=truncated,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "numpy, scipy, iminuit, numdifftools, pandas and matplotlib behave as documented",
            "the reference formulas in /verif/pbt/ref.py state the documented behaviour"],
        wall_s=round(time.time() - t0, 2),
        violations=1 if confirmed else 0,
    )
    if notes:
        evidence["coverage"]["notes"] = notes
    if not os.environ.get("VERIF_NO_EVIDENCE"):
        os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    for n in notes:
        print("NOTE:", n)
    if confirmed:
        rdir = os.path.join(boot.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.json" % (prop, confirmed["sub"], digest(canon(confirmed["case"]))))
        with open(path, "w") as f:
            json.dump(confirmed, f, indent=1)
        print("sub-check %s: %s" % (confirmed["sub"], confirmed["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        boot.cleanup()
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0])
        boot.cleanup()
        return 2
    for name, ps in sorted(per_sub.items()):
        print("%s/%s: %d cases, %d distinct non-trivial %s" % (
            prop, name, ps["evaluations"], ps["nontrivial"],
            " ".join("%s=%d" % kv for kv in sorted(ps["labels"].items()))))
    print("OK property=%s cases=%d nontrivial=%d wall=%.1fs%s" % (
        prop, evidence["coverage"]["evaluations"], len(nontrivial), time.time() - t0,
        " (truncated)" if truncated else ""))
    boot.cleanup()
    return 0


def replay_shard(prop, sub, rep):
    out = os.path.join(boot.SCRATCH, "shard.json")
    cur = os.path.join(boot.SCRATCH, "shard.cur")
    if os.path.exists(out):
        os.remove(out)

    def fn():
        worker(prop, sub, rep["shard"], rep["examples"], rep["seed"], time.time() + 600, out, cur)
        return 0

    in_child(fn, 700)
    if not os.path.exists(out):
        return True
    with open(out) as f:
        return json.load(f)["failure"] is not None


def replay(prop, path):
    boot.boot()
    mod = load(prop)
    with open(path) as f:
        rep = json.load(f)
    sub = {s.name: s for s in mod.SUBS}[rep["sub"]]
    if rep.get("mode") == "shard":
        failed = replay_shard(prop, sub, rep)
        msg = rep["message"] if failed else None
    else:
        msg = replay_case(sub, rep["case"])
    boot.cleanup()
    if msg is None:
        print("replay of %s: the property holds" % path)
        return 0
    print("sub-check %s: %s" % (rep["sub"], msg))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
