"""P25: the minimizers solve problems with known solutions."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import brentq

from pbt.core import Sub, close, ensure, equal, same
from pbt.gens import fixed_list, fl

from templatefitter.minimizer import minimizer_factory

RULE = "non-trivial: at least two coupled parameters and a start at least one standard deviation away from the minimum"


@st.composite
def problem(draw, max_n=4):
    n = draw(st.sampled_from([v for v in (3, 2, 1, 4) if v <= max_n]))
    a = draw(fixed_list(fixed_list(st.floats(-1, 1), n), n))
    return dict(n=n, a=a, d=draw(fixed_list(st.floats(0.5, 2), n)), scale=draw(fixed_list(st.sampled_from([1.0, 1.0, 0.5, 5.0, 30.0]), n)),
                mu=draw(fixed_list(st.floats(-5, 5), n)), c0=draw(st.sampled_from([0.0, 0.0, 10.0, -50.0])),
                kind=draw(st.sampled_from(["quad", "quad", "cosh", "exp"])))


class Problem:
    """f = c0 + sum_i phi_i(r_i) with r = B (x - mu) / scale; the minimum is where all r vanish."""

    def __init__(self, c):
        n = self.n = c["n"]
        a = np.array(c["a"])
        self.B = (np.diag(c["d"]) + 0.4 * a) / np.array(c["scale"])[None, :]
        self.mu = np.array(c["mu"]) * np.array(c["scale"])
        self.c0 = c["c0"]
        self.kind = c["kind"]
        self.H = self.B.T @ self.B

    def phi(self, r):
        if self.kind == "quad":
            return 0.5 * r * r
        if self.kind == "cosh":
            return np.cosh(np.clip(r, -60, 60)) - 1
        return np.expm1(np.minimum(r, 60)) - r

    def grad(self, x):
        r = self.B @ (np.asarray(x, dtype=float) - self.mu)
        g = r if self.kind == "quad" else np.sinh(r) if self.kind == "cosh" else np.expm1(r)
        return self.B.T @ g

    def hess(self, x):
        r = self.B @ (np.asarray(x, dtype=float) - self.mu)
        h = np.ones(self.n) if self.kind == "quad" else np.cosh(r) if self.kind == "cosh" else np.exp(r)
        return self.B.T @ (h[:, None] * self.B)

    def __call__(self, x):
        return float(self.c0 + np.sum(self.phi(self.B @ (np.asarray(x, dtype=float) - self.mu))))

    def solve(self, x0, fixed=(), bounds=None):
        """Conditional minimum by projected Newton steps with active sets."""
        x = np.array(x0, dtype=float)
        bounds = bounds or {}
        free = [i for i in range(self.n) if i not in fixed]
        lo = np.array([bounds.get(i, (None, None))[0] if bounds.get(i, (None, None))[0] is not None else -np.inf for i in range(self.n)])
        hi = np.array([bounds.get(i, (None, None))[1] if bounds.get(i, (None, None))[1] is not None else np.inf for i in range(self.n)])
        best = None
        # every combination of active bounds; the problems are small
        import itertools
        opts = []
        for i in range(self.n):
            o = ["free"] if i in free else ["fixed"]
            if i in free and np.isfinite(lo[i]):
                o.append("lo")
            if i in free and np.isfinite(hi[i]):
                o.append("hi")
            opts.append(o)
        for combo in itertools.product(*opts):
            y = x.copy()
            for i, k in enumerate(combo):
                if k == "lo":
                    y[i] = lo[i]
                elif k == "hi":
                    y[i] = hi[i]
            f = [i for i, k in enumerate(combo) if k == "free"]
            if f:
                for _ in range(200):
                    g = self.grad(y)[f]
                    if np.max(np.abs(g)) < 1e-12:
                        break
                    step = np.linalg.solve(self.hess(y)[np.ix_(f, f)], g)
                    t = 1.0
                    base = self(y)
                    while t > 1e-8:
                        z = y.copy()
                        z[f] -= t * step
                        if self(z) <= base:
                            break
                        t /= 2
                    y = z
            if np.all(y >= lo - 1e-12) and np.all(y <= hi + 1e-12):
                v = self(y)
                if best is None or v < best[1]:
                    best = (y, v, combo)
        return best


FTOL = dict(iminuit=5e-4, scipy=2e-5)
BTOL = dict(iminuit=1e-3, scipy=1e-4)


def numbers(res):
    p = res.params
    return [np.array(v, dtype=float, copy=True) for v in (res.fcn_min_val, p.values, p.errors, p.covariance, p.correlation)]


@st.composite
def case(draw):
    c = draw(problem())
    c["mid"] = draw(st.sampled_from(["iminuit", "scipy"]))
    n = c["n"]
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        todo = []
        for _ in range(draw(st.integers(0, 3))):
            k = draw(st.sampled_from(["fix", "fix", "release", "bound", "bound", "unbound"]))
            i = draw(st.integers(0, n - 1))
            if k == "bound":
                lo, hi = draw(st.sampled_from([[-3, 3], [0.5, 3], [-3, -0.5], [None, 2.5], [-2.5, None], [None, -0.5], [0.7, None], ["zero", 3], [-3, "zero"], ["zero", None], [None, "zero"]]))
                todo.append([k, i, lo, hi])
            else:
                todo.append([k, i])
        ops.append(dict(todo=todo, start=draw(fixed_list(st.floats(-3, 3), n)), hesse=draw(st.booleans()), loose=draw(st.booleans())))
    c["ops"] = ops
    c["by"] = draw(st.sampled_from(["name", "index"]))
    return c


def check(c, ctx):
    P = Problem(c)
    n, mid = c["n"], c["mid"]
    if np.linalg.cond(P.B * np.array(c["scale"])[None, :]) > 12:
        ctx.label("ill-conditioned")
        return
    sig = np.sqrt(np.diag(np.linalg.inv(P.H)))
    names = ["p%d" % i for i in range(n)]
    mi = minimizer_factory(mid, P, list(names))
    pid = (lambda i: names[i]) if c["by"] == "name" else (lambda i: i)
    fixed, bounds = set(), {}
    results = []
    for j, op in enumerate(c["ops"]):
        for t in op["todo"]:
            if t[0] == "fix":
                mi.set_param_fixed(pid(t[1]))
                fixed.add(t[1])
            elif t[0] == "release":
                mi.release_params()
                fixed = set()
            elif t[0] == "bound":
                if "zero" in t[2:]:  # a bound at exactly zero
                    z = t[2:].index("zero")
                    o = None if t[3 - z] is None else max(P.mu[t[1]], 0.0) + 3 * sig[t[1]] if z == 0 else min(P.mu[t[1]], 0.0) - 3 * sig[t[1]]
                    b = (0.0, o) if z == 0 else (o, 0.0)
                else:
                    b = tuple(None if v is None else float(P.mu[t[1]] + v * sig[t[1]]) for v in t[2:])
                mi.set_param_bounds(pid(t[1]), b)
                bounds[t[1]] = b
            else:
                mi.set_param_bounds(pid(t[1]), (None, None))
                bounds.pop(t[1], None)
        x0 = P.mu + np.array(op["start"]) * sig * (1 if c["kind"] == "quad" else 0.5)
        # a start lies strictly inside the bounds
        for i, (lo, hi) in bounds.items():
            if i in fixed and op.get("loose"):  # a fixed parameter keeps its value wherever it is
                continue
            w = sig[i] * 0.4
            if lo is not None:
                x0[i] = max(x0[i], lo + w)
            if hi is not None:
                x0[i] = min(x0[i], hi - w)
        keep = x0.copy()
        what = "%s minimisation %d of %s (fixed %s, bounds %s)" % (mid, j, c["kind"], sorted(fixed), bounds)
        # steep walls far from the minimum are not what the minimizers are asked to handle
        try:
            res = mi.minimize(x0, verbose=0 if mid == "iminuit" else False, get_hesse=op["hesse"])
        except RuntimeError as e:
            ensure(c["kind"] != "quad" or bool(bounds), "%s from %s failed: %s", what, keep, e)
            ctx.label("failed " + mid + " " + c["kind"] + (" bounds" if bounds else ""))
            return
        same("start vector after the call", x0, keep)
        if not res.succes:
            ensure(c["kind"] != "quad" or bool(bounds), "%s from %s was not successful", what, keep)
            ctx.label("unsuccessful " + mid + " " + c["kind"] + (" bounds" if bounds else ""))
            return
        for k, (old, kept) in enumerate(results):
            for lab, a, b in zip(("minimum", "values", "errors", "covariance", "correlation"), numbers(old), kept):
                same("%s of minimisation %d after minimisation %d" % (lab, k, j), a, b)
        results.append((res, numbers(res)))
        x = np.array(res.params.values, dtype=float)
        limits = {i: b for i, b in bounds.items() if i not in fixed}
        best, fbest, combo = P.solve(keep, fixed, limits)
        if any(k == "free" and abs(P.grad(best)[i]) * sig[i] > 1e-6 for i, k in enumerate(combo)):
            # far away from the minimum (fixed or bounded parameters) the Newton steps of the reference need not converge
            ctx.label("no-reference " + c["kind"])
            return
        active = [i for i, k in enumerate(combo) if k in ("lo", "hi")]
        tol = BTOL[mid] if active else FTOL[mid]
        close(what + ": value of the objective", res.fcn_min_val, P(x), rtol=1e-10, atol=1e-10)
        equal(what + ": fcn_min_val", float(mi.fcn_min_val), float(res.fcn_min_val))
        same(what + ": param_values", np.array(mi.param_values), x)
        ensure(res.fcn_min_val <= fbest + tol, "%s: minimum %r at %s instead of %r at %s", what, res.fcn_min_val, x, fbest, best)
        ensure(res.fcn_min_val >= fbest - 1e-6 * (1 + abs(fbest)), "%s: minimum %r at %s below the true minimum %r at %s", what, res.fcn_min_val, x, fbest, best)
        ensure(np.all(np.abs(x - best) <= 2.5 * np.sqrt(2 * tol) * sig), "%s: position %s instead of %s", what, x, best)
        for i in fixed:
            ensure(abs(x[i] - keep[i]) <= 1e-9 * (abs(keep[i]) + sig[i]), "%s: fixed parameter %d moved from %r to %r", what, i, keep[i], x[i])
        for i, (lo, hi) in bounds.items():
            if i in fixed:
                continue
            ensure((lo is None or x[i] >= lo - 1e-8 * sig[i]) and (hi is None or x[i] <= hi + 1e-8 * sig[i]), "%s: parameter %d = %r", what, i, x[i])
            if combo[i] in ("lo", "hi") and abs(P.grad(best)[i]) * sig[i] > 0.2:
                b = lo if combo[i] == "lo" else hi
                ensure(abs(x[i] - b) <= 0.06 * sig[i], "%s: parameter %d = %r is not on its boundary", what, i, x[i])
        free = [i for i in range(n) if i not in fixed]
        if mid == "scipy" and not op["hesse"] and np.any(res.params.covariance):
            # uncertainties which were not asked for are still not those of an earlier minimum
            f = [i for i in range(n) if i not in fixed]
            want = np.zeros((n, n))
            want[np.ix_(f, f)] = np.linalg.inv(P.hess(x)[np.ix_(f, f)])
            close(what + ": covariance", np.array(res.params.covariance) / np.outer(sig, sig), want / np.outer(sig, sig), rtol=0, atol=1e-5 * np.max(want / np.outer(sig, sig)))
        if (op["hesse"] or mid == "iminuit") and not (limits and (active or mid == "iminuit" and any(b is not None and abs(x[i] - b) < 0.2 * sig[i] for i in limits for b in limits[i]))) and free and (mid == "scipy" or c["kind"] == "quad"):
            cov = np.array(res.params.covariance, dtype=float)
            want = np.zeros((n, n))
            want[np.ix_(free, free)] = np.linalg.inv(P.hess(x)[np.ix_(free, free)])
            rt = 1e-5 if mid == "scipy" else 0.02 if op["hesse"] else None
            if rt is not None:
                close(what + ": covariance", cov / np.outer(sig, sig), want / np.outer(sig, sig), rtol=0, atol=rt * np.max(want / np.outer(sig, sig)))
                corr = np.array(res.params.correlation, dtype=float)
                d = np.sqrt(np.diag(cov))
                ix = np.ix_(free, free)
                close(what + ": correlation", corr[ix], cov[ix] / np.outer(d[free], d[free]), rtol=1e-8, atol=1e-10)
                for i in fixed:
                    rest = [k for k in range(n) if k != i]
                    ensure(not np.any(corr[i, rest]) and not np.any(corr[rest, i]), "%s: correlations with the fixed parameter %d: %s", what, i, corr)
                err = np.array(res.params.errors, dtype=float)
                close(what + ": errors", err[free], np.sqrt(np.diag(want))[free], rtol=rt if mid == "scipy" else 0.02)
        ctx.label(mid, c["kind"], "active" if active else "inactive", "fixed-%d" % len(fixed), "bounds-%d" % len(bounds), "step-%d" % j)
        ctx.hit(n > 1 and np.max(np.abs(keep - best) / sig) > 1)


# ------------------------------------------------------------------ additional arguments (scipy)
@st.composite
def args_case(draw):
    c = draw(problem(3))
    c["args"] = draw(st.lists(st.lists(st.floats(-3, 3), min_size=c["n"], max_size=c["n"]), min_size=1, max_size=3))
    c["w"] = draw(st.floats(0.5, 3))
    c["start"] = draw(fixed_list(st.floats(-3, 3), c["n"]))
    c["fix"] = draw(st.one_of(st.none(), st.integers(0, c["n"] - 1)))
    c["kind"] = "quad"
    return c


def check_args(c, ctx):
    P = Problem(c)
    n = c["n"]
    if np.linalg.cond(P.B * np.array(c["scale"])[None, :]) > 12:
        ctx.label("ill-conditioned")
        return
    sig = np.sqrt(np.diag(np.linalg.inv(P.H)))

    def f(x, shift, weight):
        return weight * P(np.asarray(x) - shift)

    mi = minimizer_factory("scipy", f, ["p%d" % i for i in range(n)])
    fixed = set()
    if c["fix"] is not None:
        mi.set_param_fixed(c["fix"])
        fixed.add(c["fix"])
    for k, s in enumerate(c["args"]):
        shift = np.array(s) * sig
        x0 = P.mu + np.array(c["start"]) * sig
        res = mi.minimize(x0.copy(), additional_args=(shift, c["w"]))
        y, fy, _ = P.solve(x0 - shift, fixed)
        what = "scipy minimisation %d with arguments" % k
        x = np.array(res.params.values)
        ensure(abs(res.fcn_min_val - c["w"] * fy) < 1e-4, "%s: minimum %r instead of %r", what, res.fcn_min_val, c["w"] * fy)
        close(what + ": position", (x - y - shift) / sig, np.zeros(n), rtol=0, atol=0.03)
        free = [i for i in range(n) if i not in fixed]
        if free:
            want = np.zeros((n, n))
            want[np.ix_(free, free)] = np.linalg.inv(P.H[np.ix_(free, free)]) / c["w"]
            close(what + ": covariance", np.array(res.params.covariance) / np.outer(sig, sig), want / np.outer(sig, sig), rtol=0, atol=1e-5 * np.max(want / np.outer(sig, sig)))
    ctx.hit(n > 1 and len(c["args"]) > 1)
    ctx.label("n-%d" % n, "fixed" if fixed else "free")


# ------------------------------------------------------------------ many parameters and unusual units
@st.composite
def large_case(draw):
    n = draw(st.sampled_from([6, 9, 12, 2, 3]))
    pick = draw(st.permutations(range(n)))
    return dict(n=n, a=[float(v) for v in draw(fixed_list(st.integers(-8, 8), 3 * n))], mid=draw(st.sampled_from(["iminuit", "scipy"])),
                unit=draw(st.sampled_from([1.0, 1.0, 1e-4, 1e-2, 100.0])), mu=draw(fixed_list(st.floats(-5, 5), n)),
                start=draw(fixed_list(st.floats(-3, 3), n)), fixed=sorted(pick[:draw(st.integers(0, n - 1))]),
                by=draw(st.sampled_from(["name", "index"])), again=draw(st.booleans()))


def check_large(c, ctx):
    """Quadratic functions of up to twelve parameters of any unit, most of which may be fixed."""
    n, mid, u = c["n"], c["mid"], c["unit"]
    V = np.array(c["a"]).reshape(n, 3) / 8
    H = (np.eye(n) + V @ V.T) / u ** 2
    mu = np.array(c["mu"]) * u
    names = ["a%d" % i for i in range(n)]
    mi = minimizer_factory(mid, lambda x: float(0.5 * (np.asarray(x) - mu) @ H @ (np.asarray(x) - mu)), list(names))
    fixed = list(c["fixed"])
    for i in fixed:
        mi.set_param_fixed(names[i] if c["by"] == "name" else i)
    sig = np.sqrt(np.diag(np.linalg.inv(H)))
    for k in range(2 if c["again"] else 1):
        x0 = mu + (np.array(c["start"]) if k == 0 else -np.array(c["start"])[::-1]) * sig
        keep = x0.copy()
        what = "%s minimisation %d of %d parameters (fixed %s, unit %g)" % (mid, k, n, fixed, u)
        res = mi.minimize(x0, verbose=0 if mid == "iminuit" else False)
        ensure(res.succes, "%s was not successful", what)
        same("start vector after the call", x0, keep)
        free = [i for i in range(n) if i not in fixed]
        best = keep.copy()
        cov = np.zeros((n, n))
        if free:
            hf = H[np.ix_(free, free)]
            best[free] = mu[free] - np.linalg.solve(hf, H[np.ix_(free, fixed)] @ (keep - mu)[fixed]) if fixed else mu[free]
            cov[np.ix_(free, free)] = np.linalg.inv(hf)
        fbest = 0.5 * (best - mu) @ H @ (best - mu)
        x = np.array(res.params.values, dtype=float)
        ensure(abs(res.fcn_min_val - fbest) <= FTOL[mid] * max(1, 0.1 * n), "%s: minimum %r instead of %r", what, res.fcn_min_val, fbest)
        close(what + ": position", (x - best) / sig, np.zeros(n), rtol=0, atol=3 * np.sqrt(2 * FTOL[mid] * max(1, 0.1 * n)))
        close(what + ": fixed parameters", x[fixed] / u, keep[fixed] / u, rtol=1e-9, atol=1e-9)
        if free:
            s2 = np.outer(sig, sig)
            close(what + ": covariance", np.array(res.params.covariance) / s2, cov / s2, rtol=0, atol=1e-4 if mid == "scipy" else 0.02)
            close(what + ": errors", np.array(res.params.errors)[free] / sig[free], np.sqrt(np.diag(cov))[free] / sig[free], rtol=1e-4 if mid == "scipy" else 0.02)
    ctx.hit(n > 3 and len(fixed) < n - 1)
    ctx.label(mid, "n-%d" % n, "unit-%g" % u, "fixed-many" if len(fixed) > 4 else "fixed-few")


SUBS = [
    Sub("histories", case, check, 1600, 25000, "histories of restrictions and minimisations of functions with known minima",
        corpus=[dict(a=[[1.0, 0.0], [0.0, 0.0]], by="name", c0=0.0, d=[2.0, 1.0], kind="cosh", mid="scipy", mu=[-5.0, 0.0], n=2, scale=[1.0, 1.0],
                     ops=[dict(hesse=False, loose=False, start=[0.0, 0.0], todo=[["bound", 0, "zero", 3]])])]),
    Sub("large", large_case, check_large, 400, 6000, "quadratic functions of many parameters in different units"),
    Sub("arguments", args_case, check_args, 320, 5000, "scipy minimisations with additional arguments"),
]
