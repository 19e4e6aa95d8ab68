"""P21: fit parameters are addressed consistently by name and index."""
import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, close, ensure, equal, raises, same
from pbt.gens import fixed_list, fl

from templatefitter.minimizer import IMinuitMinimizer, Parameters, ScipyMinimizer, minimizer_factory
from templatefitter.utility import id_to_index

RULE = "non-trivial: at least two parameters and at least three operations that store or reject something"

POOL = ["sig_yield", "bkg_yield", "c_sig_bin_0", "c_sig_bin_1", "c_sig_bin_10", "a", "A", "b", "0", "1", "x y", "yield", "sig", "é", "_", "-1"]
OTHER = ["nope", "", "Sig_yield", "sig_yield ", "2", "None", "c_sig_bin_", "aa"]


def near(names):
    """Identifiers which are similar to the names of the parameters."""
    return sorted({o for s in names for o in (s[:-1], s[1:], s[: len(s) // 2], s + "_", "_" + s, s.swapcase(), s + " ", s + s, s.replace("_", "-"))})


def vec(n):
    return fixed_list(fl(-1e3, 1e3), n)


@st.composite
def case(draw):
    n = draw(st.sampled_from([3, 2, 4, 1, 6]))
    names = draw(st.permutations(POOL))[:n]
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["values", "errors", "cov", "corr", "bad-values", "bad-errors", "bad-id", "read"]))
        if k in ("values", "errors"):
            ops.append([k, draw(vec(n))])
        elif k in ("cov", "corr"):
            ops.append([k, draw(fixed_list(vec(n), n))])
        elif k.startswith("bad-") and k != "bad-id":
            m = draw(st.sampled_from([i for i in (0, 1, n - 1, n + 1, 2 * n) if i != n]))
            ops.append([k, draw(vec(m))])
        elif k == "bad-id":
            ops.append([k, draw(st.one_of(st.sampled_from([o for o in OTHER + near(names) if o not in names]), st.sampled_from([o for o in near(names) + OTHER if o not in names]), st.integers(n, n + 3), st.integers(-n - 3, -1),
                                          st.floats(0, n - 1), st.none(), st.lists(st.integers(0, 1), max_size=2)))])
        else:
            ops.append([k, None])
    return dict(names=names, ops=ops, form=draw(st.sampled_from(["array", "list", "tuple"])))


def container(v, form):
    return np.array(v, dtype=float) if form == "array" else list(v) if form == "list" else tuple(v)


def compare(p, names, vals, errs, cov, corr, after):
    n = len(names)
    equal("names " + after, list(p.names), list(names))
    equal("number " + after, p.num_params, n)
    same("values " + after, np.array(p.values, dtype=float), vals)
    same("errors " + after, np.array(p.errors, dtype=float), errs)
    same("covariance " + after, np.array(p.covariance, dtype=float), cov)
    same("correlation " + after, np.array(p.correlation, dtype=float), corr)
    for i, nm in enumerate(names):
        for key in (nm, i):
            equal("index of %r %s" % (key, after), p.param_id_to_index(key), i)
            equal("entry %r %s" % (key, after), tuple(float(v) for v in p[key]), (vals[i], errs[i]))
            equal("value of %r %s" % (key, after), float(p.get_param_value(key)), vals[i])
            equal("error of %r %s" % (key, after), float(p.get_param_error(key)), errs[i])
            equal("id_to_index of %r" % (key,), id_to_index(names, key), i)


def check(c, ctx):
    names = list(c["names"])
    n = len(names)
    p = Parameters(list(names))
    vals, errs, cov, corr = np.zeros(n), np.zeros(n), np.zeros((n, n)), np.zeros((n, n))
    compare(p, names, vals, errs, cov, corr, "initially")
    done = 0
    for i, (k, v) in enumerate(c["ops"]):
        what = "after operation %d (%s)" % (i, k)
        if k == "values":
            p.values = container(v, c["form"])
            vals = np.array(v)
        elif k == "errors":
            p.errors = container(v, c["form"])
            errs = np.array(v)
        elif k == "cov":
            p.covariance = np.array(v, dtype=float)
            cov = np.array(v)
        elif k == "corr":
            p.correlation = np.array(v, dtype=float)
            corr = np.array(v)
        elif k == "bad-values":
            def f():
                p.values = container(v, c["form"])
            raises("%d values for %d parameters" % (len(v), n), f)
        elif k == "bad-errors":
            def f():
                p.errors = container(v, c["form"])
            raises("%d errors for %d parameters" % (len(v), n), f)
        elif k == "bad-id":
            for lab, fn in (("param_id_to_index", p.param_id_to_index), ("get_param_value", p.get_param_value), ("get_param_error", p.get_param_error),
                            ("item access", lambda q: p[q]), ("id_to_index", lambda q: id_to_index(names, q))):
                raises("%s of %r among %s" % (lab, v, names), lambda: fn(v))
            for name in ("scipy", "iminuit"):
                mi = minimizer_factory(name, lambda x: 0.0, list(names))
                raises("%s: fixing %r among %s" % (name, v, names), lambda: mi.set_param_fixed(v))
                raises("%s: bounds of %r among %s" % (name, v, names), lambda: mi.set_param_bounds(v, (0, 1)))
        else:
            str(p)
            if n > 0:
                ensure(all(nm in str(p) for nm in names), "printed parameters lack a name: %s", str(p))
        done += k != "read"
        compare(p, names, vals, errs, cov, corr, what)
    ctx.hit(n > 1 and done >= 3)
    ctx.label("n-%d" % n, c["form"], *["op-" + k for k, _ in c["ops"]])


# ------------------------------------------------------------------ minimizers
@st.composite
def mini_case(draw):
    n = draw(st.sampled_from([3, 2, 4]))
    names = draw(st.permutations([q for q in POOL if q.isascii()]))[:n]
    mu = draw(fixed_list(st.floats(-4, 4), n))
    return dict(names=names, mu=mu, x0=[m + d for m, d in zip(mu, draw(fixed_list(st.floats(-2, 2), n)))], fix=draw(st.lists(st.integers(0, n - 1), max_size=2)),
                bound=draw(st.one_of(st.none(), st.tuples(st.integers(0, n - 1), st.floats(0.3, 2)).map(list))),
                mix=draw(fixed_list(st.booleans(), 4)), mid=draw(st.sampled_from(["iminuit", "scipy", "Scipy", "IMINUIT", "iMinuit"])),
                bad=draw(st.sampled_from(["", "minuit", "scipy ", "lbfgs", "iminuit2"])))


def run_mini(c, by_name):
    names = list(c["names"])
    n = len(names)
    mu = np.array(c["mu"])
    H = 2 * np.eye(n) + 0.5

    def f(x):
        d = np.asarray(x) - mu
        return float(0.5 * d @ H @ d)

    mi = minimizer_factory(c["mid"], f, names)
    want = IMinuitMinimizer if c["mid"].lower() == "iminuit" else ScipyMinimizer
    ensure(isinstance(mi, want), "minimizer_factory(%r) made a %s", c["mid"], type(mi).__name__)
    equal("names of the minimizer", list(mi.params.names), names)
    pid = lambda i, k: names[i] if by_name[k % len(by_name)] else i
    for k, i in enumerate(c["fix"]):
        mi.set_param_fixed(pid(i, k))
    if c["bound"]:
        i, b = c["bound"]
        mi.set_param_bounds(pid(i, 3), (c["x0"][i] - b, c["x0"][i] + b))
    res = mi.minimize(np.array(c["x0"], dtype=float), verbose=0)
    ensure(res.succes, "%s: minimisation of a quadratic function failed", c["mid"])
    vals, errs = np.array(mi.param_values, dtype=float), np.array(mi.param_errors, dtype=float)
    for i, nm in enumerate(names):
        for key in (nm, i):
            equal("entry %r" % (key,), tuple(float(v) for v in res.params[key]), (vals[i], errs[i]))
            equal("entry %r of the minimizer" % (key,), tuple(float(v) for v in mi.params[key]), (vals[i], errs[i]))
    same("values of the result", np.array(res.params.values), vals)
    same("covariance of the result", np.array(res.params.covariance), np.array(mi.param_covariance))
    same("correlation of the result", np.array(res.params.correlation), np.array(mi.param_correlation))
    equal("minimum of the minimizer", float(mi.fcn_min_val), float(res.fcn_min_val))
    for i in set(c["fix"]):
        close("fixed parameter %s" % names[i], vals[i], c["x0"][i], rtol=1e-9, atol=1e-9)
    free = [i for i in range(n) if i not in c["fix"]]
    if c["bound"] and c["bound"][0] in free:
        i, b = c["bound"]
        ensure(abs(vals[i] - c["x0"][i]) <= b * (1 + 1e-6), "%s=%r outside %r +- %r", names[i], vals[i], c["x0"][i], b)
    if free and not c["bound"]:
        x = np.array(c["x0"], dtype=float)
        r = [i for i in range(n) if i not in free]
        x[free] = mu[free] - np.linalg.solve(H[np.ix_(free, free)], H[np.ix_(free, r)] @ (x[r] - mu[r]))
        close("minimum", vals, x, rtol=0, atol=0.02)
    return vals, errs


def check_mini(c, ctx):
    a = run_mini(c, [True])
    b = run_mini(c, [False])
    m = run_mini(c, c["mix"])
    for lab, o in (("index", b), ("mixed identifiers", m)):
        close("values with restrictions by %s" % lab, o[0], a[0], rtol=1e-9, atol=1e-9)
        close("errors with restrictions by %s" % lab, o[1], a[1], rtol=1e-9, atol=1e-9)
    raises("minimizer %r" % c["bad"], lambda: minimizer_factory(c["bad"], lambda x: 0.0, list(c["names"])))
    ctx.hit(len(c["names"]) > 1 and (c["fix"] or c["bound"]))
    ctx.label(c["mid"].lower(), "fixed" if c["fix"] else "free", "bound" if c["bound"] else "unbound")


SUBS = [
    Sub("container", case, check, 2500, 40000, "operation histories of the parameter container against dictionaries by name and index"),
    Sub("minimizers", mini_case, check_mini, 400, 8000, "minimisers restricted by name, index or both"),
]
