"""P15: fit uncertainties are the inverse curvature of the likelihood."""
import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from templatefitter.minimizer import minimizer_factory
from pbt.core import Sub, close, ensure, equal, same
from pbt.fits import Fast, build, fit_spec, run_fit, set_start, true_vector

RULE = "non-trivial: a successful fit with at least two free parameters that are correlated"
# relative accuracy of the numerical second derivatives, in units of the errors
ETOL = dict(iminuit=0.02, scipy=1e-4)


@st.composite
def case(draw, small=False):
    c = draw(fit_spec(max_proc=2, max_ch=1, max_bins=3, dims=(1,)) if small else fit_spec(units=True, big=True))
    c["mid"] = "scipy" if small else draw(st.sampled_from(["iminuit", "iminuit", "IMINUIT"]))
    c["fix"] = draw(st.lists(st.integers(0, 60), max_size=3))
    c["by"] = draw(st.sampled_from(["name", "index"]))
    c["nui"] = draw(st.sampled_from([None, None, "arg", "method"]))
    if draw(st.booleans()):
        c["start"]["t"] = [0.0]
    # bounds which the minimum satisfies, in units of the uncertainties
    c["bounds"] = draw(st.lists(st.tuples(st.integers(0, 60), st.floats(0.25, 4), st.floats(0.25, 4), st.sampled_from(["both", "both", "lo", "hi"])).map(list),
                                max_size=3)) if draw(st.integers(0, 2)) == 0 else []
    return c


def check(c, ctx):
    pr = build(c)
    m, r = pr.m, pr.r
    mid = c["mid"].lower()
    F = Fast(r)
    nll = m.create_nll()
    names = list(nll.param_names)
    np_ = len(r.processes)
    fitter = tf.TemplateFitter(m, c["mid"])
    fix = sorted({i % r.npar for i in c["fix"]})
    for i in fix:
        fitter.set_parameter_fixed(names[i] if c["by"] == "name" else i)
    kw = {}
    if c["nui"] == "arg":
        kw["fix_nui_params"] = True
    elif c["nui"] == "method":
        fitter.fix_nui_params()
    if c["nui"]:
        fix = sorted(set(fix) | set(range(np_, r.npar)))
    free = [i for i in range(r.npar) if i not in fix]
    if mid == "scipy" and len(free) > 7:
        ctx.label("too-large")
        return
    bounds = {}
    if c.get("bounds") and free:
        x0 = np.array(nll.x0)
        best, _ = F.minimize(x0, fix)
        sig = np.sqrt(np.diag(F.cov(best, free)))
        for i, a, b, sh in c["bounds"]:
            i = free[i % len(free)]
            bounds[i] = (None if sh == "hi" else float(best[i] - a * sig[i]), None if sh == "lo" else float(best[i] + b * sig[i]))
            x0[i] = np.clip(x0[i], best[i] - 0.8 * a * sig[i], best[i] + 0.8 * b * sig[i])
            fitter.set_parameter_bounds(names[i] if c["by"] == "index" else i, bounds[i])
        set_start(pr, x0)
    res = run_fit(fitter, mid, **kw)
    if res is None:
        ctx.label("unsuccessful " + mid)
        return
    if any(b is not None and abs(res.params.values[i] - b) < 0.2 * sig[i] for i in bounds for b in bounds[i]):
        ctx.label("active")
        return
    verify("%s (fixed %s, bounds %s)" % (mid, fix, bounds), res, r, F, names, fix, mid, ctx)
    ctx.label("bounds-%d" % len(bounds))
    ctx.label("success " + mid, "fixed-%d" % min(len(fix), 3), "free-%d" % min(len(free), 9))


def verify(what, res, r, F, names, fix, mid, ctx):
    """The uncertainties of a fit against the curvature of the reference likelihood."""
    free = [i for i in range(r.npar) if i not in fix]
    p = res.params
    x = np.array(p.values, dtype=float)
    cov, err, corr = (np.array(a, dtype=float) for a in (p.covariance, p.errors, p.correlation))
    n = r.npar
    equal("names", list(p.names), names)
    for lab, a, sh in (("covariance", cov, (n, n)), ("errors", err, (n,)), ("correlation", corr, (n, n))):
        ensure(a.shape == sh and np.all(np.isfinite(a)), "%s: %s of shape %s: %s", what, lab, a.shape, a)
    # fixed parameters
    for i in fix:
        ensure(np.all(cov[i] == 0) and np.all(cov[:, i] == 0), "%s: covariance of the fixed parameter %s is not zero: %s", what, names[i], cov[i])
    if free:
        # the curvature at the reported minimum
        want = F.cov(x, free)
        we = np.sqrt(np.diag(want))
        s = np.outer(we, we)
        s[s == 0] = 1
        close(what + ": covariance (in units of the errors)", cov / s, want / s, rtol=0, atol=ETOL[mid])
    close(what + ": symmetry", cov, cov.T, rtol=1e-9, atol=1e-12 * np.abs(cov).max(initial=0))
    d = np.sqrt(np.diag(cov))
    close(what + ": errors of free parameters", err[free], d[free], rtol=ETOL[mid] if mid == "iminuit" else 1e-9)
    for i in fix:
        ensure(err[i] == 0, "%s: error of the fixed parameter %s is %r", what, names[i], err[i])
    if free:
        ix = np.ix_(free, free)
        for i in fix:
            ensure(not np.any(corr[i, free]) and not np.any(corr[free, i]), "%s: correlation of the fixed parameter %s is not zero: %s", what, names[i], corr)
        close(what + ": correlation", corr[ix], cov[ix] / np.outer(d[free], d[free]), rtol=1e-8, atol=1e-10)
    # access by name, index and array
    for i, nm in enumerate(names):
        for key in (nm, i):
            got = p[key]
            equal("%s: params[%r]" % (what, key), tuple(got), (p.values[i], p.errors[i]))
            equal("%s: value of %r" % (what, key), p.get_param_value(key), p.values[i])
            equal("%s: error of %r" % (what, key), p.get_param_error(key), p.errors[i])
    if len(free) > 1:
        o = np.abs(want / s)[np.ix_(free, free)]
        ctx.hit(np.max(o - np.diag(np.diag(o))) > 0.02)


@st.composite
def reuse(draw):
    c = draw(fit_spec(max_proc=2, max_ch=1, max_bins=3, dims=(1,), syst=False))
    c["mid"] = draw(st.sampled_from(["scipy", "iminuit"]))
    c["fix"] = draw(st.lists(st.lists(st.integers(0, 60), max_size=2), min_size=2, max_size=3))
    c["release"] = draw(st.lists(st.booleans(), min_size=2, max_size=2))
    return c


def check_reuse(c, ctx):
    """One minimizer used several times with different fixed parameters."""
    pr = build(c)
    r, mid = pr.r, c["mid"]
    F = Fast(r)
    nll = pr.m.create_nll()
    names = list(nll.param_names)
    if mid == "scipy" and r.npar > 7:
        ctx.label("too-large")
        return
    mi = minimizer_factory(mid, nll, names)
    fix, done = set(), []
    for k, f in enumerate(c["fix"]):
        if k and c["release"][k - 1]:
            mi.release_params()
            fix = set()
        for i in f:
            mi.set_param_fixed(i % r.npar)
            fix.add(i % r.npar)
        try:
            res = mi.minimize(r.x0(), verbose=0 if mid == "iminuit" else False)
        except RuntimeError:
            res = None
        if res is None or not res.succes:
            ctx.label("unsuccessful " + mid)
            return
        verify("%s minimisation %d (fixed %s)" % (mid, k, sorted(fix)), res, r, F, names, sorted(fix), mid, ctx)
        done.append(len(fix))
    ctx.label("reuse " + mid, "fixed " + "-".join(map(str, done)))


SUBS = [
    Sub("iminuit", case, check, 240, 8000, "covariances of iminuit fits against the inverse of the independently differentiated likelihood"),
    Sub("scipy", lambda: case(small=True), check, 160, 5000, "covariances of scipy fits against the inverse of the independently differentiated likelihood"),
    Sub("reuse", reuse, check_reuse, 120, 4000, "one minimizer used for several minimisations with different fixed parameters"),
]
