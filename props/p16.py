"""P16: a likelihood profile is the conditional minimum along the scanned parameter."""
import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import diff, snapshot
from pbt.core import Sub, close, ensure, equal, same
from pbt.fits import Fast, TOL, build, fit_spec, run_fit, set_start, true_vector

RULE = "non-trivial: a profile whose conditional minima differ from the likelihood with the other parameters kept at the optimum"


@st.composite
def case(draw):
    mid = draw(st.sampled_from(["iminuit", "iminuit", "scipy"]))
    c = draw(fit_spec(max_proc=2, max_ch=1, max_bins=3, dims=(1,)) if mid == "scipy" else fit_spec(max_bins=3, big=True))
    c["mid"] = mid
    c["which"] = draw(st.sampled_from(list(range(20))))
    c["by"] = draw(st.sampled_from(["name", "index"]))
    c["points"] = draw(st.sampled_from([5, 3, 4, 7, 2]))
    c["sigma"] = draw(st.one_of(st.just(None), st.sampled_from([1.0, 2.0, 3.0]), st.floats(0.2, 3)))
    c["cpu"] = draw(st.sampled_from([1, 2, 3]))
    c["sub"] = draw(st.sampled_from([None, True, False]))
    c["fix"] = draw(st.one_of(st.just([]), st.lists(st.integers(0, 40), max_size=2)))
    c["nui"] = draw(st.sampled_from([None, None, "arg", "method"]))
    c["bound"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 40), st.floats(-1.5, -0.05), st.floats(0.05, 1.5)).map(list)))
    # bounds of the scanned parameter, in units of its uncertainty: the scan may reach beyond them
    c["own"] = draw(st.tuples(st.floats(0.3, 2.5), st.floats(0.3, 2.5), st.sampled_from(["both", "both", "lo", "hi"])).map(list)) if draw(st.integers(0, 3)) == 0 else None
    c["after"] = draw(st.booleans())
    c["same_id"] = draw(st.booleans())
    # a second scan by the same fitter
    c["again"] = draw(st.integers(0, 2)) == 0
    # scans that reach negative yields, far enough that there are points without a minimum
    c["wide"] = draw(st.booleans())
    # (then down to minus so many times the fitted yield)
    c["reach"] = draw(st.sampled_from([0.3, 1.0, 2.0, 4.0])) if c["nui"] and draw(st.integers(0, 2)) == 0 else None
    if len(c["truth"]) > 1 and draw(st.integers(0, 3)) == 0:
        i, f = draw(st.integers(0, len(c["truth"]) - 1)), draw(st.floats(0.03, 0.2))
        c["truth"][i] *= f
        c["model"]["constr"] = [k for k in c["model"]["constr"] if k[0] != c["model"]["procs"][i]]
        if draw(st.booleans()):
            c["which"] = i
    return c


def conditional(F, best, k, p, fix, np_, bounds):
    """The minimum with parameter k at p and fixed nuisance parameters; infinite if nothing is allowed."""
    s = best.copy()
    s[k] = p
    other = [i for i in range(np_) if i != k and i not in fix]
    for f in [1.0, 1.5, 2.5, 5.0, 20.0, 100.0]:
        t = s.copy()
        t[other] *= f
        if np.isfinite(F.f(t)):
            return F.minimize(t, fix | {k}, bounds)[1]
        if not other:
            break
    return np.inf if not other else -np.inf


def check(c, ctx):
    pr = build(c)
    m, r = pr.m, pr.r
    mid = c["mid"]
    F = Fast(r)
    names = list(m.create_nll().param_names)
    np_ = len(r.processes)
    k = c["which"] % (np_ if c["nui"] else r.npar)
    fix = {i % r.npar for i in c["fix"]} - {k}
    if c["nui"]:
        fix |= set(range(np_, r.npar))
    bounds = {}
    if mid == "scipy" and r.npar - len(fix) > 8:
        ctx.label("too-large")
        return
    fitter = tf.TemplateFitter(m, mid)
    for j, i in enumerate(sorted({i % r.npar for i in c["fix"]} - {k})):
        fitter.set_parameter_fixed(names[i] if j % 2 else i)
    if c["bound"] is not None:
        i = np_ + c["bound"][0] % (r.npar - np_)
        if i != k and i not in fix and i >= np_:
            bounds[i] = (c["bound"][1], c["bound"][2])
            fitter.set_parameter_bounds(names[i], bounds[i])
    if c["nui"] == "method":
        fitter.fix_nui_params()
    x0 = r.x0()
    for i, (lo, hi) in bounds.items():
        x0[i] = np.clip(x0[i], 0.8 * lo, 0.8 * hi)
    own = c.get("own")
    if own is not None:
        b, _ = F.minimize(x0, fix, bounds)
        e = np.sqrt(F.cov(b, [i for i in range(r.npar) if i not in fix])[k, k])
        lo, hi = float(b[k] - own[0] * e), float(b[k] + own[1] * e)
        bounds[k] = (None if own[2] == "hi" else lo, None if own[2] == "lo" else hi)
        fitter.set_parameter_bounds(k if (c["by"] == "name") != bool(c.get("same_id")) else names[k], bounds[k])
        x0[k] = np.clip(x0[k], lo + 0.15 * (hi - lo), hi - 0.15 * (hi - lo))
    set_start(pr, x0)
    if c["after"]:
        # the usual order: a fit first, which also moves the start values
        try:
            res = fitter.do_fit(verbose=0 if mid == "iminuit" else False, get_hesse=False, fix_nui_params=c["nui"] is not None)
        except RuntimeError:
            ctx.label("failed")
            return
        if not res.succes:
            ctx.label("failed")
            return
        # a fit starts from the sum of the template yields, which are scaled by the efficiencies
        v = np.array(res.params.values)
        for i in fix:
            v[i] = x0[i]
        x0 = v
        set_start(pr, x0)
    x0 = np.array(m.create_nll().x0)
    best, fbest = min((F.minimize(s, fix, bounds) for s in (x0, np.where([i in fix for i in range(r.npar)], x0, true_vector(pr, c)))), key=lambda t: t[1])
    free = [i for i in range(r.npar) if i not in fix]
    active = any(b is not None and abs(best[i] - b) < 0.05 * (1 if i >= np_ else abs(best[i])) for i in bounds if i != k for b in bounds[i])
    err = np.sqrt(F.cov(best, free)[k, k]) if not active else None
    sigma = 2.0 if c["sigma"] is None else c["sigma"]
    kw = dict(num_cpu=c["cpu"], num_points=c["points"])
    if k < np_:
        e = err if err is not None else np.sqrt(F.cov(best)[k, k]) * 1.3
        lim = 0.8 * best[k] / e
        if lim < 0.1:
            ctx.label("no-yield")
            return
        if c.get("reach") and err is not None:
            c["sigma"] = sigma = float((1 + c["reach"]) * best[k] / e)
        elif lim < sigma and not c.get("wide"):
            sigma = float(lim)
            c["sigma"] = sigma
    if c["sigma"] is not None:
        kw["sigma"] = sigma
    if c["sub"] is not None:
        kw["subtract_min"] = c["sub"]
    if c["nui"] == "arg":
        kw["fix_nui_params"] = True
    # the property is about scans that start from a successful fit
    if run_fit(fitter, mid, update_templates=False, get_hesse=False, fix_nui_params=c["nui"] is not None) is None:
        ctx.label("failed")
        return
    before = snapshot(m)
    try:
        pts, val, hes = fitter.profile(names[k] if c["by"] == "name" else k, **kw)
    except RuntimeError:
        # the nominal minimisation failed
        ctx.label("failed " + mid)
        return
    what = "%s profile of %s (fixed %s, bounds %s)" % (mid, names[k], sorted(fix), bounds)
    d = diff(before, snapshot(m))
    ensure(d is None, "%s changed the model: %s", what, d)
    n = c["points"]
    for lab, a in (("points", pts), ("values", val), ("parabola", hes)):
        ensure(np.shape(a) == (n,), "%s: %s have shape %s", what, lab, np.shape(a))
    pts, val, hes = (np.array(a, dtype=float) for a in (pts, val, hes))
    step = np.diff(pts)
    half = (pts[-1] - pts[0]) / 2
    mid_ = (pts[0] + pts[-1]) / 2
    ensure(half > 0, "%s: points %s", what, pts)
    close(what + ": spacing", step, np.full(n - 1, 2 * half / (n - 1)), rtol=1e-6, atol=1e-9 * abs(mid_))
    if not active:
        close(what + ": covered range", half, sigma * err, rtol=0.03)
        ensure(abs(mid_ - best[k]) < 0.1 * err, "%s: centred at %r, the optimum is %r +- %r", what, mid_, best[k], err)
    herr = half / sigma
    sub = c["sub"] is None or c["sub"]
    off = fbest if sub else 0.0
    tol = (5e-3 if bounds else TOL[mid]) * (2 if sub else 1)
    base = 0.0 if sub else fbest
    close(what + ": parabola", hes, 0.5 * ((pts - mid_) / herr) ** 2 + base, rtol=1e-6, atol=1e-7 + (0 if sub else tol) + 1e-9 * abs(fbest))
    nan = 0
    want = np.zeros(n)
    stiff = np.zeros(n)
    for j, p in enumerate(pts):
        if k < np_ and p < 0.15 * best[k]:
            # a scan that reaches small or negative yields: the minimisation may fail, but what it returns is not below the
            # conditional minimum, which is unique for fixed nuisance parameters
            want[j] = stiff[j] = np.nan
            ctx.label("small-yield-points")
            if fix >= set(range(np_, r.npar)) and np.isfinite(val[j]):
                low = conditional(F, best, k, p, fix, np_, bounds) - off
                ensure(val[j] >= low - tol * (1 + 1e-3 * abs(low)) if np.isfinite(low) else False,
                       "%s: value %r at %r, the conditional minimum is %r", what, val[j], p, low)
                ctx.label("small-yield-values")
            elif fix >= set(range(np_, r.npar)):
                ctx.label("small-yield-nan")
            continue
        s = best.copy()
        s[k] = p
        want[j] = F.minimize(s, fix | {k}, bounds)[1] - off
        stiff[j] = F.f(s) - off
        if not np.isfinite(val[j]):
            nan += 1
            continue
        far = tol * (1 + 1e-3 * abs(want[j] + off - fbest))
        ensure(val[j] <= want[j] + far, "%s: value %r at %r, the conditional minimum is %r", what, val[j], p, want[j])
        ensure(val[j] >= want[j] - far, "%s: value %r at %r below the conditional minimum %r", what, val[j], p, want[j])
    if c.get("again"):
        try:
            pts2, val2, hes2 = (np.array(a, dtype=float) for a in fitter.profile(names[k] if c["by"] == "name" else k, **kw))
        except RuntimeError:
            pts2 = None
        if pts2 is not None:
            close(what + ": points of a second scan", pts2, pts, rtol=0, atol=0.05 * herr * max(sigma, 1))
            both = np.isfinite(val) & np.isfinite(val2) & np.isfinite(want)
            # the points may differ by the precision of the minimum and its error
            slope = np.abs(pts2 - pts) / herr * (np.abs(pts - mid_) / herr + 1) * 5
            close(what + ": values of a second scan", val2[both], val[both], rtol=0, atol=(2 * tol + slope)[both])
            ctx.label("second-scan")
    ensure(nan <= n // 2, "%s: values %s", what, val)
    ok = np.isfinite(val) & np.isfinite(want)
    ensure(np.all(val[ok] >= base - tol), "%s: values %s below the minimum %r", what, val, base)
    ctx.hit(np.max((stiff - want)[ok], initial=0) > 5 * tol)
    ctx.label(mid, "cpu-%d" % c["cpu"], "yield" if k < np_ else "nuisance", "nan" if nan else "no-nan", "nui-%s" % c["nui"],
              "bounds" if bounds else "no-bounds", "fixed" if fix else "none-fixed", "active" if active else "inactive",
              "own-bounds-%s" % (own[2] if own is not None else None), "fitted-before" if c["after"] else "no-fit-before")


SUBS = [
    Sub("profiles", case, check, 200, 5000, "profile scans of generated models against independent conditional minimisation at every point"),
]
