"""P13: a successful fit is at the minimum of the likelihood."""
import json
import os

import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import diff, nll_tol, snapshot
from pbt.core import Sub, close, ensure, equal, same
from pbt import fits
from pbt.fits import TOL, Fast, build, fit_spec, run_fit, set_start, true_vector

RULE = "non-trivial: a successful fit with at least three free parameters that started at least 0.1 standard deviations away from its minimum"
MINI = ("iminuit", "scipy")


@st.composite
def case(draw, exact=False, spread=(0.6, 1.5), **kw):
    c = draw(fit_spec(exact=exact, spread=spread, **dict(dict(big=True), **kw)))
    c["update"] = draw(st.booleans())
    c["hesse"] = draw(st.booleans())
    c["names"] = draw(st.sampled_from([["iminuit", "scipy"], ["scipy", "iminuit"], ["IMinuit", "SciPy"]]))
    if any(u != 1 for u in c["units"]):
        # SLSQP does not rescale the parameters
        c["names"] = ["iminuit"]
    return c


def check_state(pr, res, update, before, what):
    m, r = pr.m, pr.r
    if not update:
        d = diff(before, snapshot(m))
        ensure(d is None, "%s without update changed the model: %s", what, d)
        return
    x = np.array(res.params.values)
    y, nui = r.split(x)
    for cn, ch in r.channels.items():
        for p in ch["t"]:
            close("%s: yield of template %s/%s" % (what, cn, p), m.channels[cn][p].yield_param, y[p] * ch["eff"][p], rtol=1e-10)
            close("%s: nuisance parameters of template %s/%s" % (what, cn, p), m.channels[cn][p].nui_params, nui[cn, p], rtol=1e-10, atol=1e-13)
    after = snapshot(m)
    for cn in r.channels:
        for key in ("eff", "data", "processes", "bins"):
            d = diff(before["ch", cn][key], after["ch", cn][key])
            ensure(d is None, "%s changed %s of %s: %s", what, key, cn, d)


def check(c, ctx, pr=None, x_true=None):
    pr = build(c) if pr is None else pr
    m, r = pr.m, pr.r
    F = Fast(r)
    # fits which cross over to negative yields have a long way through flat valleys
    TOL = fits.TOL if x_true is None else dict(iminuit=0.02, scipy=0.02)
    best, fbest = F.minimize(true_vector(pr, c) if x_true is None else x_true)
    sig = np.sqrt(np.diag(F.cov(best)))
    start = r.x0()
    nll = m.create_nll()
    f0 = nll(start)
    results = {}
    for name in c["names"]:
        mid = name.lower()
        set_start(pr, start)
        before = snapshot(m)
        fitter = tf.TemplateFitter(m, name)
        kw = dict(get_hesse=c["hesse"] and mid == "iminuit" or r.npar <= 6)
        if not c["update"]:
            kw["update_templates"] = False
        res = run_fit(fitter, mid, **kw)
        if res is None:
            ctx.label("unsuccessful " + mid)
            continue
        x = np.array(res.params.values, dtype=float)
        ensure(np.all(np.isfinite(x)) and len(x) == r.npar, "%s: parameters %s", mid, x)
        tol = nll_tol(r, x)
        close("%s: reported minimum against the likelihood of the reported parameters" % mid, res.fcn_min_val, nll(x), rtol=1e-10, atol=1e-8)
        close("%s: reported minimum against the formula" % mid, res.fcn_min_val, r.nll(x), rtol=1e-10, atol=tol)
        ensure(res.fcn_min_val <= f0 + 1e-8, "%s: the minimum %r is above the start value %r", mid, res.fcn_min_val, f0)
        if mid == "scipy" and res.fcn_min_val > fbest + TOL[mid] and (np.min(x[:len(r.processes)]) < 0 or np.max(np.abs(x[len(r.processes):])) > 5):
            # SLSQP went to another local minimum outside of the physical region
            near, fnear = F.minimize(x)
            ctx.label("other-minimum")
            ensure(res.fcn_min_val <= fnear + TOL[mid], "%s: reported minimum %r, but the likelihood is %r at %s nearby (fit: %s)", mid, res.fcn_min_val, fnear, near, x)
            check_state(pr, res, c["update"], before, mid)
            continue
        ensure(res.fcn_min_val <= fbest + TOL[mid], "%s: reported minimum %r, but the likelihood is %r at %s (fit: %s)",
               mid, res.fcn_min_val, fbest, best, x)
        check_state(pr, res, c["update"], before, mid)
        results[mid] = (x, res.fcn_min_val)
        d = np.max(np.abs(start - best) / sig)
        ctx.hit(r.npar >= 3 and d > 0.1)
        ctx.label("successful " + mid)
    if len(results) == 2:
        (a, fa), (b, fb) = results["iminuit"], results["scipy"]
        close("minima of the two minimizers", fa, fb, rtol=0, atol=TOL["iminuit"] + TOL["scipy"])
        ensure(np.all(np.abs(a - b) <= (0.12 if x_true is None else 0.3) * sig + 1e-9), "the minimizers disagree: %s / %s (uncertainties %s)", a, b, sig)
        ctx.label("both")
    ctx.label("update" if c["update"] else "no-update")


def check_asimov(c, ctx):
    """Asimov data of the model itself, fitted from other start values."""
    pr = build(c)
    m, r = pr.m, pr.r
    x = true_vector(pr, c)
    start = r.x0()
    # generate the data at the true parameters, through the model
    m.update_parameters(x)
    r.update(x)
    m.add_data(**m.generate_asimov_dataset())
    for cn, ch in r.channels.items():
        ch["data"] = r.values(cn)
    sig = np.sqrt(np.diag(Fast(r).cov(x)))
    for name in c["names"]:
        mid = name.lower()
        set_start(pr, start)
        before = snapshot(m)
        res = run_fit(tf.TemplateFitter(m, name), mid, update_templates=c["update"], get_hesse=mid == "iminuit")
        ensure(res is not None, "%s: the fit of the Asimov data from %s failed", mid, start)
        v = np.array(res.params.values)
        ensure(-1e-8 <= res.fcn_min_val <= TOL[mid], "%s: likelihood %r of the Asimov data at its minimum", mid, res.fcn_min_val)
        ensure(np.all(np.abs(v - x) <= 0.1 * sig), "%s: fitted %s instead of the true %s (uncertainties %s)", mid, v, x, sig)
        check_state(pr, res, c["update"], before, mid)
    ctx.hit(r.npar >= 3 and np.max(np.abs(start - x) / sig) > 0.1)
    ctx.label("asimov")


@st.composite
def deficit(draw):
    c = draw(case(min_proc=2, constr=False, missing=False, spread=(0.9, 1.1)))
    c["start"]["t"] = [0.0]
    c["k"] = draw(st.floats(0.2, 1))
    c["truth"][0] = draw(st.floats(40, 250))
    for i in range(1, len(c["truth"])):
        c["truth"][i] = 1000.0 + c["truth"][i]
    return c


def deficit_data(pr, c):
    """Sets data with fewer events than the other processes account for; their parameters and the start values."""
    r = pr.r
    x = true_vector(pr, c)
    zero = x.copy()
    zero[0] = 0.0
    a = c["k"] * 1.5
    for cn in r.channels:
        nu, bg = r.expectation(x, cn), r.expectation(zero, cn)
        a = min(a, float(np.min(0.6 * bg / np.maximum(nu - bg, 1e-9))))
    # a deficit of a few standard deviations
    for cn in r.channels:
        pr.set_data(cn, np.round(r.expectation(zero, cn)))
    sig = np.sqrt(Fast(r).cov(zero)[0, 0])
    x[0] = -min(a * x[0], 4 * sig)
    start = r.x0()
    start[0] = min(start[0], 2 * sig)
    set_start(pr, start)
    for cn in r.channels:
        pr.set_data(cn, np.round(r.expectation(x, cn)))
    return x, start


def check_deficit(c, ctx):
    """Data with fewer events than the other processes account for: the best yield is negative."""
    pr = build(c)
    x, _ = deficit_data(pr, c)
    check(c, ctx, pr, x)
    ctx.label("deficit")


@st.composite
def pulled(draw):
    c = draw(case(max_proc=1, constr=False, big=False, units=False, spread=(0.85, 1.2)))
    c["truth"] = [t * draw(st.floats(3, 30)) for t in c["truth"]]
    c["pulls"] = [[draw(st.integers(0, 200)), draw(st.floats(4, 9)), draw(st.booleans())] for _ in range(draw(st.integers(1, 2)))]
    return c


def check_pulled(c, ctx):
    """Data which pull some nuisance parameters by several standard deviations."""
    pr = build(c)
    r = pr.r
    x = true_vector(pr, c)
    k = len(r.processes)
    rel = np.concatenate([t.rel for ch in r.channels.values() for t in ch["t"].values()])
    for i, v, neg in c["pulls"]:
        i %= len(rel)
        x[k + i] = -min(v, 0.5 / rel[i]) if neg else min(v, 1.5 / rel[i])
    for cn in r.channels:
        pr.set_data(cn, np.round(r.expectation(x, cn)))
    check(c, ctx, pr, x)
    best, _ = Fast(r).minimize(x)
    ctx.label("beyond 3" if np.max(np.abs(best[k:])) > 3 else "within 3")


SUBS = [
    Sub("fits", lambda: case(units=True), check, 320, 8000, "fits of generated models with fluctuated data by both minimizers against an independent minimisation"),
    Sub("asimov", lambda: case(exact=True, units=True, spread=(0.85, 1.2)), check_asimov, 240, 6000, "fits of Asimov data from other start values"),
    Sub("pulled", pulled, check_pulled, 120, 3000, "fits of data which pull nuisance parameters far away from zero"),
    Sub("deficit", deficit, check_deficit, 160, 4000, "fits of data with a deficit, whose best yield is negative",
        corpus=json.load(open(os.path.join(os.path.dirname(__file__), "..", "corpus", "p13-deficit.json")))),
]
