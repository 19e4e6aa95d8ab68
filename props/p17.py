"""P17: the significance is the square root of the profile likelihood ratio."""
import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import diff, snapshot
from pbt.core import Sub, close, ensure, equal
from pbt.fits import Fast, TOL, build, fit_spec, run_fit, set_start, true_vector

RULE = "non-trivial: a significance between 0.3 and 40 in a model with further free parameters"


@st.composite
def case(draw):
    mid = draw(st.sampled_from(["iminuit", "iminuit", "scipy"]))
    kw = dict(min_proc=2, missing=False, units=mid == "iminuit")
    c = draw(fit_spec(max_proc=2, max_ch=1, max_bins=3, dims=(1,), **kw) if mid == "scipy" else fit_spec(big=True, **kw))
    c["mid"] = mid
    k = draw(st.integers(0, len(c["truth"]) - 1))
    c["k"] = k
    # signal strength in units of the square root of the rest
    u = c["units"]
    rest = sum(t * u[i] for i, t in enumerate(c["truth"]) if i != k)
    strong = draw(st.integers(0, 7)) == 0
    s = draw(st.sampled_from([30.0, 100.0, 300.0] if strong else [1.0, 3.0, 0.3, -1.0, 4.0, 2.0, -0.3])) * rest ** 0.5
    c["truth"][k] = max(s, -0.05 * rest) / u[k]
    c["model"]["constr"] = [q for q in c["model"]["constr"] if q[0] != c["model"]["procs"][k]]
    c["y0"] = draw(st.sampled_from([[1.0, 0.8], [1.0, 0.0], [0.0, 0.9]]))
    c["fix"] = draw(st.one_of(st.just([]), st.lists(st.integers(0, 40), max_size=2)))
    c["nui"] = draw(st.sampled_from(["arg", "method"] if strong else [None, None, "arg", "method"]))
    c["bound"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 40), st.floats(-1.5, -0.05), st.floats(0.05, 1.5)).map(list)))
    # lower bound of the yield: none, zero, or a positive one (which the yield of zero does not satisfy)
    c["low"] = draw(st.sampled_from([False, True, False, False, "positive"]))
    c["quiet"] = draw(st.booleans())
    c["add"] = draw(st.floats(0.2, 1.5))
    return c


def check(c, ctx):
    start_, c["start"] = c["start"], None
    pr = build(c)
    c["start"] = start_
    m, r = pr.m, pr.r
    mid, k = c["mid"], c["k"]
    u = c["units"][k]
    names = list(m.create_nll().param_names)
    np_ = len(r.processes)
    pk = r.processes[k]
    if any(np.any(r.expectation(true_vector(pr, c), cn) <= 0) for cn in r.channels):
        ctx.label("negative-expectation")
        return
    fix = {i % r.npar for i in c["fix"]} - {k}
    own = sorted(fix)
    if c["nui"]:
        fix |= set(range(np_, r.npar))
    if mid == "scipy" and r.npar - len(fix) > 7:
        ctx.label("too-large")
        return
    fitter = tf.TemplateFitter(m, mid)
    for j, i in enumerate(own):
        fitter.set_parameter_fixed(names[i] if j % 2 else i)
    bounds = {}
    if c["bound"] is not None:
        i = np_ + c["bound"][0] % (r.npar - np_)
        if i not in fix:
            bounds[i] = (c["bound"][1], c["bound"][2])
            fitter.set_parameter_bounds(i, bounds[i])
    if c["low"]:
        bounds[k] = (0.0 if c["low"] is True else max(0.2 * float(c["truth"][k]), 0.5 / u), None)
        fitter.set_parameter_bounds(names[k], bounds[k])
    if c["nui"] == "method":
        fitter.fix_nui_params()

    def setup(F, scale, t):
        """Start values near the background-only expectation."""
        x = true_vector(pr, c)
        x[:np_] = [max(v, 0) * f for v, f in zip(x[:np_], c["start"]["y"])]
        x[np_:] = [t[i % len(t)] for i in range(r.npar - np_)]
        x[k] = max(abs(c["truth"][k]), 5.0 / u) * scale
        for i, (lo, hi) in bounds.items():
            if i != k:
                x[i] = np.clip(x[i], 0.8 * lo, 0.8 * hi)
        if c["low"]:
            x[k] = max(x[k], bounds[k][0] + 3.0 / u)
        set_start(pr, x)
        return np.array(m.create_nll().x0)

    def expected(F, x0):
        pen = (x0, np.where([i in fix for i in range(r.npar)], x0, np.maximum(true_vector(pr, c), [0.0 if i < np_ else -9 for i in range(r.npar)])))
        best, f1 = min((F.minimize(s, fix, bounds) for s in pen), key=lambda t: t[1])
        b0 = best.copy()
        b0[k] = 0
        z = x0.copy()
        z[k] = 0
        f0 = min(F.minimize(s, fix | {k}, bounds)[1] for s in (b0, z))
        return best, f1, f0

    out = []
    seqs = [(pr, c["y0"][0]), (pr, c["y0"][1])]
    args = dict(verbose=not c["quiet"]) if mid == "scipy" else dict(verbose=0 if c["quiet"] else 1)
    if c["nui"] == "arg":
        args["fix_nui_params"] = True
    for step in range(3):
        F = Fast(r)
        if step == 2:
            # more events that look like the signal
            best = out[-1][1]
            for cn, ch in r.channels.items():
                v = r.channels[cn]["t"][pk]
                sigshape = np.ravel(v.n) / np.sum(v.n)
                n = c["add"] * np.sqrt(sum(abs(y) * w for y, w in zip(best, c["units"]))) / u
                pr.set_data(cn, np.ravel(ch["data"]) + n * ch["eff"][pk] * sigshape)
            F = Fast(r)
        scale = c["y0"][min(step, 1)]
        x0 = setup(F, scale, c["start"]["t"])
        if np.any([np.any(r.expectation(np.where(np.arange(r.npar) == k, 0, x0), cn) <= 0) for cn in r.channels]):
            ctx.label("negative-expectation")
            return
        best, f1, f0 = expected(F, x0)
        probe = run_fit(fitter, mid, update_templates=False, get_hesse=False, fix_nui_params=c["nui"] is not None)
        if probe is None:
            ctx.label("failed " + mid)
            return
        before = snapshot(m)
        try:
            s = fitter.get_significance(pk, **args)
        except RuntimeError:
            ctx.label("failed " + mid)
            return
        what = "%s significance of %s (fixed %s, bounds %s, nuisance %s)" % (mid, names[k], own, bounds, c["nui"])
        d = diff(before, snapshot(m))
        ensure(d is None, "%s changed the model: %s", what, d)
        s = float(s)
        ensure(np.isfinite(s) and s >= 0, "%s is %r", what, s)
        dq = max(f0 - f1, 0.0)
        try:
            err = np.sqrt(F.cov(best, [i for i in range(r.npar) if i not in fix])[k, k])
        except np.linalg.LinAlgError:
            err = np.inf
        tol = 2 * (5e-3 if bounds else TOL[mid])
        if best[k] < 0:
            ensure(s == 0 or best[k] > -0.1 * err, "%s is %r for a fitted yield of %r +- %r", what, s, best[k], err)
            ctx.label("negative-yield")
            dq = 0.0
        if best[k] < 0.15 * err:
            tol += 0.02
        if dq > 40 and not fix >= set(range(np_, r.npar)):
            # without the signal the data are so unlikely that the conditional minimum need not be unique
            ensure(s * s / 2 >= dq - tol, "%s is %r, but sqrt(2*(%r - %r)) = %r", what, s, f0, f1, np.sqrt(2 * max(dq, 0)))
            ctx.label("huge")
            return
        ensure(abs(s * s / 2 - dq) <= tol * (1 + 1e-3 * dq), "%s is %r, expected sqrt(2*(%r - %r)) = %r", what, s, f0, f1, np.sqrt(2 * max(dq, 0)))
        out.append((s, best, dq))
        ctx.hit(0.3 < s < 40 and len(fix) < r.npar - 1)
        ctx.label(mid, "s<1" if s < 1 else "s<5" if s < 5 else "s>38" if s > 38 else "s>5", "nui-%s" % c["nui"], "fixed" if own else "free",
                  "bounds" if bounds else "no-bounds", "low-%s" % c["low"], "start-zero" if scale == 0 else "start")
    fixed_y = [i for i in own if i < np_]
    if not own and not bounds and not c["nui"]:
        a, b = out[0][0] ** 2, out[1][0] ** 2
        ensure(abs(a - b) <= 8 * TOL[mid] * (1 + 1e-3 * a), "%s depends on the start yield: %r / %r", what, out[0][0], out[1][0])
    if out[1][1][k] >= 0 and not fixed_y and not m.constrained_yields:
        ensure(out[2][0] ** 2 >= out[1][0] ** 2 - 0.05 - 4 * TOL[mid], "%s fell from %r to %r with more signal-like events", what, out[1][0], out[2][0])
        ctx.label("monotone")


SUBS = [
    Sub("significance", case, check, 160, 5000, "significances of generated models (three per case: two start yields, then more signal-like data) against independent minimisations"),
]
