"""P14: fixed and bounded parameters are respected by every fit."""
import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import diff, snapshot
from pbt.core import Sub, close, ensure, equal
from pbt.fits import Fast, TOL, build, fit_spec, run_fit, set_start, true_vector
from pbt.gens import fixed_list
from props import p13

RULE = "non-trivial: a successful fit with at least one restricted and one free parameter in which the restriction matters (the unrestricted optimum violates it)"
# a minimum on a boundary is found less precisely by minuit (internal parameter transformation)
BTOL = dict(iminuit=5e-3, scipy=5e-4)


@st.composite
def restriction(draw):
    kind = draw(st.sampled_from(["bound", "fix", "bound"]))
    # which parameter: a yield, the last one, or any
    which = draw(st.one_of(st.integers(0, 2), st.just(-1), st.integers(0, 40)))
    d = dict(kind=kind, which=which, by=draw(st.sampled_from(["name", "index"])), again=draw(st.integers(0, 3)) == 0,
             before=draw(st.lists(st.tuples(st.sampled_from(["name", "index"]), st.floats(0.5, 4), st.floats(0.1, 3)).map(list), max_size=3))
             if draw(st.integers(0, 2)) == 0 else [])
    if kind == "fix" and draw(st.integers(0, 2)) == 0:
        # bounds which exclude the value of the fixed parameter
        d["out"] = [draw(st.sampled_from([-1, 1])) * draw(st.floats(0.2, 2)), draw(st.floats(0.3, 3)), draw(st.booleans())]
    if kind == "bound":
        shape = draw(st.sampled_from(["up", "in", "down", "lo-act", "hi-act", "lo", "hi", "zero-lo", "zero-hi"]))
        a, b = draw(st.floats(0.3, 2.5)), draw(st.floats(0.3, 2.5))
        d["b"] = {"in": [-3 - a, 3 + b], "up": [a, a + b + 0.5], "down": [-a - b - 0.5, -a], "lo": [-3 - a, None], "hi": [None, 3 + b],
                  "lo-act": [a, None], "hi-act": [None, -a]}.get(shape)
        if d["b"] is None:  # bounds at exactly zero
            d["zero"] = [0.0, draw(st.sampled_from([None, a]))] if shape == "zero-lo" else [draw(st.sampled_from([None, -a])), 0.0]
    return d


@st.composite
def case(draw):
    mid = draw(st.sampled_from(["iminuit", "scipy"]))
    c = draw(fit_spec(units=mid == "iminuit", big=True))
    c["mid"] = mid
    c["stages"] = [dict(ops=draw(st.lists(restriction(), min_size=0 if i else 1, max_size=3)), update=draw(st.booleans()),
                        # without the arguments of the fit (fixed nuisance parameters, common limits)
                        plain=draw(st.integers(0, 2)) == 0)
                   for i in range(draw(st.sampled_from([1, 2, 2, 3])))]
    c["nui"] = draw(st.sampled_from([None, None, None, "arg", "method", "both"]))
    c["limits"] = draw(st.one_of(st.none(), st.none(), st.tuples(st.floats(-3, -0.02), st.floats(0.02, 3)).map(list),
                                 st.one_of(st.tuples(st.just(0.0), st.floats(0.3, 3)), st.tuples(st.floats(-3, -0.3), st.just(0.0))).map(list)))
    return c


def pid(nll, i, by):
    return nll.param_names[i] if by == "name" else i


def inside(t, lo, hi):
    return np.clip(t, lo + 0.05 * (hi - lo), hi - 0.05 * (hi - lo))


def check(c, ctx):
    pr = build(c)
    m, r = pr.m, pr.r
    mid = c["mid"]
    F = Fast(r)
    best, fbest = F.minimize(true_vector(pr, c))
    sig = np.sqrt(np.diag(F.cov(best)))
    start = r.x0()
    nll = m.create_nll()
    names = list(nll.param_names)
    np_ = len(r.processes)
    fixed, bounds, outside = set(), {}, {}
    if c["limits"] is not None:
        # common limits; starts lie strictly inside
        lo, hi = c["limits"]
        start[np_:] = inside(start[np_:], lo, hi)
    fitter = tf.TemplateFitter(m, mid)
    x0 = start
    set_start(pr, x0)
    if c["nui"] in ("method", "both"):
        fitter.fix_nui_params()
    matters = False
    for k, s in enumerate(c["stages"]):
        for op in s["ops"]:
            i = op["which"] % r.npar
            if op["kind"] == "fix":
                for _ in range(2 if op["again"] else 1):
                    fitter.set_parameter_fixed(pid(nll, i, op["by"]))
                fixed.add(i)
                if op.get("out"):
                    outside[i] = op["out"]
                continue
            if i in outside:
                continue
            if c["limits"] is not None and i >= np_:
                continue
            if op["b"] is None:
                lo, hi = op["zero"]
                if i < np_:
                    lo, hi = 0.0, None if None in op["zero"] else float(best[i] + op["zero"][1] * sig[i])
            else:
                lo, hi = [None if v is None else float(best[i] + v * sig[i]) for v in op["b"]]
            if i < np_:
                # yields stay positive
                if hi is not None and hi < 0.3 * best[i]:
                    continue
                if lo is not None and op["b"] is not None:
                    lo = max(lo, 0.2 * best[i])
            for by, at, width in op.get("before", []):  # bounds replaced by the ones set last
                lo_, hi_ = float(best[i] + at * sig[i]), float(best[i] + (at + width) * sig[i])
                fitter.set_parameter_bounds(pid(nll, i, by), (lo_, hi_))
                ctx.label("replaced-bound")
            fitter.set_parameter_bounds(pid(nll, i, op["by"]), (lo, hi))
            bounds[i] = (lo, hi)
        # the start lies strictly inside
        x0 = np.array(x0)
        for i, (lo, hi) in bounds.items():
            w = (hi - lo) if lo is not None and hi is not None else 2 * sig[i]
            if lo is not None:
                x0[i] = max(x0[i], lo + 0.1 * w)
            if hi is not None:
                x0[i] = min(x0[i], hi - 0.1 * w)
        if c["limits"] is not None:
            x0 = np.array(x0)
            x0[np_:] = inside(x0[np_:], *c["limits"])
        set_start(pr, x0)
        x0 = nll.x0.copy()
        for i, (at, width, by) in outside.items():
            a, b = sorted((float(x0[i] + at * sig[i]), float(x0[i] + (at + np.sign(at) * width) * sig[i])))
            fitter.set_parameter_bounds(names[i] if by else i, (a, b))
            ctx.label("fixed-out-of-bounds")
        fx = set(fixed)
        bd = {i: b for i, b in bounds.items() if i not in outside}
        kw = dict(update_templates=s["update"], get_hesse=mid == "iminuit")
        plain = s.get("plain", False)
        if c["nui"] in ("arg", "both") and not plain:
            kw["fix_nui_params"] = True
        if c["nui"] and not (plain and c["nui"] == "arg"):
            fx |= set(range(np_, r.npar))
        if plain and k:
            ctx.label("later-fit-without-arguments")
        if c["limits"] is not None and not plain:
            kw["nui_param_limits"] = tuple(c["limits"])
            for i in range(np_, r.npar):
                if i not in outside:
                    bd.setdefault(i, tuple(c["limits"]))
        before = snapshot(m)
        kw["verbose"] = 0 if mid == "iminuit" else False
        try:
            res = fitter.do_fit(**kw)
        except RuntimeError:
            ctx.label("failed " + mid)
            return
        x = np.array(res.params.values, dtype=float)
        what = "%s fit %d (fixed %s, bounds %s, nuisance %s%s)" % (mid, k, sorted(fixed), bounds, c["nui"], ", plain" if plain else "")
        for i in fx:
            ensure(abs(x[i] - x0[i]) <= 1e-9 * (abs(x0[i]) + (i >= np_)), "%s: fixed parameter %s moved from %r to %r", what, names[i], x0[i], x[i])
        for i, (lo, hi) in bd.items():
            eps = 1e-9 * (abs(x[i]) + sig[i])
            ensure((lo is None or x[i] >= lo - eps) and (hi is None or x[i] <= hi + eps), "%s: %s=%r outside its bounds", what, names[i], x[i])
        if not s["update"]:
            d = diff(before, snapshot(m))
            ensure(d is None, "%s without update changed the model: %s", what, d)
        if not res.succes:
            ctx.label("unsuccessful " + mid)
            return
        bx, bf = min((F.minimize(start_, fx, bd) for start_ in (x0, np.where([i in fx for i in range(r.npar)], x0, best))), key=lambda t: t[1])
        close(what + ": reported minimum", res.fcn_min_val, F.f(x), rtol=1e-9, atol=1e-7)
        active = [i for i in bd if i not in fx and any(b is not None and abs(bx[i] - b) < 1e-3 * sig[i] for b in bd[i])]
        tol = BTOL[mid] if active else TOL[mid]
        ensure(res.fcn_min_val <= bf + tol, "%s: minimum %r at %s, but the likelihood is %r at %s", what, res.fcn_min_val, x, bf, bx)
        out = lambda i: any(b is not None and s_ * (best[i] - b) < 0 for b, s_ in zip(bd[i], (1, -1)))
        if not fx and not any(out(i) for i in bd):
            ensure(res.fcn_min_val <= fbest + tol, "%s: inactive bounds changed the minimum from %r to %r", what, fbest, res.fcn_min_val)
            ctx.label("inactive-only")
        if len(fx) < r.npar and bf > fbest + 0.02 and (fx or active):
            matters = True
        if any(0.0 in b for b in bd.values()):
            ctx.label("zero-bound")
        ctx.label("success " + mid, "active" if active else "no-active", "fixed-%d" % min(len(fx), 4))
        if c["nui"]:
            ctx.label("nui-" + c["nui"])
        if c["limits"]:
            ctx.label("limits")
        # the next stage starts where this one ended (or started)
        if s["update"]:
            x0 = x.copy()
    # another fitter of the same model is not restricted
    set_start(pr, start)
    other = tf.TemplateFitter(m, mid)
    res = run_fit(other, mid, get_hesse=False)
    if res is not None:
        ensure(res.fcn_min_val <= fbest + 3 * TOL[mid], "a new fitter found %r at %s instead of %r at %s after another one was restricted (%s)",
               res.fcn_min_val, np.array(res.params.values), fbest, best, what)
        ctx.label("second-fitter")
    ctx.hit(matters)


@st.composite
def physical(draw):
    c = draw(p13.deficit())
    c["mid"] = draw(st.sampled_from(["iminuit", "scipy"])) if c["names"] != ["iminuit"] else "iminuit"
    c["upper"] = draw(st.sampled_from([None, None, 5.0]))
    c["by"] = draw(st.sampled_from(["name", "index"]))
    c["zero"] = draw(st.sampled_from([0, 0.0]))
    c["k"] = draw(st.floats(-0.5, 1))
    return c


def check_physical(c, ctx):
    """A yield which is kept from getting negative, for data with too few (or enough) events."""
    pr = build(c)
    m, r = pr.m, pr.r
    x, start = p13.deficit_data(pr, c)
    F = Fast(r)
    free, ffree = F.minimize(x)
    sig = np.sqrt(np.diag(F.cov(free)))
    bounds = {0: (c["zero"], None if c["upper"] is None else max(float(start[0]), 0.0) + c["upper"] * sig[0])}
    x0 = np.array(start)
    x0[0] = max(x0[0], 0.2 * sig[0])
    best, fbest = F.minimize(x0, (), bounds)
    set_start(pr, x0)
    fitter = tf.TemplateFitter(m, c["mid"])
    fitter.set_parameter_bounds(pid(m.create_nll(), 0, c["by"]), bounds[0])
    res = run_fit(fitter, c["mid"], get_hesse=False)
    if res is None:
        ctx.label("unsuccessful " + c["mid"])
        return
    y = np.array(res.params.values, dtype=float)
    what = "%s fit with %s in %s" % (c["mid"], m.create_nll().param_names[0], bounds[0])
    ensure(y[0] >= -1e-9 * sig[0] and (bounds[0][1] is None or y[0] <= bounds[0][1] + 1e-9 * sig[0]), "%s: the fitted value is %r", what, y[0])
    close(what + ": reported minimum", res.fcn_min_val, F.f(y), rtol=1e-9, atol=1e-7)
    ensure(res.fcn_min_val <= fbest + BTOL[c["mid"]], "%s: minimum %r at %s, but the likelihood is %r at %s", what, res.fcn_min_val, y, fbest, best)
    ctx.label("success " + c["mid"], "active" if free[0] < 0 else "inactive")
    ctx.hit(free[0] < -0.3 * sig[0])


SUBS = [
    Sub("physical", physical, check_physical, 120, 3000, "fits with a yield bounded by zero, of data with a deficit"),
    Sub("restricted", case, check, 720, 18000, "histories of restrictions and fits by both minimizers against independent constrained minimisation"),
]
