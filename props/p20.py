"""P20: goodness-of-fit statistics and p-values equal their definitions."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, close, ensure, equal, same
from pbt.gens import fixed_list, fl, num

from templatefitter.stats import cowan_binned_likelihood_gof, default_chi2_test, pearson_chi2_test

RULE = "non-trivial: at least two bins, data different from the expectation and a p-value between 1e-300 and 1"


def chi2_sf(x, k):
    """Probability of a chi-square variable with k degrees of freedom to exceed x: finite sums of positive terms."""
    h = x / 2.0
    if x <= 0:
        return 1.0
    if k % 2 == 0:
        t = [math.exp(-h + j * math.log(h) - math.lgamma(j + 1)) for j in range(k // 2)]
    else:
        t = [math.erfc(math.sqrt(h))] + [math.exp(-h + (j - 0.5) * math.log(h) - math.lgamma(j + 0.5)) for j in range(1, (k - 1) // 2 + 1)]
    return math.fsum(t)


@st.composite
def case(draw):
    n = draw(st.sampled_from([3, 2, 5, 1, 10, 24]))
    mode = draw(st.sampled_from(["poisson", "any", "near", "equal", "zeros", "large"]))
    exp, data = [], []
    for _ in range(n):
        e = draw(st.one_of(fl(0.05, 50), num(1, 400), fl(0.5, 1e5) if mode == "large" else num(1, 40)))
        z = draw(st.floats(-3, 3))
        exp.append(e)
        d = max(round(e + z * math.sqrt(e)), 0)
        if mode == "any":
            d = draw(st.one_of(num(0, 500), fl(0, 500)))
        elif mode == "near":
            d = e * (1 + z * 1e-4)
        elif mode == "equal":
            d = e
        elif mode == "zeros" and draw(st.booleans()):
            d = 0.0
        data.append(float(d))
    unc = draw(fixed_list(st.one_of(fl(0.1, 50), num(1, 20)), n))
    return dict(mode=mode, exp=exp, data=data, unc=unc, dof=draw(st.one_of(st.integers(1, 30), st.integers(1, 200))),
                form=draw(st.sampled_from(["float", "int-data", "2d", "readonly", "unsigned", "int32"])), scale=draw(st.floats(1.05, 3)))


def triple(what, got, chi, dof, atol):
    ensure(len(got) == 3, "%s returned %r", what, got)
    c, r, p = (float(v) for v in got)
    close(what + ": chi-square", c, chi, rtol=1e-9, atol=atol)
    close(what + ": chi-square per degree of freedom", r, c / dof, rtol=1e-12)
    ensure(0 <= p <= 1, "%s: p-value %r", what, p)
    ensure(c >= -atol, "%s: negative statistic %r", what, c)
    want = chi2_sf(c, dof)
    close(what + ": p-value", p, want, rtol=1e-9 + 1e-12 * abs(c), atol=1e-300)
    return c, p


def check(c, ctx):
    exp, data, unc = (np.array(c[k], dtype=float) for k in ("exp", "data", "unc"))
    dof = c["dof"]
    if c["form"] == "int-data":
        data = np.round(data).astype(int)
    elif c["form"] in ("unsigned", "int32"):
        # counts of any integer type
        dt = np.uint64 if c["form"] == "unsigned" else np.int32
        data, exp, unc = np.round(data).astype(dt), np.maximum(np.round(exp), 1).astype(dt), np.maximum(np.round(unc), 1).astype(dt)
    elif c["form"] == "2d" and len(exp) % 2 == 0:
        exp, data, unc = (a.reshape(2, -1) for a in (exp, data, unc))
    args = [a.copy() for a in (data, exp, unc)]
    if c["form"] == "readonly":
        for a in args:
            a.setflags(write=False)
    d, e, u = args
    fd, fe, fu = ([float(v) for v in np.ravel(a)] for a in (data, exp, unc))
    pe = math.fsum((a - b) ** 2 / b for a, b in zip(fd, fe))
    de = math.fsum((a - b) ** 2 / s ** 2 for a, b, s in zip(fd, fe, fu))
    # n log(n/nu) + nu - n in the form without cancellation for close values
    co = 2 * math.fsum(b if a == 0 else a * (t - math.log1p(t)) for a, b in zip(fd, fe) for t in [(b - a) / a if a else 0.0])
    catol = 1e-13 * math.fsum(a + b for a, b in zip(fd, fe))
    pv = []
    pv.append(triple("Pearson test", pearson_chi2_test(d, e, dof), pe, dof, 0.0))
    pv.append(triple("uncertainty-weighted test", default_chi2_test(d, e, u, dof), de, dof, 0.0))
    pv.append(triple("likelihood test", cowan_binned_likelihood_gof(d, e, dof), co, dof, catol))
    for a, b, w in zip(args, (data, exp, unc), ("data", "expectation", "uncertainty")):
        same("%s after the tests" % w, a, b)
    for (chi, p), w in zip(pv, ("Pearson", "weighted", "likelihood")):
        if fd == fe:
            ensure(abs(chi) <= catol and p > 0.999999, "%s statistic of equal data and expectation: %r (p-value %r)", w, chi, p)
        elif max(abs(a - b) / (a + b) for a, b in zip(fd, fe)) > 1e-5:
            ensure(chi > 0, "%s statistic of different data and expectation: %r", w, chi)
    # a larger distance has a larger chi-square and a smaller p-value, more degrees of freedom a larger p-value
    far = fe + np.subtract(fd, fe) * c["scale"]
    c2, p2 = (float(v) for v in pearson_chi2_test(far, np.array(fe), dof)[::2])
    ensure(c2 >= pv[0][0] and p2 <= pv[0][1] + 1e-14, "Pearson test: chi-square %r with p-value %r, farther data %r with %r", *pv[0], c2, p2)
    if 1e-250 < pv[0][1] < 1 - 1e-12 and c2 > 1.01 * pv[0][0]:
        ensure(p2 < pv[0][1], "Pearson test: p-value %r did not fall below %r", p2, pv[0][1])
    p3 = float(pearson_chi2_test(d, e, dof + 1)[2])
    ensure(p3 >= pv[0][1] * (1 - 1e-12), "Pearson test: p-value %r with %d, %r with %d degrees of freedom", pv[0][1], dof, p3, dof + 1)
    ctx.hit(len(fe) > 1 and fd != fe and 1e-300 < pv[2][1] < 1)
    ctx.label(c["mode"], c["form"], "empty-data-bins" if 0.0 in fd else "no-empty-bins")


SUBS = [
    Sub("tests", case, check, 4000, 80000, "data, expectations and uncertainties against the defining sums and closed-form chi-square tails"),
]
