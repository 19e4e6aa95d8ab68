"""P22: post-fit bin uncertainties propagate the full parameter covariance."""
import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import Pair, diff, snapshot
from pbt.core import Sub, close, ensure, same
from pbt.fits import build, fit_spec, run_fit
from pbt.gens import fixed_list, fl, model_spec, n_nui, pos_count, raw_params

RULE = ("non-trivial: at least two bins, at least one nuisance parameter with a relative uncertainty above 1e-3, and a "
        "covariance that correlates the parameters")
# relative accuracy of the numerical derivative (measured: about 1e-9; see DESIGN.md)
TOL = 1e-6
ROUND = 1e-10


def channel_x(pr, cn, x):
    """The part of a model's parameter vector that belongs to a channel (yields, then nuisance parameters, channel order)."""
    y, nui = pr.r.split(x)
    ps = list(pr.r.channels[cn]["t"])
    return np.concatenate([[y[p] for p in ps], np.concatenate([nui[cn, p] for p in ps])])


def reference(ch, x):
    """Expected bin counts, Jacobian and relative uncertainties of a reference channel."""
    ps = list(ch["t"])
    k, n = len(ps), ch["nbins"]
    nu = np.zeros(n)
    J = np.zeros((n, k + k * n))
    for a, p in enumerate(ps):
        t, e, y = ch["t"][p], ch["eff"][p], x[a]
        th = x[k + a * n:k + (a + 1) * n]
        v = t.n * (1 + th * t.rel)
        S = np.sum(v)
        F = v / S if S != 0 else np.zeros(n)
        nu += y * e * F
        J[:, a] = e * F
        if S != 0:
            for i in range(n):
                for b in range(n):
                    J[b, k + a * n + i] = y * e * t.n[i] * t.rel[i] / S * ((1.0 if i == b else 0.0) - F[b])
    return nu, J


def compare(name, got, nu, J, C):
    e = np.sqrt(np.maximum(np.diag(C), 0))
    # numerical derivatives are wrong by a small fraction of themselves and of the function
    d = (TOL * np.abs(J) + ROUND * np.max(np.abs(nu))) @ e
    s = np.abs(J) @ e + d
    close(name, got, J @ C @ J.T, rtol=0, atol=np.outer(s, d) + np.outer(d, s) + 1e-18)
    return s, d


# ------------------------------------------------------------------ arbitrary covariances
@st.composite
def case(draw):
    spec = draw(model_spec(max_ch=2, max_proc=3, max_bins=4, elem=draw(st.sampled_from([pos_count, None])) or st.one_of(st.just(0.0), pos_count)))
    pt = draw(raw_params(len(spec["procs"]), n_nui(spec)))
    m = len(pt["y"]) + len(pt["t"])
    k = draw(st.integers(1, 4))
    vec = draw(fixed_list(fixed_list(st.one_of(st.just(0.0), fl(-1, 1)), k), m))
    zero = draw(st.one_of(st.just([]), st.lists(st.integers(0, 60), max_size=6)))
    return dict(model=spec, pt=pt, a=vec, diag=draw(fixed_list(st.one_of(st.just(0.0), fl(0.0, 1.0)), m)), zero=zero,
                cur=draw(raw_params(len(spec["procs"]), n_nui(spec))), data=draw(st.booleans()), nlist=draw(st.booleans()))


def check(c, ctx):
    pr = Pair(c["model"], data=c["data"])
    m, r = pr.m, pr.r
    x = pr.vector(c["pt"])
    # the state of the templates does not matter
    m.update_parameters(pr.vector(c["cur"]))
    before = snapshot(m)
    for cn, ch in r.channels.items():
        cx = channel_x(pr, cn, x)
        k, n = len(ch["t"]), ch["nbins"]
        sig = np.concatenate([np.sqrt(np.abs(cx[:k])) + 1, np.ones(k * n)])
        a = np.array(c["a"], dtype=float)[:len(cx)] * sig[:, None]
        C = a @ a.T + np.diag(np.array(c["diag"])[:len(cx)] * sig ** 2)
        z = sorted({i % len(cx) for i in c["zero"]})
        C[z] = 0
        C[:, z] = 0
        real = m.channels[cn]
        nu, J = reference(ch, cx)
        names = ["p%d" % i for i in range(len(cx))]
        par = tf.Parameters(names)
        par.values = cx.copy()
        par.covariance = C.copy()
        par.errors = np.sqrt(np.diag(C))
        V = np.array(real.propagate_parameter_uncertainties(par))
        s, dev = compare("%s: covariance of the bin counts" % cn, V, nu, J, C)
        close("%s: symmetry of the covariance" % cn, V, V.T, rtol=0, atol=1e-9 * np.outer(s, s) + 1e-18)
        u = np.array(real.get_post_fit_bin_uncertainty(par))
        # a vanishing variance may be rounded to a negative number
        u = np.where(np.isnan(u) & (np.diag(V) > -2 * s * dev - 1e-18), 0.0, u)
        close("%s: post-fit uncertainties" % cn, u, np.sqrt(np.maximum(np.diag(V), 0)), rtol=1e-9, atol=1e-9)
        want = np.sqrt(np.maximum(np.diag(J @ C @ J.T), 0))
        with np.errstate(all="ignore"):
            # |sqrt(a) - sqrt(b)| <= min(|a - b| / sqrt(b), sqrt(|a - b|))
            da = 2 * s * dev + 1e-18
            close("%s: post-fit uncertainties against the formula" % cn, u, want, rtol=1e-9,
                  atol=np.minimum(da / np.where(want > 0, want, 1e-300), np.sqrt(da)) * (1 + 1e-9))
        # the expectation and the split of the parameter array
        close("%s: expected bin counts" % cn, real.bin_counts_from_param_values(cx), nu, rtol=1e-11, atol=1e-11 * float(np.sum(np.abs(nu))))
        close("%s: expectation of the model" % cn, nu, r.expectation(x, cn), rtol=1e-11, atol=1e-11 * float(np.sum(np.abs(nu))))
        y, t = real.split_parameter_array(cx)
        same("%s: yields of the parameter array" % cn, y, cx[:k])
        same("%s: nuisance parameters of the parameter array" % cn, t, cx[k:])
        same("%s: values of the result" % cn, par.values, cx)
        same("%s: covariance of the result" % cn, par.covariance, C)
        rel = max(float(np.max(np.where(t.n > 0, t.rel, 0))) for t in ch["t"].values())
        off = C - np.diag(np.diag(C))
        ctx.hit(n > 1 and rel > 1e-3 and np.any(off != 0) and np.any(np.diag(C)[k:] > 0))
        ctx.label("templates-%d" % k, "2d" if len(pr.axes[cn]) > 1 else "1d", "fixed-parameters" if z else "all-free",
                  "efficiency" if any(e != 1 for e in ch["eff"].values()) else "efficiency-1")
        if np.any(cx[k:] != 0):
            ctx.label("nuisance-nonzero")
    d = diff(before, snapshot(m))
    ensure(d is None, "propagation changed the model: %s", d)


# ------------------------------------------------------------------ results of real fits
@st.composite
def fit_case(draw):
    c = draw(fit_spec(max_ch=1, max_bins=4))
    # the parameters of a single-channel model are in channel order if the templates are added in process order
    ch = c["model"]["chans"][0]
    ch["temps"] = sorted(ch["temps"], key=lambda t: c["model"]["procs"].index(t["p"]))
    c["mid"] = draw(st.sampled_from(["iminuit", "iminuit", "scipy"]))
    c["fix"] = draw(st.one_of(st.just([]), st.lists(st.integers(0, 40), max_size=3)))
    c["upd"] = draw(st.booleans())
    return c


def check_fit(c, ctx):
    pr = build(c)
    m, r = pr.m, pr.r
    if c["mid"] == "scipy" and r.npar > 12:
        ctx.label("too-large")
        return
    fitter = tf.TemplateFitter(m, c["mid"])
    for i in sorted({i % r.npar for i in c["fix"]})[:r.npar - 1]:
        fitter.set_parameter_fixed(i)
    res = run_fit(fitter, c["mid"], update_templates=c["upd"])
    if res is None:
        ctx.label("failed")
        return
    cn, ch = next(iter(r.channels.items()))
    x = np.array(res.params.values, dtype=float)
    C = np.array(res.params.covariance, dtype=float)
    y, nui = r.split(x)
    if np.any(r.expectation(x, cn) <= 0) or not np.all(np.isfinite(C)):
        ctx.label("outside-domain")
        return
    before = snapshot(m)
    nu, J = reference(ch, x)
    s = np.abs(J) @ np.sqrt(np.maximum(np.diag(C), 0))
    real = m.channels[cn]
    V = np.array(real.propagate_parameter_uncertainties(res.params))
    compare("covariance of the fitted bin counts", V, nu, J, C)
    want = np.diag(J @ C @ J.T)
    with np.errstate(all="ignore"):
        u = np.array(real.get_post_fit_bin_uncertainty(res.params))
    ok = want > 1e-3 * s * s
    close("post-fit uncertainties", u[ok], np.sqrt(want[ok]), rtol=1e-3)
    close("fitted bin counts", real.bin_counts_from_param_values(x), nu, rtol=1e-10, atol=1e-10 * float(np.sum(nu)))
    if c["upd"]:
        close("values of the updated templates", sum(np.ravel(t.values) for t in real.templates.values()), nu, rtol=1e-10)
    d = diff(before, snapshot(m))
    ensure(d is None, "propagation changed the model: %s", d)
    ctx.hit(len(nu) > 1)
    ctx.label(c["mid"], "fixed" if c["fix"] else "free", "updated" if c["upd"] else "not-updated", "2d" if len(pr.axes[cn]) > 1 else "1d")


SUBS = [
    Sub("covariance", case, check, quick=600, rule=RULE),
    Sub("fit", fit_case, check_fit, quick=160, rule="non-trivial: a successful fit of a channel with at least two bins"),
]
