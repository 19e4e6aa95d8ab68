"""P04: template bin values equal yield times nuisance-dependent normalised fractions."""
import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import hist_from, real_edges, template_from
from pbt.core import Sub, close, ensure, same
from pbt.gens import axis, fixed_list, fl, nbins, neg_template_spec, num, template_spec

RULE = "non-trivial: at least two non-empty bins, a non-zero nuisance parameter and a non-zero relative error"


@st.composite
def case(draw):
    dim = draw(st.sampled_from([1, 1, 2]))
    axes = [draw(axis(1, 8 if dim == 1 else 4)) for _ in range(dim)]
    n = 1
    for a in axes:
        n *= nbins(a)
    return dict(axes=axes, t=draw(template_spec(axes)),
                nui=draw(fixed_list(st.one_of(st.just(0.0), fl(-3, 3), fl(-3, 3), fl(-60, 60)), n)),
                nui2=draw(fixed_list(st.one_of(fl(-1, 1), fl(-30, 30)), n)),
                y=draw(st.one_of(num(0, 1000), fl(1e-3, 1e5), num(-1000, 1000), st.sampled_from([1e-9, 1e9, -1e-9]))), k=draw(st.sampled_from([2.0, 0.125, 10.0, 1e3])),
                int_y=draw(st.booleans()))


def clip(nui, rel):
    with np.errstate(all="ignore"):
        return np.maximum(nui, np.where(rel > 0, -0.9 / rel, -np.inf))


def check(c, ctx):
    axes = c["axes"]
    t, r = template_from("t", axes, c["t"])
    shape = r.shape
    tot = float(np.sum(r.n))
    # a new template reproduces its histogram
    close("values of a new template", t.values, r.n.reshape(shape), rtol=1e-11, atol=1e-11 * tot)
    close("yield of a new template", t.yield_param, tot, rtol=1e-12)
    same("nuisance parameters of a new template", t.nui_params, np.zeros(len(r.n)))
    ensure(tuple(t.shape) == tuple(shape) and t.num_bins == len(r.n), "shape %s / num_bins %s", t.shape, t.num_bins)

    nui = clip(np.array(c["nui"]), r.rel)
    nui2 = clip(np.array(c["nui2"]), r.rel)
    y = int(c["y"]) if c["int_y"] else c["y"]
    f2 = t.fractions(nui2)
    close("fractions", f2, r.fractions(nui2), rtol=1e-10)
    t.yield_param = y
    t.nui_params = nui
    r.yld, r.nui = float(y), nui
    close("fractions at explicit parameters", t.fractions(nui2), r.fractions(nui2), rtol=1e-10)
    close("fractions", t.fractions(nui), r.fractions(nui), rtol=1e-10)
    v = np.array(t.values)
    close("values", v, r.values, rtol=1e-10)
    if tot > 0:
        close("sum of fractions", np.sum(t.fractions(nui)), 1.0, rtol=1e-10)
        close("sum of values", np.sum(v), float(y), rtol=1e-10)
    else:
        same("fractions of an empty template", t.fractions(nui), np.zeros(len(r.n)))
        same("values of an empty template", v, np.zeros(shape))
    # linear in the yield
    t.yield_param = float(y) * 3.0
    close("values at three times the yield", t.values, 3 * v, rtol=1e-10)
    t.yield_param = 0.0
    same("values at zero yield", t.values, np.zeros(shape))
    # independent of the normalisation of the histogram
    k = c["k"]
    s = c["t"]
    errs = np.sqrt(np.array(s["counts"])) if s["errs"] is None else np.array(s["errs"])
    if np.all((errs > 0) | (np.array(s["counts"]) == 0)):
        scaled = dict(counts=[v_ * k for v_ in s["counts"]], errs=[float(e) * k for e in errs],
                      systs=[dict(kind="cov", a=[[x * k for x in row] for row in q["a"]]) if q["kind"] == "cov" else
                             dict(kind="ud", up=[u * k for u in q["up"]], down=[u * k for u in q["down"]]) for q in s["systs"]])
        if np.all(np.array(s["counts"]) > 0):
            t2, r2 = template_from("t2", axes, scaled)
            if len(r2.systs) == len(r.systs):
                close("fractions of a scaled template", t2.fractions(nui), t.fractions(nui), rtol=1e-9)
    ctx.hit(np.sum(r.n > 0) > 1 and np.any(nui[r.n > 0] != 0) and np.any(r.rel[r.n > 0] > 1e-6))
    ctx.label("dim-%d" % len(axes), "systs-%d" % len(r.systs))
    if tot == 0:
        ctx.label("empty")
    elif np.any(r.n == 0):
        ctx.label("empty-bins")


@st.composite
def filled(draw):
    dim = draw(st.sampled_from([1, 2]))
    axes = [draw(axis(2, 8 if dim == 1 else 4)) for _ in range(dim)]
    return dict(axes=axes, seed=draw(st.integers(0, 2 ** 31)), n=draw(st.integers(1, 200)), w=draw(st.booleans()), y=draw(fl(1, 1e4)))


def check_filled(c, ctx):
    """Templates from filled histograms: bins keep their positions (a template with one entry peaks in its bin)."""
    edges = real_edges(c["axes"])
    dim = len(edges)
    g = np.random.default_rng(c["seed"])
    cols = [e[0] + (e[-1] - e[0]) * g.beta(1.5, 3, c["n"]) for e in edges]
    w = g.uniform(0.2, 3, c["n"]) if c["w"] else np.ones(c["n"])
    H = np.histogramdd(np.array(cols).T, bins=edges, weights=w)[0]
    h = (tf.Hist1d if dim == 1 else tf.Hist2d)(edges[0] if dim == 1 else tuple(edges),
                                              data=cols[0] if dim == 1 else (cols[0], cols[1]), weights=w)
    t = tf.Template1d("a", "x", h) if dim == 1 else tf.Template2d("a", ("x", "y"), h)
    t.yield_param = c["y"]
    close("values", t.values, c["y"] * H / H.sum(), rtol=1e-10)
    close("fractions", t.fractions(np.zeros(H.size)), (H / H.sum()).ravel(), rtol=1e-10)
    ctx.hit(np.sum(H > 0) > 1)
    ctx.label("dim-%d" % dim)


@st.composite
def negative(draw):
    dim = draw(st.sampled_from([1, 1, 2]))
    axes = [draw(axis(2, 7 if dim == 1 else 3)) for _ in range(dim)]
    n = 1
    for a in axes:
        n *= nbins(a)
    return dict(axes=axes, t=draw(neg_template_spec(axes)), nui=draw(fixed_list(fl(-1, 1), n)), y=draw(fl(1, 1e4)))


def check_negative(c, ctx):
    """Bins with negative content (negative event weights) follow the same formula."""
    t, r = template_from("t", c["axes"], c["t"])
    # keep every bin within 30% of its content so that the sum stays positive
    nui = np.array(c["nui"]) * 0.3 / np.maximum(np.abs(r.rel), 0.3)
    close("values of a new template", t.values, r.values, rtol=1e-10, atol=1e-11 * np.sum(np.abs(r.n)))
    close("fractions", t.fractions(nui), r.fractions(nui), rtol=1e-9, atol=1e-11)
    t.yield_param = c["y"]
    t.nui_params = nui
    r.yld, r.nui = c["y"], nui
    close("values", t.values, r.values, rtol=1e-9, atol=1e-11 * c["y"])
    close("sum of values", np.sum(t.values), c["y"], rtol=1e-9)
    ctx.hit(bool(np.any(r.n < 0) and np.any(nui[r.n < 0] != 0)))
    ctx.label("dim-%d" % len(c["axes"]), "negative-%d" % min(int(np.sum(r.n < 0)), 3))


SUBS = [
    Sub("formula", case, check, 3000, 60000, "generated bin contents, errors, systematics and parameters against the formula",
        corpus=[dict(axes=[dict(n=3, lo=0.0, hi=1.0)], t=dict(counts=[0.0, 0.0, 0.0], errs=None, systs=[]), nui=[0.0, 1.0, 0.0],
                     nui2=[0.0, 0.0, 0.0], y=5.0, k=2.0, int_y=False)]),
    Sub("negative", negative, check_negative, 1200, 24000, "templates with bins of negative content"),
    Sub("filled", filled, check_filled, 1000, 20000, "templates of filled histograms"),
]
