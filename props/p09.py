"""P09: the likelihood value equals its defining formula."""
import numpy as np
from hypothesis import strategies as st

from pbt.build import Pair, nll_tol
from pbt.core import Sub, close, ensure
from pbt.gens import fl, model_and_params, num

RULE = "non-trivial: at least two processes in a channel, at least two bins with expectation and data, and a non-zero nuisance parameter"


@st.composite
def case(draw):
    c = draw(model_and_params(npoints=2))
    k = draw(st.sampled_from(["own", "own", "near", "near", "int"]))
    if k == "near":
        c["near"] = draw(st.sampled_from([0.0, 1e-12, 1e-8, 1e-5, 1e-3, 0.3]))
    elif k == "int":
        c["int"] = True
    c["redefine"] = draw(st.booleans())
    c["neg"] = draw(st.one_of(st.none(), st.tuples(st.integers(0, 5), st.sampled_from([-0.3, -1.0, -3.0])).map(list)))
    return c


def check(c, ctx):
    spec = c["model"]
    pr = Pair(spec)
    m, r = pr.m, pr.r
    x = pr.vector(c["points"][0])
    if "near" in c:  # data close to the expectation: cancellation
        for cn in r.channels:
            e = r.expectation(x, cn)
            f = 1 + c["near"] * np.array([(-1) ** i * (1 + i % 3) for i in range(len(e))]) / 3
            pr.set_data(cn, e * f)
        ctx.label("near-expectation")
    elif "int" in c:
        for cn in r.channels:
            pr.set_data(cn, np.round(r.channels[cn]["data"]))
    nll = m.create_nll()
    for i, pt in enumerate(c["points"]):
        x = pr.vector(pt)
        if all(np.all(r.expectation(x, cn)[pr.support(cn)] > 1e-8) for cn in r.channels):
            close("negative log likelihood at point %d" % i, nll(x), r.nll(x), rtol=1e-10, atol=nll_tol(r, x))
            y, nui = r.split(x)
            multi = any(len(ch["t"]) > 1 and np.sum((r.expectation(x, cn) > 0) & (np.ravel(ch["data"]) > 0)) > 1
                        for cn, ch in r.channels.items())
            ctx.hit(multi and np.any(x[len(r.processes):] != 0))
            ctx.label("evaluated")
        x = np.concatenate([x[:len(r.processes)], np.zeros(len(x) - len(r.processes))])
        if all(np.all(r.expectation(x, cn)[pr.support(cn)] > 1e-8) for cn in r.channels):
            close("negative log likelihood without nuisance parameters at point %d" % i, nll(x), r.nll(x), rtol=1e-10, atol=nll_tol(r, x))
    if c.get("neg") is not None:
        # a negative yield: bins where it makes the expectation negative have no data
        x = pr.vector(c["points"][0])
        x[c["neg"][0] % len(r.processes)] *= c["neg"][1]
        below = False
        for cn in r.channels:
            e = r.expectation(x, cn)
            ok = e > 1e-6 * np.max(np.abs(e), initial=1e-300)
            below = below or np.any(e[~ok] < 0)
            pr.set_data(cn, np.where(ok, np.ravel(r.channels[cn]["data"]), 0.0))
        close("negative log likelihood with a negative yield", nll(x), r.nll(x), rtol=1e-10, atol=nll_tol(r, x))
        if below:
            ctx.label("negative-expectation")
    if any(p in [q[0] for q in spec["constr"]] for p in r.processes):
        ctx.label("constraint")
    if len([q[0] for q in spec["constr"]]) > len(r.constraints):
        ctx.label("redefined-constraint")
    for cn, ch in r.channels.items():
        if np.any((ch["data"] == 0) & pr.support(cn)):
            ctx.label("empty-data-bin")
        if any(t.systs for t in ch["t"].values()):
            ctx.label("systematics")
        if len(ch["axes"] if "axes" in ch else pr.axes[cn]) == 2:
            ctx.label("2d")
    ctx.label("channels-%d" % len(r.channels))


@st.composite
def grid(draw):
    """Small models without systematics: the value in closed form over many exact points."""
    n = draw(st.integers(1, 4))
    return dict(a=draw(st.lists(st.integers(1, 30), min_size=n, max_size=n)), b=draw(st.lists(st.integers(0, 30), min_size=n, max_size=n)),
                d=draw(st.lists(st.integers(0, 60), min_size=n, max_size=n)), ya=draw(fl(0.1, 200)), yb=draw(fl(0.1, 200)),
                ea=draw(fl(0.05, 1)), eb=draw(fl(0.05, 1)))


def check_grid(c, ctx):
    """Against the Poisson probabilities: nll equals -log L + log L(saturated)."""
    import templatefitter as tf
    from scipy.stats import poisson
    n = len(c["a"])
    e = np.linspace(0, 1, n + 1)
    m = tf.MultiChannelTemplate()
    m.define_channel("c", n, (0.0, 1.0))
    for p, k, f in (("a", "a", "ea"), ("b", "b", "eb")):
        m.define_process(p)
        if sum(c[k]):
            m.add_template("c", p, tf.Template1d(p, "x", tf.Hist1d.from_binned_data(np.array(c[k]), e)), c[f])
    m.add_data(c=tf.Hist1d.from_binned_data(np.array(c["d"]), e))
    x = np.concatenate([[c["ya"], c["yb"]], np.zeros(m.num_nui_params)])
    nu = c["ya"] * c["ea"] * np.array(c["a"]) / sum(c["a"])
    if sum(c["b"]):
        nu = nu + c["yb"] * c["eb"] * np.array(c["b"]) / sum(c["b"])
    d = np.array(c["d"])
    want = -np.sum(poisson.logpmf(d, nu)) + np.sum(poisson.logpmf(d[d > 0], d[d > 0]))
    close("negative log likelihood against Poisson probabilities", m.create_nll()(x), want, rtol=1e-9, atol=1e-9)
    ctx.hit(n > 1 and np.sum(d) > 0)


SUBS = [
    Sub("formula", case, check, 3000, 60000, "generated models, data and parameters against the formula",),
    Sub("poisson", grid, check_grid, 1500, 30000, "integer data against ratios of Poisson probabilities"),
]
