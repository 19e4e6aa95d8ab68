"""P12: Asimov data equal the expectation and toy data are Poisson draws of it."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import poisson

from pbt.build import Pair, diff, nll_tol, real_edges, snapshot
from pbt.core import Sub, close, ensure, equal, same
from pbt.gens import count, fl, model_and_params, model_spec, n_nui, num, raw_params

RULE = "non-trivial: at least two bins with positive expectation and parameters that differ from the initial ones"
ALPHA = 1e-11  # probability below which a sum of draws counts as wrong
SIGMA = 7.5


def check_hist(what, h, axes, counts, rtol=1e-9):
    edges = real_edges(axes)
    shape = tuple(len(e) - 1 for e in edges)
    equal(what + " shape", tuple(h.shape), shape)
    equal(what + " shape of the counts", np.shape(h.bin_counts), shape)
    equal(what + " shape of the errors", np.shape(h.bin_errors_sq), shape)
    got = h.bin_edges if len(edges) > 1 else [h.bin_edges]
    for a, b in zip(got, edges):
        close(what + " edges", a, b, rtol=1e-12, atol=1e-12 * (b[-1] - b[0]))
    close(what + " counts", np.ravel(h.bin_counts), counts, rtol=rtol)
    close(what + " squared errors", np.ravel(h.bin_errors_sq), np.abs(counts), rtol=1e-9)


def check_asimov(c, ctx):
    pr = Pair(c["model"], data=c["data"])
    m, r = pr.m, pr.r
    for i, pt in enumerate([None] + c["points"]):
        if pt is not None:
            x = pr.vector(pt)
            m.update_parameters(x)
            r.update(x)
        before = snapshot(m)
        for integer in ((False, True) if i % 2 else (True, False)):
            a = m.generate_asimov_dataset(integer_values=integer) if integer or i % 2 else m.generate_asimov_dataset()
            equal("channels of the dataset", sorted(a), sorted(r.channels))
            for cn in r.channels:
                one = m.channels[cn].generate_asimov_dataset(integer) if integer else m.channels[cn].generate_asimov_dataset()
                same("Asimov data generated by %s itself" % cn, one.bin_counts, a[cn].bin_counts)
                check_hist("Asimov data generated by %s itself" % cn, one, pr.axes[cn], np.ravel(a[cn].bin_counts), rtol=0)
                v = r.values(cn)
                if integer:
                    # values within rounding of a half may go either way
                    half = np.abs(v - np.floor(v) - 0.5) < 1e-8 * (1 + v)
                    got = np.ravel(a[cn].bin_counts)
                    want = np.where(half, got, np.round(v))
                    ensure(np.all(np.abs(got - v) <= 0.5 + 1e-7 * (1 + v)), "rounded data %s for %s", got, v)
                    check_hist("rounded Asimov data of %s" % cn, a[cn], pr.axes[cn], want, rtol=0)
                else:
                    check_hist("Asimov data of %s" % cn, a[cn], pr.axes[cn], v)
            d = diff(before, snapshot(m))
            ensure(d is None, "generating Asimov data changed the model: %s", d)
    a = m.generate_asimov_dataset()
    m.add_data(**a)
    for cn, ch in r.channels.items():
        same("data of %s after adding the Asimov data" % cn, np.ravel(m.channels[cn].data_bin_counts), np.ravel(a[cn].bin_counts))
        ch["data"] = np.ravel(a[cn].bin_counts).copy()
    # data do not follow the parameters afterwards
    m.reset_parameters()
    for cn, ch in r.channels.items():
        same("Asimov data of %s after a reset" % cn, np.ravel(m.channels[cn].data_bin_counts), ch["data"])
    tot = sum(int(np.sum(r.values(cn) > 0)) for cn in r.channels)
    ctx.hit(tot > 1)
    ctx.label("channels-%d" % len(r.channels))


@st.composite
def asimov_case(draw):
    c = draw(model_and_params(npoints=2))
    c["data"] = draw(st.booleans())
    return c


@st.composite
def toy_case(draw):
    elem = st.one_of(st.just(0.0), fl(0.05, 40), fl(1, 500))
    c = draw(model_spec(max_ch=2, max_proc=3, max_bins=4, elem=elem, max_systs=1, constr=False))
    for ch in c["chans"]:
        del ch["data"]
    k = draw(st.sampled_from(["yields", "fractions"]))
    return dict(model=c, y=[draw(fl(0.2, 60)) for _ in c["procs"]], t=draw(raw_params(1, n_nui(c)))["t"], k=k, data=draw(st.booleans()))


N = 1200


def judge(draws, v, what):
    n = len(draws)
    s = draws.sum(axis=0)
    lo, hi = poisson.cdf(s, n * v), poisson.sf(s - 1, n * v)
    bad = (np.minimum(lo, hi) < ALPHA) & (v > 0)
    ensure(not np.any(bad), "%s: mean of %d draws %s for expectation %s", what, n, s / n, v)
    ensure(np.all(draws[:, v == 0] == 0), "%s: entries in bins without expectation", what)
    big = v >= 4
    if not np.any(big):
        return
    z = (draws[:, big] - v[big]) / np.sqrt(v[big])
    var = np.mean(z ** 2, axis=0)
    err = np.sqrt((2 + 1 / v[big]) / n)
    ensure(np.all(np.abs(var - 1) < SIGMA * err), "%s: variance over expectation %s", what, var)
    corr = z.T @ z / n
    off = corr - np.diag(np.diag(corr))
    ensure(np.all(np.abs(off) < SIGMA / np.sqrt(n)), "%s: correlated bins %s", what, corr)
    lag = z[1:].T @ z[:-1] / (n - 1)
    ensure(np.all(np.abs(lag) < SIGMA / np.sqrt(n - 1)), "%s: correlated draws %s", what, lag)
    tot = v.sum()
    same_ = float(np.mean(np.all(draws[1:] == draws[:-1], axis=1)))
    p = float(np.prod(np.sum([poisson.pmf(k, v[big]) ** 2 for k in range(int(v.max() * 3) + 20)], axis=0)))
    ensure(same_ <= p + SIGMA * np.sqrt(p * (1 - p) / n) + 5.0 / n, "%s: %.0f%% of the draws repeat the previous one", what, 100 * same_)


def check_toy(c, ctx):
    pr = Pair(c["model"], data=False)
    m, r = pr.m, pr.r
    x = pr.vector(dict(y=c["y"], t=c["t"]))
    names = list(r.channels)
    if c.get("data"):
        m.add_data(**m.generate_asimov_dataset(integer_values=True))
    for step in range(2):
        before = snapshot(m)
        v = np.concatenate([r.values(cn) for cn in names])
        draws = []
        for i in range(N):
            # every other dataset is put together from the single channels
            toy = {cn: m.channels[cn].generate_toy_dataset() for cn in names} if i % 2 else m.generate_toy_dataset()
            draws.append(np.concatenate([np.ravel(toy[cn].bin_counts) for cn in names]))
            if i == 0:
                equal("channels of the dataset", sorted(toy), sorted(names))
                for cn in names:
                    check_hist("toy data of " + cn, toy[cn], pr.axes[cn], np.ravel(toy[cn].bin_counts))
                first = toy
        draws = np.array(draws, dtype=float)
        ensure(np.all(draws >= 0) and np.all(draws == np.round(draws)), "toy counts are not non-negative integers")
        d = diff(before, snapshot(m))
        ensure(d is None, "generating toy data changed the model: %s", d)
        judge(draws, v, "toy data at %s parameters" % ("initial", "updated")[step])
        ctx.hit(step == 1 and np.sum(v > 0) > 1)
        if step == 1:
            m.add_data(**first)
            for cn in names:
                same("data of %s after adding the toy data" % cn, m.channels[cn].data_bin_counts, first[cn].bin_counts)
        else:
            m.update_parameters(x)
            r.update(x)
    ctx.label("channels-%d" % len(names))


SUBS = [
    Sub("asimov", asimov_case, check_asimov, 2000, 40000, "Asimov data of generated models at several parameter points"),
    Sub("toys", toy_case, check_toy, 96, 2400, "%d toy datasets per parameter point of generated models" % N),
]
