"""Structured generators; every strategy produces plain JSON-able values."""
from hypothesis import strategies as st

INF = float("inf")


def fl(lo, hi):
    """Floats in [lo, hi]; absurdly small magnitudes (relative to the interval) become zero."""
    f = st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)
    if lo <= 0 <= hi:
        cut = 1e-9 * max(abs(lo), abs(hi))
        f = f.map(lambda v: v if abs(v) >= cut else 0.0)
    return f


def num(lo, hi):
    """Mix of round and arbitrary numbers in [lo, hi]."""
    import math
    a, b = math.ceil(lo), math.floor(hi)
    opts = [fl(lo, hi)]
    if a <= b:
        opts.append(st.integers(a, b).map(float))
    return st.one_of(*opts)


def fixed_list(elem, n):
    return st.lists(elem, min_size=n, max_size=n)


@st.composite
def axis(draw, min_bins=1, max_bins=8, wild=False):
    """One axis binning."""
    n = draw(st.integers(min_bins, max_bins))
    lo = draw(st.one_of(st.sampled_from([0.0, -1.0, 1.0, -3.0, 10.0]), num(-50, 50)))
    if wild:
        scale = draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e4, 1e-9]))
        lo = lo * scale
        if draw(st.integers(0, 5)) == 0:  # narrow compared to its position
            lo += draw(st.sampled_from([1e4, -1e4])) * scale
    else:
        scale = 1.0
    if draw(st.booleans()):
        w = draw(st.one_of(st.sampled_from([1.0, 2.0, 0.5, 10.0]), num(0.1, 40)))
        return dict(n=n, lo=lo, hi=lo + w * scale)
    if draw(st.integers(0, 3)) == 0:  # nearly equal widths
        w, d = draw(st.sampled_from([1.0, 0.5, 4.0])), draw(st.sampled_from([1e-2, 1e-3, 1e-1]))
        widths = [w * (1 + d * k) for k in draw(fixed_list(st.integers(-3, 3), n))]
    else:
        widths = draw(fixed_list(st.one_of(st.sampled_from([1.0, 0.5, 2.0, 0.1]), num(0.05, 20)), n))
    e = [lo]
    for w in widths:
        e.append(e[-1] + w * scale)
    return dict(edges=e)


def nbins(ax):
    return ax["n"] if "n" in ax else len(ax["edges"]) - 1


extreme = st.sampled_from([1e-3, 1e5, 1e-6, 1e7, 2.5e-9])
count = st.one_of(st.just(0.0), st.integers(0, 60).map(float), st.integers(0, 60).map(float), fl(0.01, 1e4), fl(0.01, 1e4), fl(0.01, 1e4), extreme)
pos_count = st.one_of(st.integers(1, 200).map(float), fl(0.5, 2e3))


def exact(ws):
    """Event weights rounded such that their sums carry no rounding error, in whatever way a histogram adds them up
    (numpy.histogram, for example, takes differences of cumulative sums)."""
    import math
    tot = sum(abs(w) for w in ws)
    if not tot:
        return ws
    q = 2.0 ** (math.frexp(tot)[1] - 51)
    return [round(w / q) * q for w in ws]


@st.composite
def systs(draw, counts, allow_cov=True, max_n=3):
    out = []
    for _ in range(draw(st.integers(0, max_n))):
        n = len(counts)
        if allow_cov and draw(st.integers(0, 2)) == 0:
            k = draw(st.integers(1, 2))
            a = draw(fixed_list(fixed_list(fl(-0.4, 0.4), k), n))
            out.append(dict(kind="cov", a=[[v * (c if c > 0 else 1.0) for v in row] for row, c in zip(a, counts)]))
        else:
            su = draw(fixed_list(st.one_of(st.just(0.0), fl(-0.5, 0.5)), n))
            sd = draw(fixed_list(st.one_of(st.just(0.0), fl(-0.5, 0.5)), n))
            mode = draw(st.integers(0, 2))
            if mode == 0:
                sd = [-v for v in su]
            base = [c if c > 0 else draw(st.sampled_from([0.0, 1.0, 3.0])) for c in counts]
            out.append(dict(kind="ud", up=exact([b * (1 + v) for b, v in zip(base, su)]),
                            down=exact([b * (1 + v) for b, v in zip(base, sd)])))
    return out


@st.composite
def template_spec(draw, axes, elem=count, allow_cov=None, max_systs=2):
    n = 1
    for a in axes:
        n *= nbins(a)
    counts = draw(fixed_list(elem, n))
    mode = draw(st.integers(0, 2))
    errs = None
    if mode == 1:
        rel = draw(fixed_list(fl(0.005, 0.5), n))
        errs = [c * r for c, r in zip(counts, rel)]
    elif mode == 2:
        errs = draw(fixed_list(st.one_of(st.just(0.0), fl(0.001, 20)), n))
    if allow_cov is None:
        allow_cov = len(axes) == 1
    return dict(counts=counts, errs=errs, systs=draw(systs(counts, allow_cov and len(axes) == 1, max_systs)))


@st.composite
def neg_template_spec(draw, axes, max_systs=2):
    """Templates with negative bins (negative event weights) and a clearly positive sum."""
    n = 1
    for a in axes:
        n *= nbins(a)
    counts = draw(fixed_list(st.one_of(st.integers(1, 60).map(float), fl(0.5, 500), st.just(0.0)), n))
    counts[draw(st.integers(0, n - 1))] += 20.0
    budget = 0.4 * sum(counts)
    for i in draw(st.permutations(range(n)))[:draw(st.integers(1, n))]:
        if 2 * counts[i] < budget:
            budget -= 2 * counts[i]
            counts[i] = -counts[i]
    errs = [draw(st.one_of(st.just(0.0), fl(0.01, 0.5))) * max(abs(c), 1.0) for c in counts]
    out = []
    for _ in range(draw(st.integers(0, max_systs))):
        if len(axes) == 1 and draw(st.booleans()):
            a = draw(fixed_list(fixed_list(fl(-0.4, 0.4), 2), n))
            out.append(dict(kind="cov", a=[[v * max(abs(c), 1.0) for v in row] for row, c in zip(a, counts)]))
        else:
            sh = [draw(fixed_list(st.one_of(st.just(0.0), fl(-0.5, 0.5)), n)) for _ in range(2)]
            out.append(dict(kind="ud", up=exact([c + v * max(abs(c), 1.0) for c, v in zip(counts, sh[0])]),
                            down=exact([c + v * max(abs(c), 1.0) for c, v in zip(counts, sh[1])])))
    return dict(counts=counts, errs=errs, systs=out)


NAMES = ["sig", "bkg", "tau", "D star", "B_x", "qq"]
CNAMES = ["c", "el", "mu", "ch_1", "low q2"]

EFFS = st.one_of(st.just(1.0), st.just(1.0), fl(0.01, 1.5), fl(0.01, 1.5), st.sampled_from([1, 2, 30.0, 1e-4]))
# a process may be invisible in a channel
EFFS0 = st.one_of(EFFS, EFFS, st.just(0.0))


@st.composite
def model_spec(draw, max_ch=3, max_proc=4, max_bins=5, dims=(1, 1, 2), elem=count, effs=EFFS, max_systs=2,
               missing=True, constr=True, empty_process=True, data_elem=None):
    np_ = draw(st.sampled_from([n for n in (2, 1, 3, 2, 3, 4) if n <= max_proc]))
    nch = draw(st.sampled_from([n for n in (1, 2, 2, 3) if n <= max_ch]))
    # now and then larger models: many bins, processes or channels
    big = draw(st.integers(0, 19))
    if big == 0 and max_bins >= 4:
        np_, nch, max_bins = min(np_, 2), min(nch, 2), 12
    elif big == 1 and max_proc >= 3:
        np_, nch, max_bins = 6, min(nch, 2), 3
    elif big == 2 and max_ch >= 2:
        np_, nch, max_bins = min(np_, 2), draw(st.integers(4, 5)), 3
    procs = draw(st.permutations(NAMES))[:np_]
    cn = draw(st.permutations(CNAMES))[:nch]
    chans = []
    for c in cn:
        dim = draw(st.sampled_from(dims))
        mb = max_bins if dim == 1 else max(2, max_bins // 2)
        axes = [draw(axis(1, mb)) for _ in range(dim)]
        order = draw(st.permutations(procs))
        if missing and len(order) > 1 and draw(st.booleans()):
            order = order[:draw(st.integers(1, len(order)))]
        temps = []
        for p in order:
            t = draw(template_spec(axes, elem, max_systs=max_systs))
            t["p"] = p
            t["name"] = draw(st.sampled_from([p, p, "template", c]))
            t["eff"] = draw(effs)
            temps.append(t)
        n = 1
        for a in axes:
            n *= nbins(a)
        data = draw(fixed_list(data_elem if data_elem is not None else st.one_of(
            st.just(0.0), st.integers(0, 300).map(float), st.integers(0, 300).map(float), fl(0, 500), fl(0, 500),
            st.sampled_from([1e-7, 1e-3, 1e5, 1e-12])), n))
        chans.append(dict(name=c, axes=axes, temps=temps, data=data))
    used = {t["p"] for c in chans for t in c["temps"]}
    if not empty_process:
        procs = [p for p in procs if p in used]
    cons = []
    if constr:
        for _ in range(draw(st.integers(0, 2))):
            # yields in events, now and then very large ones or in units of a branching fraction
            cons.append([draw(st.sampled_from(procs)), *draw(st.one_of(st.tuples(num(0, 2000), fl(0.5, 300)), st.tuples(num(0, 2000), fl(0.5, 300)),
                                                                       st.tuples(fl(1e4, 1e7), fl(1e3, 1e5)), st.tuples(fl(0, 1), fl(1e-3, 0.5))))])
    return dict(procs=procs, chans=chans, constr=cons)


def raw_params(procs, n_nui):
    """Yields and raw nuisance values (clipped later so that the expectation stays positive)."""
    return st.fixed_dictionaries(dict(
        y=fixed_list(st.one_of(num(0.1, 500), num(0.1, 500), fl(0.1, 1e4), fl(0.1, 1e4), st.one_of(fl(1e-3, 0.9), fl(1e5, 1e7))), procs),
        t=fixed_list(st.one_of(st.just(0.0), fl(-3, 3), fl(-3, 3), fl(-3, 3), fl(-40, 40)), n_nui)))


def n_nui(spec):
    tot = 0
    for c in spec["chans"]:
        n = 1
        for a in c["axes"]:
            n *= nbins(a)
        tot += n * len(c["temps"])
    return tot


@st.composite
def model_and_params(draw, npoints=1, **kw):
    spec = draw(model_spec(**kw))
    pts = [draw(raw_params(len(spec["procs"]), n_nui(spec))) for _ in range(npoints)]
    return dict(model=spec, points=pts)
