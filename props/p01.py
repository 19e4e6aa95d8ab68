"""P01: a filled histogram holds the exact per-bin weight sums."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import templatefitter as tf
from pbt import ref
from pbt.core import Sub, close, ensure
from pbt.gens import axis, fl, nbins, num
from pbt.build import real_edges

RULE = "a case is non-trivial if at least one entry lands in a bin and one on an edge or outside the range"

INT_DTYPES = ["int64", "int32", "uint8", "int16"]


@st.composite
def coord(draw, e):
    """A value related to the edges e: inside, on an edge, outside, not finite."""
    k = draw(st.integers(0, 9))
    lo, hi = e[0], e[-1]
    w = hi - lo
    if k <= 4:
        return min(hi, lo + w * draw(fl(0, 1)))
    if k <= 6:
        return draw(st.sampled_from(list(e)))
    if k == 7:
        return lo - w * draw(fl(1e-3, 2))
    if k == 8:
        return hi + w * draw(fl(1e-3, 2))
    return draw(st.sampled_from([float("nan"), float("inf"), float("-inf"), lo - 1e-9 * w, lo]))


@st.composite
def case(draw, dim):
    axes = [draw(axis(1, 8 if dim == 1 else 4, wild=True)) for _ in range(dim)]
    es = [[float(v) for v in e] for e in real_edges(axes)]
    n = draw(st.integers(0, 25))
    pts = [[draw(coord(e)) for e in es] for _ in range(n)]
    kind = draw(st.sampled_from(["none", "float", "signed", "int", "equal", "wide"]))
    dtype = None
    if kind == "none":
        w = None
    elif kind == "float":
        w = draw(st.lists(num(0, 10), min_size=n, max_size=n))
    elif kind == "signed":
        w = draw(st.lists(num(-10, 10), min_size=n, max_size=n))
    elif kind == "equal":
        w = [draw(num(0.1, 10))] * n
    elif kind == "wide":
        w = draw(st.lists(st.sampled_from([1e-8, 1e-3, 1.0, 250.0, 3e4]), min_size=n, max_size=n))
    else:
        w = draw(st.lists(st.integers(0, 100), min_size=n, max_size=n))
        dtype = draw(st.sampled_from(INT_DTYPES))
    return dict(axes=axes, pts=pts, w=w, wkind=kind, dtype=dtype,
                dcont=draw(st.sampled_from(["array", "list", "tuple", "series", "f32"] if dim == 1 else
                                           ["array", "list", "tuple", "series", "array2"])),
                wcont=draw(st.sampled_from(["array", "list", "tuple", "series"])),
                how=draw(st.sampled_from(["ctor", "fill"])),
                spec=draw(st.sampled_from(["int", "tuple", "edges", "list"])))


def container(x, kind, dtype=None, start=3):
    a = np.array(x, dtype=dtype if dtype else float)
    if kind == "list":
        return a.tolist()
    if kind == "tuple":
        return tuple(a.tolist())
    if kind == "series":
        return pd.Series(a, index=range(len(a) + start, start, -1))
    return a


def binning_args(axes, spec, dim):
    """bins, range for the constructor."""
    edges = real_edges(axes)
    equal = all("n" in a for a in axes)
    if equal and spec in ("int", "tuple"):
        rng = [(a["lo"], a["hi"]) for a in axes]
        bins = [a["n"] for a in axes]
        if dim == 1:
            return (bins[0] if spec == "int" else (bins[0],)), rng[0]
        return tuple(bins), tuple(rng)
    if spec == "list":
        edges = [list(map(float, e)) for e in edges]
    if dim == 1:
        return edges[0], None
    return (tuple(edges) if spec == "edges" else list(edges)), None


def check(c, ctx):
    dim = len(c["axes"])
    edges = real_edges(c["axes"])
    pts = c["pts"]
    cols = [[p[d] for p in pts] for d in range(dim)]
    dcont = c["dcont"]
    if dcont == "f32":
        # single precision: values at rounding distance from an edge may fall on either side
        e = edges[0]
        tol = 1e-3 * np.min(np.diff(e)) + 1e-6 * np.max(np.abs(e))
        cols = [[float(np.float32(v)) for v in cols[0]]]
        if any(np.isfinite(v) and np.min(np.abs(v - e)) < tol for v in cols[0]):
            mid = float(np.float32(0.5 * (e[0] + e[1])))
            if np.min(np.abs(mid - e)) < tol:
                return
            cols = [[v if not np.isfinite(v) or np.min(np.abs(v - e)) >= tol else mid for v in cols[0]]]
        data = np.array(cols[0], dtype=np.float32)
    elif dim == 1:
        data = container(cols[0], dcont)
    elif dcont == "array2":
        data = np.array(cols, dtype=float).reshape(2, len(pts))
    else:
        data = tuple(container(col, dcont, start=3 - 2 * d) for d, col in enumerate(cols))
        if dcont == "list":
            data = list(data)
    weights = None if c["w"] is None else container(c["w"], c["wcont"], c["dtype"], start=len(pts) % 4)

    bins, rng = binning_args(c["axes"], c["spec"], dim)
    cls = tf.Hist1d if dim == 1 else tf.Hist2d
    if c["how"] == "ctor":
        h = cls(bins, rng, data=data, weights=weights)
    else:
        h = cls(bins, rng)
        h.fill(data) if weights is None else h.fill(data, weights)

    got_edges = [h.bin_edges] if dim == 1 else list(h.bin_edges)
    ensure(len(got_edges) == dim, "number of axes")
    for g, e in zip(got_edges, edges):
        close("bin edges", g, e, rtol=1e-12, atol=1e-12 * (abs(e[-1]) + abs(e[0])))
    # entries are compared with the edges the histogram reports
    rpts = list(zip(*cols)) if pts else []
    w = [1.0] * len(pts) if c["w"] is None else [float(v) for v in c["w"]]
    counts, errsq, scale = ref.ref_fill([np.asarray(g, dtype=float) for g in got_edges], rpts, w)
    # rounding may depend on all the weights (differences of cumulative sums)
    noise = 1e-14 * sum(abs(v) for v in w)
    noise2 = 1e-14 * sum(v * v for v in w)
    close("bin counts", h.bin_counts, counts, rtol=1e-12, atol=1e-12 * scale + noise)
    close("squared bin errors", h.bin_errors_sq, errsq, rtol=1e-12, atol=noise2)
    close("bin errors", h.bin_errors, np.sqrt(np.asarray(h.bin_errors_sq, dtype=float)), rtol=1e-12)
    ensure(h.is_empty is False or h.is_empty == False, "a filled histogram reports itself as empty")  # noqa

    inside = np.sum(scale > 0)
    special = any(v in e or not (e[0] <= v <= e[-1]) for col, e in zip(cols, [list(x) for x in edges]) for v in col)
    ctx.hit(inside > 0 and special)
    ctx.label("weights-" + c["wkind"], "data-" + dcont, "spec-" + c["spec"])
    if any("edges" in a for a in c["axes"]):
        ctx.label("variable-edges")


@st.composite
def bulk(draw):
    dim = draw(st.integers(1, 2))
    axes = [draw(axis(1, 40 if dim == 1 else 12, wild=True)) for _ in range(dim)]
    return dict(axes=axes, n=draw(st.sampled_from([50, 500, 3000, 500, 3000, 70000, 20000, 280000])), seed=draw(st.integers(0, 2 ** 31)),
                w=draw(st.sampled_from(["none", "unif", "signed", "int", "large"])))


def check_bulk(c, ctx):
    """Large samples against numpy's independent histogram implementation."""
    dim = len(c["axes"])
    edges = real_edges(c["axes"])
    g = np.random.default_rng(c["seed"])
    cols = [e[0] + (e[-1] - e[0]) * g.uniform(-0.2, 1.2, c["n"]) for e in edges]
    cols = [np.where((x > e[-1]) & (x < e[-1] + 1e-3 * np.min(np.diff(e))), e[0], x) for x, e in zip(cols, edges)]
    w = dict(none=None, unif=g.uniform(0, 2, c["n"]), signed=g.normal(0, 1, c["n"]),
             int=g.integers(0, 120, c["n"]).astype("uint8"), large=g.exponential(1e6, c["n"]))[c["w"]]
    bins, rng = binning_args(c["axes"], "int", dim)
    cls = tf.Hist1d if dim == 1 else tf.Hist2d
    h = cls(bins, rng, data=cols[0] if dim == 1 else (cols[0], cols[1]), weights=w)
    ed = [np.asarray(h.bin_edges)] if dim == 1 else [np.asarray(e) for e in h.bin_edges]
    wf = np.ones(c["n"]) if w is None else w.astype(float)
    want = np.histogramdd(np.array(cols).T, bins=ed, weights=wf)[0]
    want2 = np.histogramdd(np.array(cols).T, bins=ed, weights=wf ** 2)[0]
    scale = np.histogramdd(np.array(cols).T, bins=ed, weights=np.abs(wf))[0]
    close("bin counts", h.bin_counts, want, rtol=1e-10, atol=1e-10 * scale + 1e-13 * np.sum(np.abs(wf)))
    close("squared bin errors", h.bin_errors_sq, want2, rtol=1e-10, atol=1e-13 * np.sum(wf ** 2))
    ctx.hit(True)
    ctx.label("w-" + c["w"], "dim-%d" % dim)


SUBS = [
    Sub("fill1d", lambda: case(1), check, 4000, 80000, "1d entries (lists of points related to the edges) against exact sums",
        corpus=[dict(axes=[dict(n=2, lo=0.0, hi=2.0)], pts=[[0.5], [0.6], [2.0]], w=[20, 20, 3], wkind="int", dtype="uint8",
                     dcont="array", wcont="array", how="ctor", spec="int"),
                dict(axes=[dict(n=2, lo=0.0, hi=2.0)], pts=[[0.5], [1.0]], w=[1.5, 2.0], wkind="float", dtype=None,
                     dcont="list", wcont="tuple", how="fill", spec="list")]),
    Sub("fill2d", lambda: case(2), check, 4000, 80000, "2d entries against exact sums",
        corpus=[dict(axes=[dict(n=2, lo=0.0, hi=2.0), dict(n=1, lo=0.0, hi=1.0)], pts=[], w=None, wkind="none", dtype=None,
                     dcont="array", wcont="array", how="fill", spec="int")]),
    Sub("bulk", bulk, check_bulk, 600, 10000, "large random samples against numpy's histogramdd"),
]
