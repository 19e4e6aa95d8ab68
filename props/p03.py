"""P03: binning geometry, binned-data round trip and projections."""
import copy

import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import real_edges
from pbt.core import Sub, close, ensure, same
from pbt.gens import axis, count, fixed_list, fl, nbins, num
from pbt import ref
from props.p01 import binning_args

RULE = "non-trivial: at least two bins and, in 2d, different numbers of bins per axis or variable edges"


@st.composite
def geometry(draw):
    dim = draw(st.integers(1, 2))
    return dict(axes=[draw(axis(1, 12, wild=True)) for _ in range(dim)], spec=draw(st.sampled_from(["int", "tuple", "edges", "list"])))


def axis_check(name, ax, got_edges, got_mids, got_widths, got_range):
    want = ref.ref_edges(ax)
    tol = 1e-12 * (np.max(np.abs(want)) + 1e-300)
    close(name + " edges", got_edges, want, rtol=1e-12, atol=tol)
    close(name + " mids", got_mids, [(a + b) / 2 for a, b in zip(want[:-1], want[1:])], rtol=1e-12, atol=tol)
    close(name + " widths", got_widths, [b - a for a, b in zip(want[:-1], want[1:])], rtol=1e-12, atol=4 * tol)
    close(name + " range", np.array([float(v) for v in got_range]), [want[0], want[-1]], rtol=1e-12, atol=tol)


def check_geometry(c, ctx):
    dim = len(c["axes"])
    bins, rng = binning_args(c["axes"], c["spec"], dim)
    n = [nbins(a) for a in c["axes"]]
    h = (tf.Hist1d if dim == 1 else tf.Hist2d)(bins, rng)
    ensure(tuple(h.shape) == tuple(n), "shape %s instead of %s", h.shape, n)
    same("bin counts", h.bin_counts, np.zeros(n))
    same("bin errors", h.bin_errors, np.zeros(n))
    ensure(h.is_empty, "a new histogram is empty")
    if dim == 1:
        ensure(h.num_bins == n[0], "num_bins %s", h.num_bins)
        axis_check("x", c["axes"][0], h.bin_edges, h.bin_mids, h.bin_widths, h.range)
        ctx.hit(n[0] > 1)
    else:
        ensure(tuple(h.num_bins) == tuple(n), "num_bins %s instead of %s", h.num_bins, n)
        ensure(len(h.bin_edges) == 2 and len(h.bin_mids) == 2 and len(h.bin_widths) == 2 and len(h.range) == 2, "two axes")
        for i, nm in enumerate("xy"):
            axis_check(nm, c["axes"][i], h.bin_edges[i], h.bin_mids[i], h.bin_widths[i], h.range[i])
        axis_check("x", c["axes"][0], h.x_edges, h.bin_mids[0], h.bin_widths[0], h.xrange)
        axis_check("y", c["axes"][1], h.y_edges, h.bin_mids[1], h.bin_widths[1], h.yrange)
        ctx.hit(n[0] != n[1] or any("edges" in a for a in c["axes"]))
    ctx.label("dim-%d" % dim, "spec-" + c["spec"])


@st.composite
def binned(draw):
    dim = draw(st.integers(1, 2))
    axes = [draw(axis(1, 10 if dim == 1 else 5)) for _ in range(dim)]
    n = 1
    for a in axes:
        n *= nbins(a)
    return dict(axes=axes, counts=draw(fixed_list(count, n)),
                errs=draw(st.one_of(st.none(), fixed_list(num(0, 50), n))), list=draw(st.booleans()),
                dtypes=draw(st.tuples(st.sampled_from(DTYPES), st.sampled_from(DTYPES)).map(list)))


DTYPES = [None, None, None, "uint8", "int16", "int64", "float32", "list"]


def as_type(a, dtype):
    """The array as another type, and the values it then holds."""
    if a is None or dtype is None:
        return a, a
    if dtype == "list":
        return a.tolist(), a
    if dtype in ("uint8", "int16", "int64"):
        a = np.round(np.abs(a)) % (250 if dtype == "uint8" else 30000 if dtype == "int16" else 2 ** 40)
    x = a.astype(dtype)
    return x, x.astype(float)


def check_binned(c, ctx):
    dim = len(c["axes"])
    edges = real_edges(c["axes"])
    shape = tuple(len(e) - 1 for e in edges)
    cnt = np.array(c["counts"]).reshape(shape)
    err = None if c["errs"] is None else np.array(c["errs"]).reshape(shape)
    cnt_arg, cnt = as_type(cnt, c.get("dtypes", [None, None])[0])
    err_arg, err = as_type(err, c.get("dtypes", [None, None])[1])
    cls = tf.Hist1d if dim == 1 else tf.Hist2d
    if c["list"] and dim == 1:
        h = cls.from_binned_data(copy.copy(cnt_arg), [float(v) for v in edges[0]], *([] if err is None else [err_arg]))
    else:
        h = cls.from_binned_data(copy.copy(cnt_arg), edges[0] if dim == 1 else tuple(edges), *([] if err is None else [err_arg]))
    same("counts", h.bin_counts, cnt)
    want = np.sqrt(cnt) if err is None else err
    close("errors", h.bin_errors, want, rtol=1e-12)
    close("squared errors", h.bin_errors_sq, want ** 2, rtol=1e-12)
    ensure(not h.is_empty, "is_empty")
    ensure(tuple(h.shape) == shape, "shape %s", h.shape)
    for g, e in zip([h.bin_edges] if dim == 1 else h.bin_edges, edges):
        same("edges", g, e)
    # round trip through its own observables
    h2 = cls.from_binned_data(h.bin_counts, h.bin_edges, h.bin_errors)
    same("round trip counts", h2.bin_counts, cnt)
    close("round trip errors", h2.bin_errors, want, rtol=1e-12)
    ensure(h2.range == h.range or np.array_equal(np.asarray(h2.range), np.asarray(h.range)), "round trip range")
    if dim == 2:
        for nm, p, ax, other in (("x", h.x_projection(), 0, 1), ("y", h.y_projection(), 1, 0)):
            ensure(isinstance(p, tf.Hist1d), "%s projection is a %s", nm, type(p))
            close(nm + " projection counts", p.bin_counts, cnt.sum(axis=other), rtol=1e-12)
            close(nm + " projection errors", p.bin_errors, np.sqrt((want ** 2).sum(axis=other)), rtol=1e-12)
            same(nm + " projection edges", p.bin_edges, edges[ax])
            ensure(p.num_bins == shape[ax], "%s projection bins", nm)
            close(nm + " projection range", np.asarray(p.range, dtype=float), [edges[ax][0], edges[ax][-1]], rtol=1e-12, atol=1e-12)
    same("counts after projecting", h.bin_counts, cnt)
    ctx.hit(len(set(shape)) == 2 if dim == 2 else shape[0] > 1)
    ctx.label("dim-%d" % dim, "errs" if err is not None else "sqrt-errs", *["type-%s" % t for t in c.get("dtypes", []) if t])


@st.composite
def proj(draw):
    axes = [draw(axis(1, 6)) for _ in range(2)]
    return dict(axes=axes, n=draw(st.integers(1, 60)), seed=draw(st.integers(0, 2 ** 31)), w=draw(st.booleans()))


def check_proj(c, ctx):
    """Projecting a filled 2d histogram equals filling a 1d histogram with the entries inside the other range."""
    edges = real_edges(c["axes"])
    g = np.random.default_rng(c["seed"])
    cols = [e[0] + (e[-1] - e[0]) * g.uniform(-0.2, 1.2, c["n"]) for e in edges]
    cols = [np.where((x > e[-1]) & (x < e[-1] + 1e-3 * np.min(np.diff(e))), e[0], x) for x, e in zip(cols, edges)]
    w = g.uniform(0.1, 3, c["n"]) if c["w"] else None
    h = tf.Hist2d(tuple(edges), data=(cols[0], cols[1]), weights=w)
    for i, p in enumerate((h.x_projection(), h.y_projection())):
        o = 1 - i
        m = (cols[o] >= edges[o][0]) & (cols[o] <= edges[o][-1])
        q = tf.Hist1d(edges[i], data=cols[i][m], weights=None if w is None else w[m])
        close("projection %d counts" % i, p.bin_counts, q.bin_counts, rtol=1e-11, atol=1e-11)
        close("projection %d errors" % i, p.bin_errors, q.bin_errors, rtol=1e-11, atol=1e-11)
    ctx.hit(len(edges[0]) != len(edges[1]) and c["n"] > 5)


SUBS = [
    Sub("geometry", geometry, check_geometry, 2500, 50000, "binning definitions against the even division / given edges",
        corpus=[dict(axes=[dict(edges=[0.0, 1.0, 3.0])], spec="list")]),
    Sub("binned", binned, check_binned, 2500, 50000, "binned data round trip and projections"),
    Sub("projection", proj, check_proj, 1500, 30000, "projection of filled 2d histograms against 1d filling"),
]
