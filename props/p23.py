"""P23: plots show the current values, uncertainties and data."""
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from matplotlib.collections import QuadMesh
from matplotlib.colors import to_rgba
from matplotlib.container import ErrorbarContainer
from matplotlib.patches import Polygon, Rectangle

import templatefitter as tf
from pbt.build import diff, hist_from, real_edges, snapshot, template_from, template_state
from pbt.core import Sub, close, ensure, equal, fail, raises
from pbt.gens import CNAMES, NAMES, axis, fixed_list, fl, nbins, num, pos_count, template_spec
from props import p24
from props.p22 import reference

COLORS = [None, None, "red", "#00ff7f", "C3", "0.5", [0.1, 0.2, 0.7]]
PRETTY = [None, None, "Signal $B$", "nice label", "background"]
counts_elem = st.one_of(st.just(0.0), pos_count, fl(0.01, 1e4))


# ------------------------------------------------------------------ reading a figure
class Drawn:
    """What an axis shows: filled histograms by label, bars, error bars."""

    def __init__(self, ax):
        self.fills, self.bars = [], []
        for p in ax.patches:
            if isinstance(p, Rectangle):
                self.bars.append(p)
            elif isinstance(p, Polygon):
                self.fills.append(p)
        self.errorbars = [c for c in ax.containers if isinstance(c, ErrorbarContainer)]


def extent(poly, xs):
    """Vertical extent of a filled step polygon at each x."""
    v = np.array(poly.get_xy(), dtype=float)
    if not np.array_equal(v[0], v[-1]):
        v = np.vstack([v, v[0]])
    out = []
    for x in xs:
        ys = []
        for (xa, ya), (xb, yb) in zip(v[:-1], v[1:]):
            if min(xa, xb) <= x <= max(xa, xb) and xa != xb:
                if not abs(ya - yb) <= 1e-9 * (abs(ya) + abs(yb)):
                    fail("the outline of a histogram is not flat within the bin at %r" % x)
                ys.append((ya + yb) / 2)
        ensure(len(ys) >= 2, "a filled histogram does not cover x=%r", x)
        out.append((min(ys), max(ys)))
    return np.array(out).reshape(len(xs), 2)


def check_fill(name, poly, edges, lower, upper):
    mids = (edges[1:] + edges[:-1]) / 2
    tol = 1e-9 * (1e-9 + np.max(np.abs([lower, upper])))
    e = extent(poly, mids)
    close(name + ": lower end", e[:, 0], lower, rtol=1e-9, atol=tol)
    close(name + ": upper end", e[:, 1], upper, rtol=1e-9, atol=tol)
    xs = np.unique(np.array(poly.get_xy(), dtype=float)[:, 0])
    w = edges[-1] - edges[0]
    close(name + ": covered range", [xs[0], xs[-1]], [edges[0], edges[-1]], rtol=0, atol=1e-9 * w + 1e-12 * abs(edges[0]))
    for x in xs:
        ensure(np.min(np.abs(edges - x)) <= 1e-9 * w + 1e-12 * abs(x), "%s: step at %r which is no bin edge", name, x)


def check_band(name, bars, edges, values, errors, label=None, ax=None):
    ensure(len(bars) == len(values), "%s: %d bars for %d bins", name, len(bars), len(values))
    bars = sorted(bars, key=lambda b: b.get_x() + b.get_width() / 2)
    w = edges[-1] - edges[0] + 1e-3 * abs(edges[0])
    close(name + ": left ends", [b.get_x() for b in bars], edges[:-1], rtol=0, atol=1e-9 * w)
    close(name + ": right ends", [b.get_x() + b.get_width() for b in bars], edges[1:], rtol=0, atol=1e-9 * w)
    tol = 1e-9 * (1e-9 + np.max(np.abs(values)) + np.max(np.abs(errors)))
    close(name + ": lower ends", [b.get_y() for b in bars], values - errors, rtol=1e-9, atol=tol)
    close(name + ": upper ends", [b.get_y() + b.get_height() for b in bars], values + errors, rtol=1e-9, atol=tol)
    ensure(all(not b.get_fill() for b in bars), "%s: the bars hide the histogram", name)


def check_data(d, mids, data, err):
    ensure(len(d.errorbars) == 1, "data drawn %d times", len(d.errorbars))
    c = d.errorbars[0]
    x, y = c[0].get_data()
    close("x of the data points", x, mids, rtol=1e-12, atol=1e-12)
    close("y of the data points", y, data, rtol=1e-12)
    segs = np.array(c[2][0].get_segments())
    tol = 1e-9 * (1e-9 + np.max(np.abs(data)) + np.max(np.abs(err)))
    close("x of the error bars", segs[:, :, 0], np.array([mids, mids]).T, rtol=1e-12, atol=1e-12)
    close("data error bars", segs[:, :, 1], np.array([data - err, data + err]).T, rtol=1e-9, atol=tol)


def figure(fn, *a):
    fig, ax = plt.subplots()
    try:
        return fn(fig, ax, *a)
    finally:
        plt.close(fig)


def rgba(c):
    return np.array(to_rgba(tuple(c) if isinstance(c, list) else c))


def col(c):
    return tuple(c) if isinstance(c, list) else c


# ------------------------------------------------------------------ one template
@st.composite
def template_case(draw):
    dim = draw(st.sampled_from([1, 1, 2]))
    axes = [draw(axis(1, 6 if dim == 1 else 4)) for _ in range(dim)]
    t = draw(template_spec(axes, counts_elem))
    if not any(t["counts"]):
        t["counts"][0] = 3.0
    n = len(t["counts"])
    return dict(axes=axes, t=t, y=draw(st.one_of(num(0.5, 3000), fl(0.1, 1e4), fl(-1e3, -0.1), st.sampled_from([1e-6, 1e7]))), th=draw(fixed_list(st.one_of(st.just(0.0), fl(-2, 2)), n)),
                color=draw(st.sampled_from(COLORS)), label=draw(st.sampled_from(PRETTY)), px=draw(st.sampled_from([None, "$x$ [GeV]"])),
                py=draw(st.sampled_from([None, "$y$ [GeV]"])), name=draw(st.sampled_from(NAMES)), twice=draw(st.booleans()))


def check_template(c, ctx):
    axes = c["axes"]
    kw = dict(color=col(c["color"]), pretty_label=c["label"])
    if len(axes) == 1:
        kw["pretty_variable"] = c["px"]
    else:
        kw.update(x_pretty_var=c["px"], y_pretty_var=c["py"])
    tm, r = template_from(c["name"], axes, c["t"], **kw)
    th = np.array(c["th"])
    with np.errstate(all="ignore"):
        th = np.maximum(th, -np.where(r.rel > 0, 0.9 / r.rel, np.inf))
    tm.params = np.concatenate([[c["y"]], th])
    r.yld, r.nui = c["y"], th
    v, e = r.values, r.errors
    before = template_state(tm)
    edges = real_edges(axes)
    label = c["label"] if c["label"] is not None else c["name"]
    names = [c["px"] if c["px"] is not None else "x", c["py"] if c["py"] is not None else "y"]

    def one(what, call, ed, val, err, xlabel):
        def go(fig, ax):
            if c["twice"]:
                f2, other = plt.subplots()
                call(other)
                plt.close(f2)
            call(ax)
            d = Drawn(ax)
            ensure(len(d.fills) == 1, "%s: %d histograms", what, len(d.fills))
            check_fill(what, d.fills[0], ed, np.minimum(val, 0), np.maximum(val, 0))
            check_band(what + " band", d.bars, ed, val, err)
            ensure(not d.errorbars, "%s shows data", what)
            equal(what + ": label", d.fills[0].get_label(), label)
            equal(what + ": x label", ax.get_xlabel(), xlabel)
            if c["color"] is not None:
                close(what + ": color", d.fills[0].get_facecolor(), rgba(c["color"]), atol=1e-12)
        figure(go)

    if len(axes) == 1:
        one("template", tm.plot_on, edges[0], v, e, names[0])
    else:
        one("x projection", tm.plot_x_projection_on, edges[0], v.sum(axis=1), np.sqrt((e ** 2).sum(axis=1)), names[0])
        one("y projection", tm.plot_y_projection_on, edges[1], v.sum(axis=0), np.sqrt((e ** 2).sum(axis=0)), names[1])

        def go(fig, ax):
            tm.plot_on(fig, ax)
            q = [x for x in ax.collections if isinstance(x, QuadMesh)]
            ensure(len(q) == 1, "2d template: %d meshes", len(q))
            co = np.array(q[0].get_coordinates())
            X, Y = np.meshgrid(*edges)
            close("2d template: x edges", co[:, :, 0], X, rtol=1e-9, atol=1e-9)
            close("2d template: y edges", co[:, :, 1], Y, rtol=1e-9, atol=1e-9)
            close("2d template: values", np.ma.filled(q[0].get_array(), 0.0).reshape(v.T.shape), v.T, rtol=1e-9, atol=1e-9 * np.max(np.abs(v)))
            equal("2d template: title", ax.get_title(), label)
            equal("2d template: x label", ax.get_xlabel(), names[0])
            equal("2d template: y label", ax.get_ylabel(), names[1])
            ensure(len(fig.axes) == 2, "2d template: no color bar")
            ensure(q[0].colorbar is not None, "2d template: the color bar does not belong to the values")
        figure(go)
    d = diff(before, template_state(tm))
    ensure(d is None, "plotting changed the template: %s", d)
    ctx.hit(np.count_nonzero(v) > 1 and np.any(th * r.rel != 0))
    ctx.label("%dd" % len(axes), "color" if c["color"] else "no-color", "pretty" if c["label"] else "name")


# ------------------------------------------------------------------ a channel
@st.composite
def channel_case(draw):
    dim = draw(st.sampled_from([1] * 9 + [2]))
    axes = [draw(axis(1, 6 if dim == 1 else 3)) for _ in range(dim)]
    n = int(np.prod([nbins(a) for a in axes]))
    procs = draw(st.permutations(NAMES))[:draw(st.sampled_from([2, 1, 3, 4]))]
    temps = []
    for p in procs:
        t = draw(template_spec(axes, counts_elem, max_systs=1))
        t.update(p=p, name=draw(st.sampled_from([p, p, "template"])), eff=draw(st.one_of(st.just(1.0), fl(0.1, 1.3))),
                 color=draw(st.sampled_from(COLORS)), label=draw(st.sampled_from(PRETTY)))
        temps.append(t)
    k = len(procs)
    data = draw(st.one_of(st.none(), fixed_list(st.one_of(st.just(0.0), st.integers(0, 400).map(float), fl(0, 1e3)), n)))
    derr = draw(st.one_of(st.none(), fixed_list(fl(0.0, 50), n)))
    return dict(axes=axes, temps=temps, data=data, derr=derr, y=draw(fixed_list(st.one_of(num(0.5, 3000), num(0.5, 3000), st.sampled_from([1e6, 0.01])), k)),
                th=draw(fixed_list(st.one_of(st.just(0.0), fl(-2, 2)), k * n)), fy=draw(fixed_list(num(0.5, 3000), k)),
                fth=draw(fixed_list(fl(-1, 1), k * n)), ferr=draw(fixed_list(fl(0, 1.2), k * n)), a=draw(fixed_list(fl(-1, 1), k + k * n)),
                upd=draw(st.booleans()), cn=draw(st.sampled_from(CNAMES)), swap=draw(st.booleans()))


def clip(th, rel):
    with np.errstate(all="ignore"):
        return np.maximum(th, -np.where(rel > 0, 0.9 / rel, np.inf))


def check_channel(c, ctx):
    axes, temps = c["axes"], c["temps"]
    edges = real_edges(axes)
    n = int(np.prod([len(e) - 1 for e in edges]))
    k = len(temps)
    m = tf.MultiChannelTemplate()
    for t in temps:
        m.define_process(t["p"])
    shape = tuple(len(e) - 1 for e in edges)
    m.define_channel(c["cn"], shape if len(axes) > 1 else shape[0], tuple((e[0], e[-1]) for e in edges) if len(axes) > 1 else (edges[0][0], edges[0][-1]))
    ch = dict(t={}, eff={}, nbins=n)

    def data():
        if c["data"] is not None:
            m.add_data(**{c["cn"]: hist_from(axes, c["data"], c["derr"])})

    for t in temps:
        tm, rt = template_from(t["name"], axes, t, color=col(t["color"]), pretty_label=t["label"])
        m.add_template(c["cn"], t["p"], tm, t["eff"])
        ch["t"][t["p"]], ch["eff"][t["p"]] = rt, t["eff"]
    data()
    rel = np.concatenate([rt.rel for rt in ch["t"].values()])
    th = clip(np.array(c["th"]), rel)
    fx = np.concatenate([c["fy"], clip(np.array(c["fth"]), rel)])
    x = np.concatenate([c["y"], th])
    if c["upd"]:
        x = fx
    m.update_parameters(x)
    V, E = [], []
    for i, (p, rt) in enumerate(ch["t"].items()):
        rt.yld, rt.nui = x[i] * ch["eff"][p], x[k + i * n:k + (i + 1) * n]
        V.append(np.ravel(rt.values))
        E.append(np.ravel(rt.errors))
    V, E = np.array(V), np.array(E)
    real = m.channels[c["cn"]]
    before = snapshot(m)
    sig = np.concatenate([np.sqrt(np.array(c["fy"])) + 1, np.ones(k * n)])
    a = np.array(c["a"]) * sig
    C = np.diag((np.concatenate([np.full(k, 0.5), c["ferr"]]) * sig) ** 2) + np.outer(a, a) * 0.2
    par = tf.Parameters(["p%d" % i for i in range(len(fx))])
    par.values, par.covariance, par.errors = fx.copy(), C.copy(), np.sqrt(np.diag(C))
    labels = [t["label"] if t["label"] is not None else t["name"] for t in temps]
    mids = (edges[0][1:] + edges[0][:-1]) / 2

    def verify(what, ax, err):
        d = Drawn(ax)
        ensure(len(d.fills) == k, "%s: %d histograms for %d templates", what, len(d.fills), k)
        top = np.cumsum(V, axis=0)
        left = list(d.fills)
        for i, t in enumerate(temps):
            low, up = (top[i - 1] if i else np.zeros(n)), top[i]
            ok = None
            msg = None
            for f in left:
                if f.get_label() != labels[i]:
                    continue
                try:
                    check_fill("%s: template %d" % (what, i), f, edges[0], low, up)
                    want = t["color"] if t["color"] is not None else "C%d" % i
                    close("%s: color of template %d" % (what, i), f.get_facecolor(), rgba(want), atol=1e-12)
                    ok = f
                    break
                except AssertionError as exc:
                    msg = msg or exc
            if ok is None:
                raise msg if msg is not None else AssertionError
            left.remove(ok)
        check_band(what + " band", d.bars, edges[0], top[-1], err)
        handles = ax.get_legend_handles_labels()[1]
        want = sorted(labels + ["Uncertainty"] + (["Data"] if c["data"] is not None else []))
        equal(what + ": legend", sorted(handles), want)
        if c["data"] is None:
            ensure(not d.errorbars, "%s: data drawn although none were added", what)
        else:
            de = np.sqrt(np.array(c["data"])) if c["derr"] is None else np.array(c["derr"])
            check_data(d, mids, np.array(c["data"]), de)

    def guarded(what, ax, err):
        try:
            verify(what, ax, err)
        except AssertionError as exc:
            if exc.args:
                raise
            fail("%s: a template is missing: labels %s" % (what, [f.get_label() for f in Drawn(ax).fills]))

    if len(axes) > 1:
        def go(fig, ax):
            raises("stacked plot of a 2d channel", lambda: real.plot_stacked_on(ax), NotImplementedError)
            raises("post-fit plot of a 2d channel", lambda: real.plot_post_fit_stacked_on(ax, par), NotImplementedError)
            ensure(not ax.patches and not ax.containers, "a rejected plot was drawn")
        figure(go)
        ctx.label("2d")
    else:
        nu, J = reference(ch, fx)
        s = np.abs(J) @ np.sqrt(np.diag(C))
        prop = np.diag(J @ C @ J.T)
        ok = np.all(prop > 1e-3 * s * s)

        def pre(fig, ax):
            real.plot_stacked_on(ax)
            guarded("stacked plot", ax, np.sqrt((E ** 2).sum(axis=0)))

        def propagated(fig, ax):
            if c["swap"]:
                real.plot_post_fit_stacked_on(ax, par)
            else:
                real.plot_post_fit_stacked_on(ax, par, post_fit_uncertainties="propagate")
            if ok:
                # the band is the numerically propagated one (compared with the formula by P22)
                err = np.sqrt(prop)
                got = np.array([b.get_height() / 2 for b in sorted(Drawn(ax).bars, key=lambda b: b.get_x())])
                close("post-fit plot: propagated uncertainties", got, err, rtol=1e-3)
                guarded("post-fit plot", ax, got)

        def scaled(fig, ax):
            real.plot_post_fit_stacked_on(ax, par, post_fit_uncertainties="scale")
            err = np.sqrt(((par.errors[k:].reshape(k, n) * E) ** 2).sum(axis=0))
            guarded("scaled post-fit plot", ax, err)

        for f in (pre, propagated, scaled) if c["swap"] else (scaled, propagated, pre):
            figure(f)
        ctx.hit(k > 1 and n > 1 and np.count_nonzero(V) > 2)
        ctx.label("templates-%d" % k, "data" if c["data"] is not None else "no-data", "one-bin" if n == 1 else "bins")
        if any(t["color"] is None for t in temps) and any(t["color"] is not None for t in temps):
            ctx.label("mixed-colors")
    d = diff(before, snapshot(m))
    ensure(d is None, "plotting changed the model: %s", d)


# ------------------------------------------------------------------ legacy plots
@st.composite
def legacy_case(draw):
    c = draw(p24.stack_case())
    c["ops"] = []
    c["kw"] = draw(st.sampled_from([{}, {}, dict(alpha=0.5), dict(label="mine")]))
    return c


def check_legacy(c, ctx):
    stack, rs, edges = p24.build(c)
    k, nb = len(rs), c["nb"]
    x = np.concatenate([c["y"], p24.clip(c["t"], rs)])
    stack.update_parameters(x, np.ones(len(x)))
    for i, r in enumerate(rs):
        r.yld, r.nui = x[i], x[k + i * nb:k + (i + 1) * nb]
    V = np.array([r.values for r in rs])
    E = np.array([r.errors for r in rs])

    def single(fig, ax):
        stack[c["names"][0]].plot_on(ax, **c["kw"])
        d = Drawn(ax)
        ensure(len(d.fills) == 1, "legacy template: %d histograms", len(d.fills))
        check_fill("legacy template", d.fills[0], edges, np.zeros(nb), V[0])
        check_band("legacy template band", d.bars, edges, V[0], E[0])
        if "label" in c["kw"]:
            equal("legacy template: label", d.fills[0].get_label(), "mine")

    def stacked(fig, ax):
        stack.plot_on(ax, **{a: b for a, b in c["kw"].items() if a != "label"})
        d = Drawn(ax)
        top = np.cumsum(V, axis=0)
        tn = [p24.tname(n, t) for n, t in zip(c["names"], c["temps"])]
        equal("legacy stack: labels", sorted(f.get_label() for f in d.fills), sorted(tn))
        for i, n in enumerate(tn):
            f = [f for f in d.fills if f.get_label() == n][0]
            check_fill("legacy stack: template %d" % i, f, edges, top[i - 1] if i else np.zeros(nb), top[i])
        check_band("legacy stack band", d.bars, edges, top[-1], np.sqrt((E ** 2).sum(axis=0)))

    figure(single)
    figure(stacked)
    p24.verify("after plotting", c, stack, [_with_errors(r) for r in rs], edges)
    ctx.hit(k > 1 and nb > 1)
    ctx.label("templates-%d" % k)


def _with_errors(r):
    r.yerr, r.terr = 1.0, np.ones(len(r.n))
    return r


SUBS = [
    Sub("legacy", legacy_case, check_legacy, quick=160, rule="non-trivial: at least two templates and two bins"),
    Sub("template", template_case, check_template, quick=240, rule="non-trivial: at least two bins with entries and a nuisance parameter that shifts the shape"),
    Sub("channel", channel_case, check_channel, quick=320, rule="non-trivial: at least two templates and two bins"),
]
