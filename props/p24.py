"""P24: the legacy histograms, templates and stacked templates follow the same formulas."""
import itertools
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import poisson

import templatefitter as tf
from templatefitter import histogram_legacy as hl
from templatefitter import templates_legacy as tl
from pbt import ref
from pbt.build import admissible, hist_from, nll_tol, real_edges
from pbt.core import Sub, close, ensure, equal, raises, same
from pbt.gens import NAMES, axis, fixed_list, fl, nbins, num
from props.p01 import coord

ALPHA = 1e-11


# ------------------------------------------------------------------ histograms
@st.composite
def sample(draw, es, wtypes=("none", "float", "signed", "uint8", "int64", "bool"), low=0):
    n = draw(st.integers(low, 15))
    pts = [[draw(coord(e)) for e in es] for _ in range(n)]
    k = draw(st.sampled_from(wtypes))
    if k == "none":
        w = None
    elif k == "float":
        w = draw(fixed_list(num(0, 10), n))
    elif k == "signed":
        w = draw(fixed_list(num(-10, 10), n))
    elif k == "bool":
        w = draw(fixed_list(st.booleans(), n))
    else:
        w = draw(fixed_list(st.integers(0, 200), n))
    return dict(pts=pts, w=w, k=k, wc=draw(st.sampled_from(["array", "list", "series"])))


@st.composite
def hist_case(draw):
    cls = draw(st.sampled_from(["Histogram", "Hist1d", "Hist1d", "Hist2d"]))
    dim = 2 if cls == "Hist2d" else 1
    axes = [draw(axis(1, 6 if dim == 1 else 4, wild=True)) for _ in range(dim)]
    if cls == "Histogram":
        a = axes[0]
        if "edges" in a:
            axes = [dict(n=nbins(a), lo=a["edges"][0], hi=a["edges"][-1])]
    elif dim == 2:  # edges for both axes or numbers of bins for both
        if any("edges" in a for a in axes):
            axes = [dict(edges=[float(v) for v in e]) for e in real_edges(axes)]
    es = [[float(v) for v in e] for e in real_edges(axes)]
    ops = []
    kinds = ["fill", "fill", "read"] + (["scale", "set_counts", "set_errors"] if cls == "Histogram" else [])
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(kinds))
        op = dict(op=k)
        if k == "fill":
            op["s"] = draw(sample(es))
        elif k == "scale":
            op["c"] = draw(st.one_of(st.sampled_from([2.0, 0.5, 0.0, -1.0]), fl(0.01, 20)))
        elif k.startswith("set"):
            op["v"] = draw(fixed_list(st.one_of(st.just(0.0), fl(0, 100)), nbins(axes[0])))
        ops.append(op)
    n = int(np.prod([len(e) - 1 for e in es]))
    binned = None
    if cls == "Hist1d" and draw(st.booleans()):
        integer = draw(st.booleans())
        binned = dict(counts=draw(fixed_list(st.integers(0, 60) if integer else st.one_of(st.just(0.0), fl(0, 500)), n)),
                      errs=draw(st.one_of(st.none(), fixed_list(fl(0, 30), n))), list=draw(st.booleans()))
    return dict(cls=cls, axes=axes, ops=ops, binned=binned, first=draw(st.one_of(st.none(), sample(es))),
                seq=draw(st.sampled_from(["array", "list", "tuple"])))


def arrays(s, dim):
    """Arguments for fill."""
    pts = np.array(s["pts"], dtype=float).reshape(len(s["pts"]), dim)
    data = pts[:, 0].copy() if dim == 1 else pts
    if dim == 1 and s["wc"] == "series":
        data = pd.Series(data, index=range(7, 7 + len(data)))
    w = s["w"]
    if w is not None:
        w = np.array(w, dtype={"bool": bool, "uint8": np.uint8, "int64": np.int64}.get(s["k"], float))
        w = w.tolist() if s["wc"] == "list" else pd.Series(w, index=range(5, 5 + len(w))) if s["wc"] == "series" and dim == 1 else w
    return data, w


def check_hist(c, ctx):
    axes, dim = c["axes"], len(c["axes"])
    edges = real_edges(axes)
    shape = tuple(len(e) - 1 for e in edges)
    N, E2, S, ent = np.zeros(shape), np.zeros(shape), np.zeros(shape), np.zeros(shape)
    top = [0.0, 0.0]
    if c["cls"] == "Histogram":
        args = (shape[0], (axes[0]["lo"], axes[0]["hi"]))
    elif all("n" in a for a in axes):
        args = (axes[0]["n"], (axes[0]["lo"], axes[0]["hi"])) if dim == 1 else ([a["n"] for a in axes], [(a["lo"], a["hi"]) for a in axes])
    else:
        es = [{"array": np.array, "list": list, "tuple": tuple}[c["seq"]]([float(v) for v in e]) for e in edges]
        args = (es[0] if dim == 1 else es,)
    cls = getattr(hl, c["cls"])

    def account(s, sign=1):
        nonlocal N, E2, S
        w = s["w"] if s["w"] is not None else [1.0] * len(s["pts"])
        n, e, sc = ref.ref_fill(edges, s["pts"], [float(v) for v in w])
        N, E2, S = N + n, E2 + e, S + sc
        top[0] = max(top[0], S.sum())
        top[1] = max(top[1], E2.sum())
        np.add(ent, ref.ref_fill(edges, s["pts"], [1.0] * len(s["pts"]))[0], out=ent)

    if c["binned"] is not None:
        b = c["binned"]
        cnt = np.array(b["counts"])
        keep = cnt.copy()
        ed = np.array(edges[0], dtype=float)
        ekeep = ed.copy()
        er = None if b["errs"] is None else np.array(b["errs"])
        h = cls.from_binned_data(ed.tolist() if b["list"] else ed, cnt.tolist() if b["list"] and er is not None else cnt, er)
        N = np.array(b["counts"], dtype=float)
        E2 = N.copy() if er is None else np.array(b["errs"]) ** 2
        S = np.abs(N)
    elif c["first"] is not None:
        d, w = arrays(c["first"], dim)
        h = cls(*args, data=d, weights=w) if c["seq"] == "list" else cls(*(args if len(args) == 2 else args + (None,)), d, w)
        account(c["first"])
    else:
        h = cls(*args)

    def read(what):
        # rounding may depend on all the weights (differences of cumulative sums)
        tol = 1e-12 * S + 1e-14 * top[0] + 1e-300
        close(what + ": counts", h.bin_counts, N, rtol=0, atol=tol)
        close(what + ": squared errors", h.bin_errors_sq, E2, rtol=1e-12, atol=1e-14 * top[1])
        close(what + ": errors", h.bin_errors, np.sqrt(np.asarray(h.bin_errors_sq, dtype=float)), rtol=1e-12)
        got = h.bin_edges
        for g, e in zip([got] if dim == 1 else got, edges):
            close(what + ": edges", g, e, rtol=1e-12, atol=1e-12 * abs(e[-1] - e[0]))
        mids = [(e[1:] + e[:-1]) / 2 for e in edges]
        wid = [e[1] - e[0] for e in edges]
        if dim == 1:
            w = edges[0][-1] - edges[0][0]
            close(what + ": bin mids", h.bin_mids, mids[0], rtol=1e-12, atol=1e-12 * w)
            close(what + ": bin width", h.bin_width, wid[0], rtol=1e-9, atol=1e-12 * w + 1e-12 * abs(edges[0][0]))
        else:
            for g, e in zip(h.bin_mids, mids):
                close(what + ": bin mids", g, e, rtol=1e-12, atol=1e-12 * abs(e[-1] - e[0]))
            for side, ax in ((h.x_projection(), 1), (h.y_projection(), 0)):
                close(what + ": projected counts", side[0], N.sum(axis=ax), rtol=0, atol=1e-12 * S.sum(axis=ax) + 1e-14 * top[0] + 1e-300)
                close(what + ": squared projected errors", np.square(side[1]), E2.sum(axis=ax), rtol=1e-12, atol=1e-14 * top[1])
            for g, e in ((h.x_edges, edges[0]), (h.y_edges, edges[1])):
                close(what + ": axis edges", g, e, rtol=1e-12, atol=1e-12 * abs(e[-1] - e[0]))
            for g, e in ((h.xlimits, edges[0]), (h.ylimits, edges[1])):
                close(what + ": axis limits", g, [e[0], e[-1]], rtol=1e-12, atol=1e-12 * abs(e[-1] - e[0]))
        if c["cls"] == "Histogram":
            same(what + ": entries", h.bin_entries, ent)
            equal(what + ": number of bins", h.nbins, shape[0])
            close(what + ": limits", [h.lower_limit, h.upper_limit], [axes[0]["lo"], axes[0]["hi"]])
            live = (np.abs(N) > 1e-9 * S) & (E2 > 0)
            with np.errstate(all="ignore"):
                close(what + ": relative errors", np.array(h.bin_rel_errors)[live], (np.asarray(h.bin_errors) / np.asarray(h.bin_counts))[live], rtol=1e-6)
            dead = (S == 0) & (ent == 0)
            close(what + ": relative errors of empty bins", np.array(h.bin_rel_errors)[dead], np.full(int(dead.sum()), 1e-7), rtol=1e-12)
        elif dim == 1:
            equal(what + ": number of bins", h.num_bins, shape[0])

    read("new histogram")
    fills = 0
    for k, op in enumerate(c["ops"]):
        if op["op"] == "fill":
            d, w = arrays(op["s"], dim)
            dk, wk = np.array(d, copy=True), None if w is None else np.array(w, copy=True)
            h.fill(d, w)
            same("data after filling", d, dk)
            if w is not None:
                same("weights after filling", np.array(w, dtype=float), np.array(wk, dtype=float))
            account(op["s"])
            fills += 1
        elif op["op"] == "scale":
            h.scale(op["c"])
            N, E2, S = N * op["c"], E2 * op["c"] ** 2, S * abs(op["c"])
            top[0], top[1] = top[0] * max(1, abs(op["c"])), top[1] * max(1, op["c"] ** 2)
            if op["c"] == 0:
                S = S * 0
        elif op["op"] == "set_counts":
            h.bin_counts = np.array(op["v"])
            N, S = np.array(op["v"]), np.abs(op["v"])
            ent[:] = np.where(S > 0, np.maximum(ent, 0), ent)
        elif op["op"] == "set_errors":
            h.bin_errors = np.array(op["v"])
            E2 = np.array(op["v"]) ** 2
        read("after operation %d (%s)" % (k, op["op"]))
    if c["binned"] is not None:
        same("counts given to from_binned_data", cnt, keep)
        same("edges given to from_binned_data", ed, ekeep)
    ctx.hit(fills > 0 and np.any(ent > 0))
    ctx.label(c["cls"], *["op-" + o["op"] for o in c["ops"]])
    if c["binned"]:
        ctx.label("from-binned")


# ------------------------------------------------------------------ stacks
YIELD = st.one_of(num(0.5, 900), num(0.5, 900), st.sampled_from([0.0, 1e-3, 1e7, 3]))
NUI = st.one_of(st.just(0.0), fl(-2, 2), fl(-2, 2), fl(-30, 30))


@st.composite
def stack_case(draw):
    nb = draw(st.sampled_from([3, 2, 4, 1, 5]))
    lo = draw(st.sampled_from([0.0, -1.0, 10.0]))
    lim = [lo, lo + draw(st.sampled_from([1.0, 5.0, 0.3]))]
    e = [float(v) for v in np.linspace(lim[0], lim[1], nb + 1)]
    k = draw(st.sampled_from([2, 1, 3, 4]))
    temps = []
    for i in range(k):
        pts = []
        for b in range(nb):
            if draw(st.integers(0, 5)) > 0:
                for _ in range(draw(st.integers(1, 3))):
                    pts.append((e[b] + e[b + 1]) / 2 + (e[b + 1] - e[b]) * draw(st.floats(-0.4, 0.4)))
        pts += draw(st.lists(st.one_of(st.sampled_from(e), st.sampled_from([lim[0] - 1, lim[1] + 1])), max_size=3))
        integer = draw(st.integers(0, 4)) == 0
        w = draw(fixed_list(st.integers(1, 9) if integer else st.one_of(st.just(1.0), fl(0.1, 30)), len(pts)))
        temps.append(dict(pts=pts, w=w, int=integer, how=draw(st.sampled_from(["add", "create"])), wname=draw(st.sampled_from(["weight", "weight", "w2"])), alias=draw(st.integers(0, 3)) == 0))
    m = k + k * nb
    ops = []
    for _ in range(draw(st.integers(0, 7))):
        o = draw(st.sampled_from(["update", "update", "reset", "cov", "cov", "cov", "yields", "nui", "copy", "asimov", "template", "scribble"]))
        op = dict(op=o)
        if o == "update":
            op.update(y=draw(fixed_list(YIELD, k)), t=draw(fixed_list(NUI, k * nb)), e=draw(fixed_list(st.one_of(fl(0.01, 50), fl(0.01, 50), st.sampled_from([0.0, 1e-9, 1e6])), m)))
        elif o == "yields":
            op.update(y=draw(fixed_list(YIELD, k)))
        elif o == "nui":
            op.update(t=draw(fixed_list(NUI, k * nb)))
        elif o == "template":
            op.update(i=draw(st.integers(0, k - 1)), y=draw(num(0.5, 900)), t=draw(fixed_list(fl(-2, 2), nb)), ey=draw(fl(0.1, 9)))
        elif o == "scribble":
            op.update(i=draw(st.integers(0, k - 1)))
        elif o == "cov":
            op.update(i=draw(st.integers(0, k - 1)), a=draw(fixed_list(st.one_of(fl(-0.4, 0.4), fl(-0.4, 0.4), st.just(0.0)), nb)), diag=draw(st.integers(0, 2)) == 0)
        elif o == "asimov":
            op.update(int=draw(st.booleans()))
        ops.append(op)
    return dict(nb=nb, lim=lim, temps=temps, ops=ops, names=draw(st.permutations(NAMES))[:k],
                data=draw(fixed_list(st.one_of(st.just(0.0), st.integers(0, 200).map(float), fl(0, 300)), nb)),
                y=draw(fixed_list(num(0.5, 900), k)), t=draw(fixed_list(st.one_of(st.just(0.0), fl(-2, 2)), k * nb)))


def clip(t, rs):
    rel = np.concatenate([r.rel for r in rs])
    with np.errstate(all="ignore"):
        return np.maximum(np.array(t, dtype=float), -np.where(rel > 0, 0.9 / rel, np.inf))


def tname(tid, t):
    """Name of a template; it may differ from its identifier in the stack."""
    return "T " + tid if t["how"] == "add" and t["alias"] else tid


def build(c, vals=None):
    lim = tuple(c["lim"])
    stack = tl.StackedTemplate("stack", "x", c["nb"], lim)
    edges = np.linspace(lim[0], lim[1], c["nb"] + 1)
    rs = []
    for name, t in zip(c["names"], c["temps"]):
        df = pd.DataFrame({"x": np.array(t["pts"], dtype=float), "other": -1.0, t["wname"]: np.array(t["w"], dtype=np.int64 if t["int"] else float)})
        if t["how"] == "add":
            stack.add_template(name, tl.Template(tname(name, t), "x", c["nb"], lim, df, t["wname"]))
        else:
            stack.create_template(name, df, t["wname"])
        n, e2, _ = ref.ref_fill([edges], [(p,) for p in t["pts"]], t["w"])
        r = ref.RefTemplate(n, e2)
        r.y0, r.yerr, r.terr = r.yld, math.sqrt(math.fsum(e2)), np.ones(c["nb"])
        r.yerr0 = r.yerr
        rs.append(r)
    return stack, rs, edges


def verify(what, c, stack, rs, edges):
    k, nb = len(rs), c["nb"]
    V = np.array([r.values for r in rs])
    E = np.array([r.errors for r in rs])
    close(what + ": stack values", stack.values(), V.sum(axis=0), rtol=1e-11, atol=1e-11 * V.sum())
    close(what + ": stack errors", stack.errors(), np.sqrt((E ** 2).sum(axis=0)), rtol=1e-9, atol=1e-12 * V.sum())
    close(what + ": yields", stack.yield_param_values, [r.yld for r in rs], rtol=1e-12)
    close(what + ": yield errors", stack.yield_param_errors, [r.yerr for r in rs], rtol=1e-12)
    close(what + ": nuisance parameters", np.ravel(stack.nui_param_values), np.concatenate([r.nui for r in rs]), rtol=1e-13)
    close(what + ": nuisance parameter errors", np.ravel(stack.nui_param_errors), np.concatenate([r.terr for r in rs]), rtol=1e-13)
    tn = [tname(n, t) for n, t in zip(c["names"], c["temps"])]
    equal(what + ": names", list(stack.template_names), tn)
    equal(what + ": number of templates", stack.num_templates, k)
    th = np.concatenate([r.nui for r in rs])
    close(what + ": fractions", stack.fractions(th), [r.fractions(r.nui) for r in rs], rtol=1e-11, atol=1e-13)
    for name, r, m in zip(c["names"], rs, stack.inv_corr_mats):
        t = stack[name]
        close(what + ": template values", t.values(), r.values, rtol=1e-11, atol=1e-11 * abs(r.yld))
        close(what + ": template errors", t.errors(), r.errors, rtol=1e-9, atol=1e-13 * abs(r.yld))
        close(what + ": covariance", t.cov_mat, r.cov, rtol=1e-11, atol=1e-13 * np.max(r.cov))
        close(what + ": correlation", t.corr_mat, r.corr, rtol=1e-10, atol=1e-12)
        iv = r.inv_corr
        tol = 1e-14 * np.linalg.cond(r.corr) * np.max(np.abs(iv)) * nb + 1e-12
        close(what + ": inverse correlation", t.inv_corr_mat, iv, rtol=0, atol=tol)
        close(what + ": inverse correlations of the stack", m, iv, rtol=0, atol=tol)
        equal(what + ": yield of the template", float(t.yield_param_values), float(t.yield_param.value))
    for name, t in [("stack", stack)] + [(b, stack[n]) for n, b in zip(c["names"], tn)]:
        close("%s: edges of %s" % (what, name), t.bin_edges, edges, rtol=1e-12, atol=1e-12)
        close("%s: bin mids of %s" % (what, name), t.bin_mids, (edges[1:] + edges[:-1]) / 2, rtol=1e-12, atol=1e-12)
        close("%s: bin width of %s" % (what, name), t.bin_width, (edges[-1] - edges[0]) / nb, rtol=1e-9)
        equal("%s: description of %s" % (what, name), (t.name, t.variable, tuple(t.limits), t.num_bins), (name, "x", tuple(c["lim"]), nb))
    for pars, get in ((stack.yield_params, lambda r: (r.yld, r.yerr)), (stack.nui_params, lambda r: (r.nui, r.terr))):
        equal(what + ": number of parameters", len(pars), k)
        for q, r in zip(pars, rs):
            close(what + ": parameter value", q.value, get(r)[0], rtol=1e-12)
            close(what + ": parameter error", q.error, get(r)[1], rtol=1e-12)
    equal(what + ": parameter names", [q.name for q in stack.yield_params + stack.nui_params],
          [n + "_yield" for n in tn] + [n + "_nui" for n in tn])


def check_stack(c, ctx):
    stack, rs, edges = build(c)
    k, nb = len(rs), c["nb"]
    verify("new stack", c, stack, rs, edges)

    # the likelihood, created now and used while the templates change
    R = ref.RefModel()
    R.processes = list(c["names"])
    R.add_channel("c", nb)
    ch = R.channels["c"]
    for name, r in zip(c["names"], rs):
        ch["t"][name], ch["eff"][name] = r, 1.0
    sup = sum(r.n for r in rs) > 0
    d = np.where(sup, np.array(c["data"], dtype=float), 0.0)
    ch["data"] = d
    early = stack.create_nll(hl.Hist1d.from_binned_data(edges, d.copy()))

    def evaluate(what, nll):
        x0 = np.concatenate([[r.yld for r in rs]] + [r.nui for r in rs])
        close(what + ": start", nll.x0, x0, rtol=1e-12)
        for x in (x0, np.concatenate([c["y"], clip(c["t"], rs)])):
            if not np.any((R.expectation(x, "c") <= 0) & (d > 0)):
                close(what, float(nll(x.copy())), R.nll(x), rtol=1e-11, atol=nll_tol(R, x))

    evaluate("likelihood", early)
    for j, op in enumerate(c["ops"]):
        o = op["op"]
        if o == "update":
            x = np.concatenate([op["y"], clip(op["t"], rs)])
            e = np.array(op["e"], dtype=float)
            a, b = x.copy(), e.copy()
            stack.update_parameters(a, b)
            same("parameters after the update", a, x)
            a[:], b[:] = 7.0, 8.0  # the caller may reuse the arrays
            for i, r in enumerate(rs):
                r.yld, r.nui, r.yerr, r.terr = x[i], x[k + i * nb:k + (i + 1) * nb], e[i], e[k + i * nb:k + (i + 1) * nb]
        elif o == "reset":
            stack.reset_parameters()
            for r in rs:
                r.yld, r.nui, r.yerr, r.terr = r.y0, np.zeros(nb), r.yerr0, np.ones(nb)
        elif o == "cov":
            r = rs[op["i"]]
            a = np.array(op["a"]) * np.where(r.n > 0, r.n, 1.0)
            cov = np.diag(a ** 2) if op["diag"] else np.outer(a, a)
            if admissible(r, cov):
                cc = cov.copy()
                stack[c["names"][op["i"]]].add_covariance_matrix(cc)
                same("covariance given to the template", cc, cov)
                r.add_cov(cov)
                r.nui = np.maximum(r.nui, -0.9 / r.rel)
                stack[c["names"][op["i"]]].nui_param_values = r.nui.copy()
        elif o == "scribble":  # write into what was read, then reset
            v, e = stack.nui_param_values, stack[c["names"][op["i"]]].nui_param_values
            v[...], e[...] = 0.125, 0.25
            stack.reset_parameters()
            for r in rs:
                r.yld, r.nui, r.yerr, r.terr = r.y0, np.zeros(nb), r.yerr0, np.ones(nb)
        elif o == "yields":
            stack.yield_param_values = np.array(op["y"], dtype=float)
            for r, v in zip(rs, op["y"]):
                r.yld = v
        elif o == "nui":
            x = clip(op["t"], rs)
            stack.nui_param_values = x.copy()
            for i, r in enumerate(rs):
                r.nui = x[i * nb:(i + 1) * nb]
        elif o == "copy":
            stack.nui_param_values = stack.nui_param_values
            stack.nui_param_errors = stack.nui_param_errors
            stack.yield_param_values = stack.yield_param_values
            stack.yield_param_errors = stack.yield_param_errors
        elif o == "template":
            r, t = rs[op["i"]], stack[c["names"][op["i"]]]
            x = np.maximum(np.array(op["t"]), -0.9 / r.rel)
            a, b = x.copy(), np.abs(x) + 0.5
            t.yield_param_values, t.nui_param_values, t.yield_param_errors, t.nui_params_errors = op["y"], a, op["ey"], b
            r.yld, r.nui, r.yerr, r.terr = op["y"], x, op["ey"], b.copy()
            a[:], b[:] = 7.0, 8.0  # the caller may reuse the arrays
        elif o == "asimov":
            v = sum(np.ravel(r.values) for r in rs)
            got = stack.generate_asimov_dataset(op["int"])
            tol = 1e-11 * v.sum()
            if op["int"]:
                g = np.array(got.bin_counts)
                ensure(np.all(g == np.round(g)) and np.all(np.abs(g - v) <= 0.5 + tol), "rounded asimov data %s for %s", g, v)
            else:
                close("asimov data", got.bin_counts, v, rtol=1e-11, atol=tol)
            close("asimov errors", got.bin_errors_sq, np.array(got.bin_counts), rtol=1e-12)
            close("asimov edges", got.bin_edges, edges, rtol=1e-12, atol=1e-12)
            for name, r in zip(c["names"], rs):
                one = stack[name].generate_asimov_dataset(op["int"])
                if not op["int"]:
                    close("asimov data of a template", one.bin_counts, r.values, rtol=1e-11, atol=1e-11 * abs(r.yld))
                else:
                    g = np.array(one.bin_counts)
                    ensure(np.all(g == np.round(g)) and np.all(np.abs(g - r.values) <= 0.5 + 1e-11 * abs(r.yld)),
                           "rounded asimov data of a template %s for %s", g, r.values)
                close("asimov errors of a template", one.bin_errors_sq, np.array(one.bin_counts), rtol=1e-12)
                close("asimov edges of a template", one.bin_edges, edges, rtol=1e-12, atol=1e-12)
        verify("after operation %d (%s)" % (j, o), c, stack, rs, edges)
        evaluate("likelihood after operation %d (%s)" % (j, o), early)
        ctx.label("op-" + o)

    nll = stack.create_nll(hl.Hist1d.from_binned_data(edges, d.copy()))
    x0 = np.concatenate([[r.yld for r in rs]] + [r.nui for r in rs])
    close("start of the likelihood", nll.x0, x0, rtol=1e-12)
    tn = [tname(n, t) for n, t in zip(c["names"], c["temps"])]
    equal("parameter names", list(nll.param_names), [n + "_yield" for n in tn] + ["%s_nui_%d" % (n, i) for n in tn for i in range(nb)])
    m = tf.MultiChannelTemplate()
    for n in c["names"]:
        m.define_process(n)
    m.define_channel("c", nb, (edges[0], edges[-1]))
    ax = [dict(edges=[float(v) for v in edges])]
    for name, r in zip(c["names"], rs):
        t = tf.Template1d(name, "x", hist_from(ax, r.n, np.sqrt(np.where(r.stat > 1e-14, r.stat, 0.0))))
        for s in r.systs:
            t.add_cov_mat(s.copy())
        m.add_template("c", name, t)
    m.add_data(c=hist_from(ax, d))
    new = m.create_nll()
    xs = [np.concatenate([c["y"], clip(c["t"], rs)])]
    if np.all((R.expectation(x0, "c") > 0) | (d == 0)):
        xs.append(x0)
    before = stack.values().copy()
    for x in xs:
        if np.any((R.expectation(x, "c") <= 0) & (d > 0)):
            continue
        tol = nll_tol(R, x)
        close("legacy likelihood", float(nll(x.copy())), R.nll(x), rtol=1e-11, atol=tol)
        close("legacy and current likelihood", float(nll(x.copy())), float(new(x.copy())), rtol=1e-11, atol=2 * tol)
    same("values after evaluating the likelihood", stack.values(), before)
    ctx.hit(k > 1 and nb > 1 and np.any(np.array(c["t"]) != 0))
    ctx.label("templates-%d" % k, *(["empty-template"] if any(np.all(r.n == 0) for r in rs) else []))
    if any(r.systs for r in rs):
        ctx.label("systematics")


# ------------------------------------------------------------------ toys and compatibility
@st.composite
def toy_case(draw):
    c = draw(stack_case())
    c["ops"] = []
    return c


def check_toy(c, ctx):
    stack, rs, edges = build(c)
    x = np.concatenate([c["y"], clip(c["t"], rs)])
    stack.update_parameters(x, np.ones(len(x)))
    k, nb = len(rs), c["nb"]
    for i, r in enumerate(rs):
        r.yld, r.nui = x[i], x[k + i * nb:k + (i + 1) * nb]
    targets = [("toy data", stack, sum(np.ravel(r.values) for r in rs)), ("toy data of a template", stack[c["names"][0]], rs[0].values)]
    n = 60
    for what, obj, v in targets:
        tot = np.zeros(nb)
        seen = set()
        for _ in range(n):
            h = obj.generate_toy_dataset()
            g = np.array(h.bin_counts, dtype=float)
            ensure(g.shape == (nb,) and np.all(g >= 0) and np.all(g == np.round(g)), "%s: %s", what, g)
            close(what + ": squared errors", h.bin_errors_sq, g, rtol=1e-12)
            close(what + ": edges", h.bin_edges, edges, rtol=1e-12, atol=1e-12)
            tot += g
            seen.add(tuple(g))
        for b in range(nb):
            mu = n * max(float(v[b]), 0.0)
            p = min(poisson.cdf(tot[b], mu), poisson.sf(tot[b] - 1, mu)) if mu > 0 else float(tot[b] == 0)
            ensure(p > ALPHA, "%s: %d events in bin %d where %s are expected (p=%s)", what, tot[b], b, mu, p)
        ensure(len(seen) > 1 or v.sum() < 1, "%s is always the same", what)
    same("parameters after generating toys", np.concatenate([stack.yield_param_values, np.ravel(stack.nui_param_values)]), x)
    ctx.hit(nb > 1 and k > 1)


@st.composite
def compat_case(draw):
    out = dict(nb=draw(st.integers(1, 5)), lim=[0.0, draw(st.sampled_from([1.0, 2.0]))], var="x", seq=[])
    for _ in range(draw(st.integers(1, 4))):
        out["seq"].append(dict(nb=out["nb"] + draw(st.sampled_from([0, 0, 0, 1])), lim=[draw(st.sampled_from([0.0, 0.0, 0.0, -1.0])), draw(st.sampled_from([out["lim"][1]] * 3 + [3.0]))],
                               var=draw(st.sampled_from(["x", "x", "x", "y"])), x=draw(fixed_list(fl(0.0, 1.0), 4))))
    return out


def check_compat(c, ctx):
    stack = tl.StackedTemplate("s", c["var"], c["nb"], tuple(c["lim"]))
    good = []
    for i, t in enumerate(c["seq"]):
        df = pd.DataFrame({t["var"]: t["x"], "weight": 1.0})
        tm = tl.Template("t%d" % i, t["var"], t["nb"], tuple(t["lim"]), df)
        ok = (t["nb"], t["lim"], t["var"]) == (c["nb"], c["lim"], c["var"])
        if ok:
            stack.add_template("t%d" % i, tm)
            good.append("t%d" % i)
        else:
            raises("a template with %s in a stack with %s" % ({k: t[k] for k in ("nb", "lim", "var")}, {k: c[k] for k in ("nb", "lim", "var")}),
                   lambda: stack.add_template("t%d" % i, tm), ValueError)
            ctx.hit()
        equal("templates in the stack", list(stack.template_names), good)
        equal("number of templates", stack.num_templates, len(good))
    if good:
        n = sum(ref.ref_fill([np.linspace(c["lim"][0], c["lim"][1], c["nb"] + 1)], [(v,) for v in t["x"]], [1.0] * 4)[0]
                for i, t in enumerate(c["seq"]) if "t%d" % i in good)
        close("values of the stack", stack.values(), n, rtol=1e-12)


SUBS = [
    Sub("histograms", hist_case, check_hist, quick=1500, rule="non-trivial: a fill that puts at least one entry into a bin"),
    Sub("stack", stack_case, check_stack, quick=1200, rule="non-trivial: at least two templates and two bins and a likelihood at nonzero nuisance parameters"),
    Sub("toys", toy_case, check_toy, quick=150, rule="non-trivial: at least two templates and two bins"),
    Sub("compatibility", compat_case, check_compat, quick=200, rule="non-trivial: at least one incompatible template"),
]
