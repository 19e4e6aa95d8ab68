"""P27: reading operations never change the model; writing operations change only what they name."""
import contextlib
import io

import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import add_syst, hist_from, hist_state, mids, real_edges, snapshot, template_state
from pbt.core import Sub, close, ensure, equal, fail, same
from pbt.fits import build, fit_spec
from pbt.gens import fixed_list, fl, num

RULE = "non-trivial: a history with at least two reading and one successful writing operation"
CHEAP = ["nll", "nll", "x0", "names", "asimov", "toy", "numbers", "per_channel", "propagate", "plot", "template", "gof"]
FITS = ["fit", "fit", "profile", "significance"]
WRITES = ["update", "set_yield", "params", "yield_param", "nui_param", "data", "syst", "reset", "constraint", "fit_update"]
BAD = ["bad_template", "bad_data", "bad_params", "bad_process", "bad_yield", "bad_cov", "bad_vector"]


def flat(s, path=()):
    """A snapshot as a map from paths to values."""
    out = {}
    if isinstance(s, dict):
        if not s:
            out[path] = ()
        for k, v in s.items():
            out.update(flat(v, path + (k,)))
    elif isinstance(s, (list, tuple)) and any(isinstance(v, (np.ndarray, list, tuple, dict)) for v in s):
        out[path + ("len",)] = len(s)
        for i, v in enumerate(s):
            out.update(flat(v, path + (i,)))
    else:
        out[path] = s
    return out


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return type(a) == type(b) and a == b


def changes(a, b):
    fa, fb = flat(a), flat(b)
    return [p for p in set(fa) | set(fb) if p not in fa or p not in fb or not eq(fa[p], fb[p])]


PARAM = {"params", "values", "errors"}
UNCERT = {"errors", "cov", "covs", "corr", "inv"}


@st.composite
def op(draw, kind, n_procs, neg=False):
    o = dict(op=kind)
    o["a"] = draw(st.integers(0, 11))
    if kind in ("update", "nll", "per_channel", "propagate", "params", "yield_param", "set_yield", "nui_param", "constraint", "data", "syst", "gof"):
        o["y"] = draw(fixed_list(num(5, 2000), n_procs))
        if neg:
            o["y"] = [v * k for v, k in zip(o["y"], draw(fixed_list(st.sampled_from([-1.0, 1.0, 0.0, -1e-3]), n_procs)))]
            if kind == "constraint":
                o["y"] = [abs(v) for v in o["y"]]
        o["t"] = draw(fixed_list(fl(-1.5, 1.5), 6))
    if kind in ("fit", "fit_update", "significance", "profile"):
        o["nui"] = draw(st.booleans())
        o["mid"] = draw(st.sampled_from(["iminuit", "iminuit", "scipy"])) if kind != "profile" else "iminuit"
        o["fixed"] = draw(st.lists(st.integers(0, 9), max_size=1))
    return o


@st.composite
def case(draw):
    c = draw(fit_spec(max_bins=3, big=True))
    k = len(c["model"]["procs"])
    ops = []
    # yields that are zero or negative occur only in histories without fits
    c["neg"] = draw(st.integers(0, 3)) == 0
    fits = 2 if c["neg"] else 0
    writes = [w for w in WRITES if not (c["neg"] and w == "fit_update")]
    for _ in range(draw(st.integers(2, 9))):
        g = draw(st.integers(0, 9))
        if g == 0 and fits < 2:
            kind = draw(st.sampled_from(FITS))
            fits += 1
        elif g <= 4:
            kind = draw(st.sampled_from(CHEAP))
        elif g <= 8:
            kind = draw(st.sampled_from(writes))
            if kind == "fit_update":
                fits += 1
        else:
            kind = draw(st.sampled_from(BAD))
        ops.append(draw(op(kind, k, c["neg"])))
    c["ops"] = ops
    c["nodata"] = draw(st.integers(0, 9)) == 0
    return c


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        with contextlib.redirect_stderr(io.StringIO()):
            return fn()


class History:
    def __init__(self, c):
        self.c = c
        self.pr = build(c)
        self.m, self.r = self.pr.m, self.pr.r
        self.keys = [(cn, p) for cn, ch in self.r.channels.items() for p in ch["t"]]
        self.initial = {k: np.concatenate([[self.r.channels[k[0]]["t"][k[1]].n.sum()], np.zeros(self.r.channels[k[0]]["nbins"])]) for k in self.keys}
        self.nlls = [self.m.create_nll()]
        self.late = self.pr.inputs

    def vector(self, o):
        rel = np.concatenate([t.rel for ch in self.r.channels.values() for t in ch["t"].values()])
        t = np.array([o["t"][i % len(o["t"])] for i in range(len(rel))])
        with np.errstate(all="ignore"):
            t = np.maximum(t, -np.where(rel > 0, 0.9 / rel, np.inf))
        return np.concatenate([o["y"], t])

    # every operation returns a predicate on the paths that may change, or None if it is a reading one
    def run(self, o):
        return getattr(self, "do_" + o["op"])(o)

    def key(self, o):
        return self.keys[o["a"] % len(self.keys)]

    # ---- reading
    def do_nll(self, o):
        x = self.vector(o)
        k = x.copy()
        f = self.nlls[o["a"] % len(self.nlls)]
        a = f(x)
        same("argument of the likelihood", x, k)
        b = f(x)
        equal("likelihood evaluated twice", float(a), float(b))
        if len(self.nlls) < 3:
            self.nlls.append(self.m.create_nll())
        self.nlls[-1](self.nlls[-1].x0)

    def do_x0(self, o):
        x = self.nlls[o["a"] % len(self.nlls)].x0
        x[:] = -1.0
        y = self.m.process_yields
        y[:] = -1.0
        n = self.m.nui_params
        n[:] = -1.0

    def do_names(self, o):
        n = self.m.create_nll().param_names
        n.append("other")
        ensure(len(self.m.create_nll().param_names) == self.r.npar, "parameter names changed")
        str(self.m.processes), str(self.m.channels), str(self.m.constrained_yields)

    def do_asimov(self, o):
        d = self.m.generate_asimov_dataset(bool(o["a"] % 2))
        for h in d.values():
            h.bin_counts[...] = -1

    def do_toy(self, o):
        try:
            toy = self.m.generate_toy_dataset()
        except ValueError:
            # there are no toys of a negative expectation
            low = min(float(np.min(np.sum([t.values for t in ch.templates.values()], axis=0))) for ch in self.m.channels.values())
            ensure(not low >= 0, "toys of a model with a positive expectation failed")
            return
        for h in toy.values():
            h.bin_counts[...] = -1

    def do_numbers(self, o):
        m = self.m
        m.process_yields, m.process_yield_errors, m.nui_params, m.num_channels, m.num_processes, m.num_nui_params
        for p in m.processes:
            m.get_yield(p), m.process_to_index(p)
        for ch in m.channels.values():
            ch.num_templates, ch.num_bins, ch.num_nui_params, ch.bins, ch.range, ch.name, ch.bin_edges, ch.has_data
            ch.process_indices(m.processes)

    def do_per_channel(self, o):
        x = self.vector(o)
        k = x.copy()
        self.m.generate_per_channel_parameters(x)
        same("vector split into channels", x, k)

    def do_propagate(self, o):
        x = self.vector(o)
        y, nui = self.r.split(x)
        for cn, ch in self.r.channels.items():
            v = np.concatenate([[y[p] for p in ch["t"]], np.concatenate([nui[cn, p] for p in ch["t"]])])
            par = tf.Parameters(["p%d" % i for i in range(len(v))])
            par.values, par.covariance = v.copy(), np.diag(np.full(len(v), 0.2))
            real = self.m.channels[cn]
            real.propagate_parameter_uncertainties(par)
            real.get_post_fit_bin_uncertainty(par)
            real.bin_counts_from_param_values(v)
            same("values of the fit result", par.values, v)

    def do_plot(self, o):
        for cn, ch in self.m.channels.items():
            fig, ax = plt.subplots()
            try:
                if len(self.pr.axes[cn]) == 1:
                    if o["a"] % 2:
                        ch.plot_stacked_on(ax)
                    else:
                        next(iter(ch.templates.values())).plot_on(ax)
                else:
                    t = next(iter(ch.templates.values()))
                    t.plot_on(fig, ax) if o["a"] % 2 else t.plot_x_projection_on(ax)
            finally:
                plt.close(fig)

    def do_template(self, o):
        t = self.pr.t[self.key(o)]
        a = template_state(t)
        v = t.values
        v[...] = -1
        e = t.errors
        e[...] = -1
        t.fractions(np.array(t.nui_params, copy=True)), t.bin_mids, t.bin_edges, t.bin_widths, t.shape, t.range, t.num_bins, t.name
        ensure(not changes(a, template_state(t)), "template changed")

    def do_gof(self, o):
        for cn, ch in self.r.channels.items():
            nu = np.ravel(self.m.channels[cn].data_bin_counts) + 1.0
            tf.pearson_chi2_test(self.m.channels[cn].data_bin_counts, nu.reshape(np.shape(self.m.channels[cn].data_bin_counts)), 3)

    def fitter_for(self, o):
        f = tf.TemplateFitter(self.m, o["mid"])
        for i in o["fixed"]:
            f.set_parameter_fixed(i % self.r.npar)
        return f

    def scipy_too_slow(self, o):
        return o["mid"] == "scipy" and not o["nui"] and self.r.npar > 8

    def do_fit(self, o):
        if self.scipy_too_slow(o):
            return None
        f = self.fitter_for(o)
        try:
            quiet(lambda: f.do_fit(update_templates=False, verbose=0 if o["mid"] == "iminuit" else False, fix_nui_params=o["nui"]))
        except (RuntimeError, np.linalg.LinAlgError):
            pass

    def do_profile(self, o):
        f = self.fitter_for(dict(o, fixed=[]))
        try:
            quiet(lambda: f.do_fit(update_templates=False, verbose=0, fix_nui_params=o["nui"]))
            quiet(lambda: f.profile(o["a"] % len(self.r.processes), num_cpu=1, num_points=3, fix_nui_params=o["nui"]))
        except (RuntimeError, np.linalg.LinAlgError):
            pass

    def do_significance(self, o):
        if self.scipy_too_slow(o):
            return None
        f = self.fitter_for(dict(o, fixed=[]))
        v = 0 if o["mid"] == "iminuit" else False
        try:
            quiet(lambda: f.do_fit(update_templates=False, verbose=v, fix_nui_params=o["nui"]))
            quiet(lambda: f.get_significance(self.r.processes[o["a"] % len(self.r.processes)], verbose=v, fix_nui_params=o["nui"]))
        except (RuntimeError, np.linalg.LinAlgError):
            pass

    # ---- writing
    def after_parameters(self, x):
        y, nui = self.r.split(x)
        for cn, ch in self.r.channels.items():
            for p in ch["t"]:
                want = np.concatenate([[y[p] * ch["eff"][p]], nui[cn, p]])
                close("parameters of %s in %s" % (p, cn), self.pr.t[cn, p].params, want, rtol=1e-13)
        self.r.update(x)

    def do_update(self, o):
        x = self.vector(o)
        k = x.copy()
        self.m.update_parameters(x)
        same("vector given to update_parameters", x, k)
        x[:] = 3.0
        self.after_parameters(k)
        return lambda p: p[-1] in PARAM

    def do_fit_update(self, o):
        if self.scipy_too_slow(o):
            return None
        f = self.fitter_for(o)
        before = snapshot(self.m)
        try:
            res = quiet(lambda: f.do_fit(update_templates=True, verbose=0 if o["mid"] == "iminuit" else False, fix_nui_params=o["nui"]))
        except (RuntimeError, np.linalg.LinAlgError):
            ensure(not changes(before, snapshot(self.m)), "a failed fit changed the model")
            return None
        self.after_parameters(np.array(res.params.values, dtype=float))
        # the result does not depend on the model afterwards
        res.params.values[:] = 9.0
        return lambda p: p[-1] in PARAM

    def do_set_yield(self, o):
        p = self.r.processes[o["a"] % len(self.r.processes)]
        v = o["y"][0]
        self.m.set_yield(p, v)
        for cn, ch in self.r.channels.items():
            if p in ch["t"]:
                close("yield of %s in %s" % (p, cn), self.pr.t[cn, p].yield_param, v * ch["eff"][p], rtol=1e-13)
                ch["t"][p].yld = v * ch["eff"][p]
        return lambda q: q[-1] in PARAM and q[1] == ("t", p)

    def one(self, o, what):
        cn, p = self.key(o)
        t, rt = self.pr.t[cn, p], self.r.channels[cn]["t"][p]
        nui = np.array([o["t"][i % len(o["t"])] for i in range(len(rt.n))])
        with np.errstate(all="ignore"):
            nui = np.maximum(nui, -np.where(rt.rel > 0, 0.9 / rt.rel, np.inf))
        want = np.array(t.params, dtype=float)
        if what == "params":
            v = np.concatenate([[o["y"][0]], nui])
            k = v.copy()
            t.params = v
            v[:] = -4.0
            want = k
        elif what == "yield_param":
            t.yield_param = float(o["y"][0])
            want[0] = o["y"][0]
        else:
            v = nui.copy()
            t.nui_params = v
            v[:] = -4.0
            want[1:] = nui
        same("parameters of %s in %s" % (p, cn), t.params, want)
        rt.yld, rt.nui = float(want[0]), want[1:].copy()
        return lambda q: q[-1] in PARAM and q[0] == ("ch", cn) and q[1] == ("t", p)

    def do_params(self, o):
        return self.one(o, "params")

    def do_yield_param(self, o):
        return self.one(o, "yield_param")

    def do_nui_param(self, o):
        return self.one(o, "nui_param")

    def do_data(self, o):
        names = list(self.r.channels)
        cns = names if o["a"] % 3 == 0 else [names[o["a"] % len(names)]]
        kw = {}
        for cn in cns:
            n = self.r.channels[cn]["nbins"]
            s = [1.0, 1.0, 1e-8, 1e4][o["a"] // 3]
            kw[cn] = hist_from(self.pr.axes[cn], [s * (abs(o["t"][i % 6]) * 50 + i) for i in range(n)])
            self.late.append(kw[cn])
        self.m.add_data(**kw)
        for cn, h in kw.items():
            same("data of " + cn, self.m.channels[cn].data_bin_counts, h.bin_counts)
            self.r.channels[cn]["data"] = np.ravel(h.bin_counts).copy()
        return lambda q: q[0] in [("ch", cn) for cn in cns] and q[1] in ("data", "has_data")

    def do_syst(self, o):
        cn, p = self.key(o)
        t, rt = self.pr.t[cn, p], self.r.channels[cn]["t"][p]
        sh = [n * 0.06 * o["t"][i % 6] for i, n in enumerate(rt.n)]
        two = len(self.pr.axes[cn]) > 1 or o["a"] % 2
        s = dict(kind="ud", up=[n + v for n, v in zip(rt.n, sh)], down=[n - v for n, v in zip(rt.n, sh)]) if two else dict(kind="cov", a=[[v] for v in sh])
        shifted = bool(np.any(t.nui_params != 0))  # the shape depends on the uncertainty at these values
        add_syst(t, rt, self.pr.axes[cn], s)
        with np.errstate(all="ignore"):
            nui = np.maximum(t.nui_params, -np.where(rt.rel > 0, 0.9 / rt.rel, np.inf))
        if np.any(nui != t.nui_params):
            t.nui_params = nui
            rt.nui = nui.copy()
            return lambda q: q[-1] in PARAM | UNCERT or q[2:3] == ("covs",) if q[0] == ("ch", cn) and q[1] == ("t", p) else False
        return lambda q: q[0] == ("ch", cn) and q[1] == ("t", p) and (q[2] in UNCERT or q[2] == "values" and shifted)

    def do_reset(self, o):
        if o["a"] % 3 == 0:
            cn, p = self.key(o)
            self.pr.t[cn, p].reset()
            ks = [(cn, p)]
        elif o["a"] % 3 == 1:
            cn = self.key(o)[0]
            self.m.channels[cn].reset()
            ks = [k for k in self.keys if k[0] == cn]
        else:
            self.m.reset_parameters()
            ks = self.keys
        for k in ks:
            close("parameters of %s in %s after a reset" % (k[1], k[0]), self.pr.t[k].params, self.initial[k], rtol=1e-12)
            rt = self.r.channels[k[0]]["t"][k[1]]
            rt.yld, rt.nui = self.initial[k][0], self.initial[k][1:].copy()
        return lambda q: q[-1] in PARAM and (q[0][1], q[1][1]) in ks

    def do_constraint(self, o):
        p = self.r.processes[o["a"] % len(self.r.processes)]
        v, e = o["y"][0], abs(o["t"][0]) * 100 + 1
        self.m.add_gaussian_constraint_on_yield(p, v, e)
        equal("constrained value", self.m.constrained_yield_values[p], v)
        equal("constraint error", self.m.constrained_yield_errors[p], e)
        self.r.constraints[p] = (v, e)
        return lambda q: q[0] == "constr"

    # ---- rejected operations
    def rejected(self, what, fn):
        try:
            fn()
        except Exception:
            return None
        fail("%s was accepted" % what)

    def do_bad_template(self, o):
        cn = self.key(o)[0]
        p = self.key(o)[1]
        n = self.r.channels[cn]["nbins"]
        ax = [dict(n=n + 1, lo=0.0, hi=float(n + 1))]
        other = [q for q in self.r.processes if q not in self.r.channels[cn]["t"]]
        t = tf.Template1d("bad", "x", hist_from(ax, [1.0] * (n + 1)))
        return self.rejected("a template with another binning", lambda: self.m.add_template(cn, other[0] if other else p, t))

    def do_bad_data(self, o):
        names = list(self.r.channels)
        kw = {cn: hist_from(self.pr.axes[cn], np.full(self.r.channels[cn]["nbins"], 7.0)) for cn in names}
        n = self.r.channels[names[-1]]["nbins"]
        if o["a"] % 2:
            kw[names[-1]] = hist_from([dict(n=n + 1, lo=0.0, hi=float(n + 1))], [5.0] * (n + 1))
        else:
            kw["nowhere"] = hist_from([dict(n=2, lo=0.0, hi=1.0)], [5.0, 6.0])
        return self.rejected("data that do not fit", lambda: self.m.add_data(**kw))

    def do_bad_params(self, o):
        t = self.pr.t[self.key(o)]
        n = t.num_bins
        if o["a"] % 2:
            return self.rejected("parameters of the wrong length", lambda: setattr(t, "params", np.zeros(n + 2)))
        return self.rejected("nuisance parameters of the wrong length", lambda: setattr(t, "nui_params", np.zeros(n + 1)))

    def do_bad_process(self, o):
        cn = self.key(o)[0]
        if o["a"] % 2:
            return self.rejected("a constraint on an unknown process", lambda: self.m.add_gaussian_constraint_on_yield("nothing", 1.0, 1.0))
        t = tf.Template1d("new", "x", hist_from(self.pr.axes[cn], [1.0] * self.r.channels[cn]["nbins"])) if len(self.pr.axes[cn]) == 1 else \
            tf.Template2d("new", ("x", "y"), hist_from(self.pr.axes[cn], [1.0] * self.r.channels[cn]["nbins"]))
        return self.rejected("a template of an unknown process", lambda: self.m.add_template(cn, "nothing", t))

    def do_bad_yield(self, o):
        return self.rejected("the yield of an unknown process", lambda: self.m.set_yield("nothing", 3.0))

    def do_bad_cov(self, o):
        k = self.key(o)
        if len(self.pr.axes[k[0]]) > 1:
            return None
        n = self.pr.t[k].num_bins
        return self.rejected("a covariance matrix of the wrong shape", lambda: self.pr.t[k].add_cov_mat(np.eye(n + 1)))

    def do_bad_vector(self, o):
        """A likelihood evaluation that fails leaves the model alone."""
        x = np.full(max(len(self.r.processes) - 1, 0), 5.0)
        try:
            self.nlls[0](x)
        except Exception:
            pass
        return None


def state(h):
    """The model and the histograms it was made from (only those known so far)."""
    s = snapshot(h.m)
    for i, x in enumerate(h.late):
        s["input", i] = hist_state(x)
    return s


def check(c, ctx):
    h = History(c)
    reads = writes = 0
    before = state(h)
    for i, o in enumerate(c["ops"]):
        allowed = h.run(o)
        after = state(h)
        # histograms given to this operation are compared from now on
        ch = [p for p in changes(before, after) if p[0] in before or not isinstance(p[0], tuple) or p[0][0] != "input"]
        if allowed is None:
            ensure(not ch, "operation %d (%s) changed %s", i, o["op"], ch[:3])
            reads += 1
        else:
            bad = [p for p in ch if not allowed(p)]
            ensure(not bad, "operation %d (%s) changed %s", i, o["op"], bad[:3])
            writes += bool(ch)
        ctx.label(o["op"])
        before = after
    # reading everything leaves the model as it is now
    o = dict(a=len(c["ops"]), y=[20.0 * (k + 1) for k in range(len(h.r.processes))], t=[0.4, -0.7, 0.0, 1.1, -0.2, 0.6])
    for kind in ("numbers", "x0", "names", "asimov", "toy", "per_channel", "propagate", "template", "gof", "nll"):
        h.run(dict(o, op=kind))
        ch = changes(before, state(h))
        ensure(not ch, "%s after the history changed %s", kind, ch[:3])
    # the model still describes what the history says
    x = h.r.x0()
    close("start of a fit after the history", h.m.create_nll().x0, x, rtol=1e-11, atol=1e-12)
    for cn, ch in h.r.channels.items():
        for p, rt in ch["t"].items():
            close("values of %s in %s" % (p, cn), np.ravel(h.pr.t[cn, p].values), np.ravel(rt.values), rtol=1e-9, atol=1e-10 * abs(rt.yld))
            close("covariance of %s in %s" % (p, cn), h.pr.t[cn, p].cov_mat, rt.cov, rtol=1e-10, atol=1e-12 * np.max(rt.cov))
    ctx.hit(reads >= 2 and writes >= 1)
    ctx.label("zero or negative yields" if c.get("neg") else "positive yields")


SUBS = [
    Sub("history", case, check, quick=600, rule=RULE),
]
