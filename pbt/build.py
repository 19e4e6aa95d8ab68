"""Builds real and reference objects from the same case description."""
import itertools

import numpy as np

import templatefitter as tf

from . import ref
from .core import close


def make_axes(axes):
    """bins and range arguments plus exact edges."""
    return [ref.ref_edges(a) for a in axes]


def hist_from(axes, counts, errs=None):
    """A real histogram with these bin contents (public constructors only)."""
    edges = real_edges(axes)
    shape = tuple(len(e) - 1 for e in edges)
    c = np.array(counts, dtype=float).reshape(shape)
    e = None if errs is None else np.array(errs, dtype=float).reshape(shape)
    if len(edges) == 1:
        return tf.Hist1d.from_binned_data(c, edges[0], e)
    return tf.Hist2d.from_binned_data(c, tuple(edges), e)


def real_edges(axes):
    out = []
    for a in axes:
        if "edges" in a:
            out.append(np.array(a["edges"], dtype=float))
        else:
            out.append(np.linspace(a["lo"], a["hi"], a["n"] + 1))
    return out


def channel_args(axes):
    """bins and range for define_channel."""
    edges = real_edges(axes)
    bins = tuple(len(e) - 1 for e in edges)
    rng = tuple((e[0], e[-1]) for e in edges)
    if len(axes) == 1:
        return bins[0], rng[0]
    return bins, rng


def mids(axes):
    """Flat list of bin centres, 1d array or (2, n) array."""
    edges = real_edges(axes)
    m = [(e[1:] + e[:-1]) / 2 for e in edges]
    if len(m) == 1:
        return m[0]
    return np.array(list(itertools.product(*m))).T


def template_from(name, axes, t, inputs=None, **kw):
    """(real template, reference template)"""
    h = hist_from(axes, t["counts"], t["errs"])
    if inputs is not None:
        inputs.append(h)
    if len(axes) == 1:
        tmpl = tf.Template1d(name, "x", h, **kw)
    else:
        tmpl = tf.Template2d(name, ("x", "y"), h, **kw)
    shape = tuple(len(e) - 1 for e in real_edges(axes))
    c = np.array(t["counts"], dtype=float).reshape(shape)
    e2 = c if t["errs"] is None else np.array(t["errs"], dtype=float).reshape(shape) ** 2
    r = ref.RefTemplate(c, e2)
    for s in t["systs"]:
        add_syst(tmpl, r, axes, s)
    return tmpl, r


MAX_COND = 1e8


def admissible(r, cov):
    """The domain: the correlation matrix of the total covariance has to be invertible in double precision."""
    c = ref.ref_corr(r.cov + cov)
    k = np.linalg.cond(c)
    return np.isfinite(k) and k < MAX_COND


def syst_cov(r, s):
    if s["kind"] == "cov":
        a = np.array(s["a"], dtype=float)
        return a @ a.T
    return ref.ref_syst_cov(r.n, np.ravel(s["up"]), np.ravel(s["down"]))


def add_syst(tmpl, r, axes, s):
    """Adds a systematic to both; returns False if it is outside the domain (see admissible)."""
    if not admissible(r, syst_cov(r, s)):
        return False
    if s["kind"] == "cov":
        a = np.array(s["a"], dtype=float)
        cov = a @ a.T
        if tmpl is not None:
            tmpl.add_cov_mat(cov)
        if r is not None:
            r.add_cov(cov)
    else:
        if tmpl is not None:
            tmpl.add_variation(mids(axes), np.array(s["up"], dtype=float), np.array(s["down"], dtype=float))
        if r is not None:
            r.add_updown(s["up"], s["down"])
    return True


class Pair:
    """A MultiChannelTemplate with its reference model."""

    def __init__(self, spec, data=True, model=None):
        self.spec = spec
        self.inputs = []  # histograms handed to the model
        self.m = tf.MultiChannelTemplate() if model is None else model
        self.r = ref.RefModel()
        self.t = {}
        self.axes = {}
        for p in spec["procs"]:
            self.m.define_process(p)
            self.r.processes.append(p)
        for c in spec["chans"]:
            self.add_channel(c)
        for c in spec["chans"]:
            for t in c["temps"]:
                self.add_template(c["name"], t)
        for p, v, e in spec.get("constr", []):
            self.m.add_gaussian_constraint_on_yield(p, v, e)
            self.r.constraints[p] = (v, e)
        if data:
            for c in spec["chans"]:
                if c.get("data") is not None:
                    self.set_data(c["name"], c["data"])

    def add_channel(self, c):
        b, rg = channel_args(c["axes"])
        self.m.define_channel(c["name"], b, rg)
        self.axes[c["name"]] = c["axes"]
        n = 1
        for e in real_edges(c["axes"]):
            n *= len(e) - 1
        self.r.add_channel(c["name"], n)

    def add_template(self, cn, t):
        tm, rt = template_from(t.get("name", t["p"]), self.axes[cn], t, self.inputs)
        self.m.add_template(cn, t["p"], tm, t["eff"])
        self.r.channels[cn]["t"][t["p"]] = rt
        self.r.channels[cn]["eff"][t["p"]] = t["eff"]
        self.t[cn, t["p"]] = tm
        return tm, rt

    def support(self, cn):
        """Bins in which some template can contribute."""
        c = self.r.channels[cn]
        s = np.zeros(c["nbins"], dtype=bool)
        for p, t in c["t"].items():
            s |= t.n > 0
        return s

    def set_data(self, cn, data):
        d = np.array(data, dtype=float)
        d = np.where(self.support(cn), d, 0.0)
        h = hist_from(self.axes[cn], d)
        self.m.add_data(**{cn: h})
        self.inputs.append(h)
        self.r.channels[cn]["data"] = d

    def vector(self, pt):
        """Parameter vector with nuisance parameters clipped to keep 1+theta*eps >= 0.1."""
        rel = np.array([v for c in self.r.channels.values() for t in c["t"].values() for v in t.rel])
        t = np.array(pt["t"], dtype=float)
        if len(t):
            with np.errstate(all="ignore"):
                lim = np.where(rel > 0, 0.9 / rel, np.inf)
            t = np.maximum(t, -lim)
        return np.concatenate([np.array(pt["y"], dtype=float), t])


def nll_tol(r, x):
    """Absolute rounding tolerance for a likelihood value."""
    y, nui = r.split(x)
    tol = 1e-9
    for cn, c in r.channels.items():
        nu = r.expectation(x, cn)
        d = np.ravel(c["data"])
        tol += 1e-11 * float(np.sum(np.abs(nu) + np.abs(d) * (1 + np.abs(np.log(np.where(d > 0, nu / np.where(d > 0, d, 1), 1))))))
        for p, t in c["t"].items():
            v = nui[cn, p]
            if t.systs:
                k = np.linalg.cond(t.corr)
                iv = np.linalg.norm(t.inv_corr, 2)
                tol += 1e-14 * k * iv * float(v @ v) * len(v)
            tol += 1e-12 * float(v @ v)
    for p, (val, err) in r.constraints.items():
        tol += 1e-11 * ((abs(y[p]) + abs(val)) / err) ** 2
    return tol


def snapshot(m):
    """Full observable state of a model (copies)."""
    out = dict(processes=tuple(m.processes), channels=tuple(m.channels.keys()),
               constr=(tuple(m.constrained_yields), dict(m.constrained_yield_values), dict(m.constrained_yield_errors)))
    for cn, c in m.channels.items():
        s = dict(processes=tuple(c.processes), bins=tuple(c.bins), range=c.range, eff=dict(c.efficiencies),
                 has_data=c.has_data, num=(c.num_templates, c.num_bins, c.num_nui_params))
        if c.has_data:
            s["data"] = np.array(c.data_bin_counts, dtype=float)
        for p, t in c.templates.items():
            s["t", p] = template_state(t)
        out["ch", cn] = s
    return out


def hist_state(h):
    e = h.bin_edges
    return dict(counts=np.array(h.bin_counts, dtype=float), err2=np.array(h.bin_errors_sq, dtype=float),
                edges=[np.array(v) for v in (e if len(np.shape(h.bin_counts)) > 1 else [e])])


def template_state(t):
    return dict(name=t.name, look=(t.color, t.pretty_label), params=np.array(t.params, dtype=float), values=np.array(t.values), errors=np.array(t.errors),
                cov=np.array(t.cov_mat), covs=[np.array(c) for c in t.cov_mats], corr=np.array(t.corr),
                inv=np.array(t.inv_corr_mat), edges=[np.array(e) for e in (t.bin_edges if len(t.shape) > 1 else [t.bin_edges])])


def diff(a, b, path=""):
    """First difference between two snapshots, or None."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a.keys()) != list(b.keys()):
            return "%s: keys %s / %s" % (path, list(a), list(b) if isinstance(b, dict) else b)
        for k in a:
            d = diff(a[k], b[k], "%s/%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.shape(a) != np.shape(b) or not np.array_equal(a, b, equal_nan=True):
            return "%s: %s / %s" % (path, a, b)
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d / %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if not (a == b):
        return "%s: %r / %r" % (path, a, b)
    return None


__all__ = [n for n in dir() if not n.startswith("_")]
