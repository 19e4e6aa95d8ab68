"""Independent re-statement of the documented formulas (shares no code with /repo)."""
import math

import numpy as np


# ---------------------------------------------------------------- histograms
def ref_edges(binning):
    """Edges of one axis: {"n":.., "lo":.., "hi":..} or {"edges": [...]}"""
    if "edges" in binning:
        return np.array(binning["edges"], dtype=float)
    n, lo, hi = binning["n"], binning["lo"], binning["hi"]
    return np.array([lo + (hi - lo) * (i / n) for i in range(n)] + [hi], dtype=float)


def bin_index(x, edges):
    """Half-open bins, the last one closed; None if outside or not finite."""
    if not math.isfinite(x) or x < edges[0] or x > edges[-1]:
        return None
    n = len(edges) - 1
    for i in range(n):
        if x < edges[i + 1]:
            return i
    return n - 1


def ref_fill(edges_list, points, weights):
    """edges_list: one array per axis, points: list of tuples.  Returns counts, errors^2, sum|w|, sum w^2."""
    shape = tuple(len(e) - 1 for e in edges_list)
    cont, sq = {}, {}
    edges_list = [[float(v) for v in e] for e in edges_list]
    for p, w in zip(points, weights):
        idx = tuple(bin_index(float(x), e) for x, e in zip(p, edges_list))
        if any(i is None for i in idx):
            continue
        cont.setdefault(idx, []).append(float(w))
        sq.setdefault(idx, []).append(float(w) * float(w))
    counts, errsq, scale = np.zeros(shape), np.zeros(shape), np.zeros(shape)
    for idx, ws in cont.items():
        counts[idx] = math.fsum(ws)
        scale[idx] = math.fsum(abs(w) for w in ws)
        errsq[idx] = math.fsum(sq[idx])
    return counts, errsq, scale


# ---------------------------------------------------------------- templates
class RefTemplate:
    """Bins are kept flat (C order)."""

    def __init__(self, counts, errors_sq):
        self.shape = np.shape(counts)
        self.n = np.array(counts, dtype=float).reshape(-1)
        e = np.array(errors_sq, dtype=float).reshape(-1)
        self.stat = np.array([v if v != 0 else 1e-14 for v in e])
        self.systs = []
        self.yld = float(sum(self.n))
        self.nui = np.zeros(len(self.n))

    # systematics
    def add_cov(self, cov):
        self.systs.append(np.array(cov, dtype=float))

    def add_updown(self, up, down):
        self.add_cov(ref_syst_cov(self.n, np.ravel(up), np.ravel(down)))

    @property
    def cov(self):
        c = np.zeros((len(self.n),) * 2)
        for i, v in enumerate(self.stat):
            c[i, i] = v
        for s in self.systs:
            c = c + s
        return c

    @property
    def cov_mats(self):
        return [np.diag(self.stat)] + self.systs

    @property
    def rel(self):
        d = np.sqrt(np.diag(self.cov))
        return np.array([s / n if n != 0 else 1e-7 for s, n in zip(d, self.n)])

    @property
    def corr(self):
        return ref_corr(self.cov)

    @property
    def inv_corr(self):
        return np.linalg.inv(self.corr)

    def fractions(self, nui):
        v = [n * (1.0 + t * e) for n, t, e in zip(self.n, nui, self.rel)]
        s = math.fsum(v)
        if s == 0:
            return np.zeros(len(v))
        return np.array([x / s for x in v])

    @property
    def values(self):
        return (self.yld * self.fractions(self.nui)).reshape(self.shape)

    @property
    def errors(self):
        return self.rel.reshape(self.shape) * self.values


def ref_syst_cov(nom, up, down):
    d = []
    for n, u, v in zip(nom, up, down):
        s = (abs(u - n) + abs(v - n)) / 2.0
        d.append(-s if u < v else s)
    k = len(d)
    return np.array([[d[i] * d[j] for j in range(k)] for i in range(k)])


def ref_corr(cov):
    cov = np.asarray(cov, dtype=float)
    k = len(cov)
    out = np.zeros((k, k))
    for i in range(k):
        for j in range(k):
            if cov[i, i] > 0 and cov[j, j] > 0:
                out[i, j] = cov[i, j] / (math.sqrt(cov[i, i]) * math.sqrt(cov[j, j]))
    return out


# ---------------------------------------------------------------- likelihood
def poisson_term(nu, n):
    """nu - n - n log(nu/n)"""
    if n == 0:
        return nu
    d = (nu - n) / n
    if abs(d) < 1e-2:
        # n * (d - log(1+d)) = n * (d^2/2 - d^3/3 + d^4/4 - ...)
        return n * math.fsum((-1) ** k * d ** k / k for k in range(2, 14))
    return n * (d - math.log(nu / n))


class RefModel:
    """Processes, channels (name, shape), templates[ch][process] = (RefTemplate, eff), data, constraints."""

    def __init__(self):
        self.processes = []
        self.channels = {}  # name -> dict(templates={process: RefTemplate}, eff={}, data=None, nbins=int)
        self.constraints = {}

    def add_channel(self, name, nbins):
        self.channels[name] = dict(t={}, eff={}, data=None, nbins=nbins)

    @property
    def npar(self):
        return len(self.processes) + sum(len(c["t"]) * c["nbins"] for c in self.channels.values())

    def names(self):
        out = [p + "_yield" for p in self.processes]
        for cn, c in self.channels.items():
            for p in c["t"]:
                out += ["%s_%s_bin_%d" % (cn, p, i) for i in range(c["nbins"])]
        return out

    def split(self, x):
        """Yields by process and nuisance vectors by (channel, process)."""
        y = {p: float(x[i]) for i, p in enumerate(self.processes)}
        pos = len(self.processes)
        nui = {}
        for cn, c in self.channels.items():
            for p in c["t"]:
                nui[cn, p] = np.array(x[pos:pos + c["nbins"]], dtype=float)
                pos += c["nbins"]
        return y, nui

    def x0(self):
        y = [math.fsum(c["t"][p].yld for c in self.channels.values() if p in c["t"]) for p in self.processes]
        nui = [v for c in self.channels.values() for t in c["t"].values() for v in t.nui]
        return np.array(list(y) + list(nui))

    def update(self, x):
        y, nui = self.split(x)
        for cn, c in self.channels.items():
            for p, t in c["t"].items():
                t.yld = y[p] * c["eff"][p]
                t.nui = nui[cn, p].copy()

    def expectation(self, x, cn):
        """Flat expected bin counts of a channel."""
        y, nui = self.split(x)
        c = self.channels[cn]
        out = np.zeros(c["nbins"])
        for p, t in c["t"].items():
            out = out + y[p] * c["eff"][p] * t.fractions(nui[cn, p])
        return out

    def values(self, cn):
        """Sum of the current template values (flat)."""
        c = self.channels[cn]
        return sum(np.ravel(t.values) for t in c["t"].values())

    def nll_terms(self, x):
        y, nui = self.split(x)
        terms = []
        for cn, c in self.channels.items():
            nu = self.expectation(x, cn)
            for e, d in zip(nu, np.ravel(c["data"])):
                terms.append(poisson_term(float(e), float(d)))
            for p, t in c["t"].items():
                v = nui[cn, p]
                if np.any(v != 0):
                    terms.append(0.5 * float(v @ t.inv_corr @ v))
        for p, (val, err) in self.constraints.items():
            terms.append(0.5 * ((y[p] - val) / err) ** 2)
        return terms

    def nll(self, x):
        return math.fsum(self.nll_terms(x))


def num_hessian(f, x, free, h):
    """Central second differences with Richardson extrapolation over the indices in free."""
    k = len(free)

    def hess(step):
        H = np.zeros((k, k))
        f0 = f(x)
        for a in range(k):
            ea = np.zeros(len(x)); ea[free[a]] = step[a]
            H[a, a] = (f(x + ea) - 2 * f0 + f(x - ea)) / step[a] ** 2
            for b in range(a):
                eb = np.zeros(len(x)); eb[free[b]] = step[b]
                H[a, b] = H[b, a] = (f(x + ea + eb) - f(x + ea - eb) - f(x - ea + eb) + f(x - ea - eb)) / (4 * step[a] * step[b])
        return H

    h = np.asarray(h, dtype=float)
    return (4 * hess(h / 2) - hess(h)) / 3
