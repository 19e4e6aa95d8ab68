"""Well-posed fit models, a fast reference likelihood with gradient, and an independent minimizer."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import minimize

from .build import Pair, admissible, syst_cov
from .gens import CNAMES, NAMES, axis, fixed_list, fl, num


# ------------------------------------------------------------------ generator
@st.composite
def fit_spec(draw, max_proc=3, max_ch=2, max_bins=4, dims=(1, 1, 1, 2), syst=True, constr=True, effs=True, min_proc=1,
             yields=(150, 3000), exact=False, missing=True, spread=(0.8, 1.25), units=False, big=False):
    """A model whose processes have distinguishable shapes, with data near the expectation at the true yields."""
    np_ = draw(st.sampled_from([n for n in (2, 1, 2, 3) if min_proc <= n <= max_proc]))
    nch = draw(st.sampled_from([n for n in (1, 1, 2) if n <= max_ch]))
    # now and then larger models: many channels, processes or bins
    kind = draw(st.integers(0, 29)) if big else None
    least = None
    if kind == 1:
        np_, nch, max_bins, dims = max(2, min_proc), draw(st.integers(3, 4)), 3, (1,)
    elif kind == 2:
        np_, nch, max_bins, dims = draw(st.integers(4, 5)), 1, 6, (1,)
    elif kind == 3:
        np_, nch, max_bins, dims, least = max(min_proc, draw(st.integers(1, 2))), 1, 12, (1,), 8
    procs = draw(st.permutations(NAMES))[:np_]
    truth = [draw(num(*yields)) for _ in procs]
    chans = []
    for ci, cn in enumerate(draw(st.permutations(CNAMES))[:nch]):
        dim = draw(st.sampled_from(dims))
        lo = max(2, np_)
        if dim == 1:
            nb = [draw(st.integers(least or lo, max(lo, max_bins)))]
        else:
            nb = draw(st.sampled_from([[2, 2], [2, 1], [1, 3], [3, 1]] if np_ <= 2 else [[2, 2], [1, 3], [3, 1]]))
        axes = []
        for k in nb:
            if draw(st.booleans()):
                axes.append(dict(n=k, lo=0.0, hi=float(k)))
            else:
                e = [0.0]
                for w in draw(fixed_list(st.sampled_from([1.0, 0.5, 2.0]), k)):
                    e.append(e[-1] + w)
                axes.append(dict(edges=e))
        n = int(np.prod(nb))
        order = draw(st.permutations(procs))
        if missing and ci > 0 and len(order) > 1 and draw(st.integers(0, 3)) == 0:
            order = order[:-1]
        temps = []
        for p in order:
            pi = procs.index(p)
            base = draw(st.floats(20, 90))
            f = draw(fixed_list(st.floats(0.6, 1.5), n))
            counts = [base * v for v in f]
            counts[(pi * n) // np_] += base * draw(st.floats(2.5, 5))
            mode = draw(st.integers(0, 1))
            errs = None if mode == 0 else [c * r for c, r in zip(counts, draw(fixed_list(st.floats(0.01, 0.12), n)))]
            ss = []
            if syst and draw(st.booleans()):
                sh = [c * r for c, r in zip(counts, draw(fixed_list(st.floats(-0.12, 0.12), n)))]
                if dim == 1 and draw(st.booleans()):
                    ss.append(dict(kind="cov", a=[[v] for v in sh]))
                else:
                    ss.append(dict(kind="ud", up=[c + v for c, v in zip(counts, sh)], down=[c - v for c, v in zip(counts, sh)]))
            temps.append(dict(p=p, name=p, eff=draw(st.one_of(st.just(1.0), st.floats(0.2, 1.2))) if effs else 1.0,
                              counts=counts, errs=errs, systs=ss))
        chans.append(dict(name=cn, axes=axes, temps=temps, z=[0.0] * n if exact else draw(fixed_list(st.floats(-1.5, 1.5), n))))
    cons = []
    if constr and draw(st.integers(0, 2)) == 0:
        i = draw(st.integers(0, np_ - 1))
        e = truth[i] * draw(st.floats(0.05, 0.5))
        cons.append([procs[i], truth[i] + (0 if exact else draw(st.floats(-1.5, 1.5))) * e, e])
    scale = [1.0] * np_
    if units and effs and draw(st.integers(0, 3)) == 0:
        # a yield in other units: the efficiencies convert it to events (Minuit loses its way for errors far above 1000)
        i, u = draw(st.integers(0, np_ - 1)), draw(st.sampled_from([100.0, 1000.0, 0.1]))
        truth[i] /= u
        scale[i] = u
        for ch in chans:
            for t in ch["temps"]:
                if t["p"] == procs[i]:
                    t["eff"] *= u
        cons = [[p, v / u, e / u] if p == procs[i] else [p, v, e] for p, v, e in cons]
    # start values: what the templates hold before the fit
    start = dict(y=draw(fixed_list(st.floats(*spread), np_)), t=draw(fixed_list(st.floats(-0.4, 0.4), 6)))
    return dict(model=dict(procs=list(procs), chans=chans, constr=cons), truth=truth, start=start, exact=exact, units=scale)


def build(c, model=None):
    """Pair with data as described by the case and the templates at the start values."""
    pr = Pair(c["model"], data=False, model=model)
    x = true_vector(pr, c)
    for ch in c["model"]["chans"]:
        nu = pr.r.expectation(x, ch["name"])
        d = nu if c["exact"] else np.maximum(np.round(nu + np.array(ch["z"]) * np.sqrt(np.maximum(nu, 0))), 0)
        pr.set_data(ch["name"], d)
    apply_start(pr, c)
    return pr


def true_vector(pr, c):
    return np.concatenate([c["truth"], np.zeros(pr.r.npar - len(c["truth"]))])


def apply_start(pr, c):
    s = c["start"]
    if s is None:
        return
    # a fit starts from the sum of the template yields of a process
    tot = [sum(ch["eff"][p] for ch in pr.r.channels.values() if p in ch["t"]) for p in pr.r.processes]
    y = [t * f / e for t, f, e in zip(c["truth"], s["y"], tot)]
    n = pr.r.npar - len(y)
    x = np.concatenate([y, [s["t"][i % len(s["t"])] for i in range(n)]])
    pr.m.update_parameters(x)
    pr.r.update(x)


# ------------------------------------------------------------------ fast reference likelihood
class Fast:
    def __init__(self, r, data=None, constraints=None):
        self.np_ = len(r.processes)
        self.n = r.npar
        self.cons = [(r.processes.index(p), v, e) for p, (v, e) in (r.constraints if constraints is None else constraints).items()]
        self.ch = []
        pos = self.np_
        # events per unit of yield
        self.unit = np.array([max([c["eff"][p] for c in r.channels.values() if p in c["t"]] or [1.0]) for p in r.processes])
        for cn, c in r.channels.items():
            N = np.array([t.n for t in c["t"].values()])
            R = np.array([t.rel for t in c["t"].values()])
            e = np.array([c["eff"][p] for p in c["t"]])
            i = np.array([r.processes.index(p) for p in c["t"]])
            d = np.ravel(c["data"] if data is None else data[cn]).astype(float)
            k = N.size
            sup = N.sum(axis=0) > 0
            self.ch.append((N, R, e, i, d, sup, slice(pos, pos + k), [t.inv_corr for t in c["t"].values()]))
            pos += k

    def fg(self, x, grad=True):
        f = 0.0
        g = np.zeros(self.n)
        for N, R, e, i, d, sup, sl, ic in self.ch:
            th = x[sl].reshape(N.shape)
            V = N * (1 + th * R)
            S = V.sum(axis=1, keepdims=True)
            F = V / S
            a = x[i] * e
            nu = a @ F
            nus, ds = nu[sup], d[sup]
            if np.any(nus <= 0) or np.any(S <= 0):
                return np.inf, np.zeros(self.n)
            pos = ds > 0
            u = (nus[pos] - ds[pos]) / ds[pos]
            f += np.sum(nus[~pos]) + np.sum(ds[pos] * (u - np.log1p(u)))
            q = np.array([m @ t for m, t in zip(ic, th)])
            f += 0.5 * np.sum(q * th)
            if grad:
                gn = np.zeros(len(nu))
                gn[sup] = 1 - ds / nus
                np.add.at(g, i, e * (F @ gn))
                g[sl] = (a[:, None] * N * R / S * (gn[None, :] - (F @ gn)[:, None]) + q).ravel()
        for k, v, s in self.cons:
            f += 0.5 * ((x[k] - v) / s) ** 2
            g[k] += (x[k] - v) / s ** 2
        return f, g

    def f(self, x):
        return self.fg(x, False)[0]

    def scale(self, x):
        s = np.ones(self.n)
        s[:self.np_] = np.maximum(np.sqrt(np.abs(x[:self.np_] * self.unit)), 1.0) / self.unit
        return s

    def hess(self, x, free=None):
        """Second derivatives from central differences of the exact gradient."""
        free = list(range(self.n)) if free is None else list(free)
        s = self.scale(x)
        H = np.zeros((len(free), len(free)))
        for a, k in enumerate(free):
            def col(h):
                e = np.zeros(self.n)
                e[k] = h
                return (self.fg(x + e)[1][free] - self.fg(x - e)[1][free]) / (2 * h)
            h = 1e-2 * s[k]
            H[a] = (4 * col(h / 2) - col(h)) / 3
        return (H + H.T) / 2

    def cov(self, x, free=None):
        free = list(range(self.n)) if free is None else list(free)
        C = np.zeros((self.n, self.n))
        C[np.ix_(free, free)] = np.linalg.inv(self.hess(x, free))
        return C

    def minimize(self, x0, fixed=(), bounds=None):
        """(x, f) of the conditional minimum; starts from x0, keeps x0[i] for i in fixed."""
        x0 = np.array(x0, dtype=float)
        bounds = bounds or {}
        free = np.array([i for i in range(self.n) if i not in set(fixed)], dtype=int)
        if len(free) == 0:
            return x0, self.f(x0)
        s = self.scale(x0)[free]
        lo = np.array([-np.inf if bounds.get(i, (None, None))[0] is None else bounds[i][0] for i in free])
        hi = np.array([np.inf if bounds.get(i, (None, None))[1] is None else bounds[i][1] for i in free])
        cur = np.clip(x0[free], lo, hi)

        def full(v):
            x = x0.copy()
            x[free] = v
            return x

        def fun(u):
            f, g = self.fg(full(u * s))
            if not np.isfinite(f):
                return 1e30, np.zeros(len(u))
            return f, g[free] * s

        r = minimize(fun, cur / s, jac=True, method="L-BFGS-B", bounds=list(zip(lo / s, hi / s)),
                     options=dict(maxiter=2000, maxfun=10000, ftol=1e-15, gtol=1e-9))
        cur = np.clip(r.x * s, lo, hi)
        f = self.f(full(cur))
        # Newton steps on the inactive parameters
        for _ in range(8):
            g = self.fg(full(cur))[1][free]
            act = ((cur <= lo) & (g > 0)) | ((cur >= hi) & (g < 0))
            ia = np.where(~act)[0]
            if len(ia) == 0:
                break
            try:
                step = np.linalg.solve(self.hess(full(cur), free[ia]), g[ia])
            except np.linalg.LinAlgError:
                break
            done = False
            t = 1.0
            while t > 1e-3:
                new = cur.copy()
                new[ia] -= t * step
                new = np.clip(new, lo, hi)
                fn = self.f(full(new))
                if fn <= f:
                    done = f - fn > 1e-13 * (1 + abs(f))
                    cur, f = new, fn
                    break
                t /= 2
            if not done:
                break
        return full(cur), f


def set_start(pr, x0):
    """Sets the templates so that a fit starts from x0 (the yield of a process is the sum over its templates)."""
    tot = np.array([sum(ch["eff"][p] for ch in pr.r.channels.values() if p in ch["t"]) for p in pr.r.processes])
    x = np.array(x0, dtype=float)
    x[:len(tot)] /= tot
    pr.m.update_parameters(x)
    pr.r.update(x)


def run_fit(fitter, mid, **kw):
    """The fit result, or None if the fit reports that it failed."""
    kw.setdefault("verbose", 0 if mid == "iminuit" else False)
    try:
        res = fitter.do_fit(**kw)
    except RuntimeError:
        return None
    return res if res.succes else None


# tolerated distance in likelihood between a successful fit and the minimum
TOL = dict(iminuit=3e-3, scipy=2e-4)
