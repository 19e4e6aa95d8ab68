"""P18: toy studies record one independent fit per experiment."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import poisson

import templatefitter as tf
from pbt.build import diff, snapshot
from pbt.core import Sub, close, ensure, equal, raises, same
from pbt.fits import Fast, build, fit_spec
from pbt.gens import fixed_list

RULE = "non-trivial: at least two processes and at least three recorded experiments"
ALPHA = 1e-11


class FlakyNll:
    """A likelihood that fails at one of its evaluations."""

    def __init__(self, nll, at):
        self._nll = nll
        self._left = at

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._nll, name)

    def __call__(self, x):
        self._left -= 1
        if self._left < 0:
            raise RuntimeError("injected")
        return self._nll(x)


class Recorder(tf.MultiChannelTemplate):
    """The real model; records the data of every try and fails on demand."""

    armed = False

    def arm(self, plan, mode, at=0):
        self.armed, self.plan, self.mode, self.at = True, list(plan), mode, at
        self.tries = 0  # toy datasets asked for
        self.toys = []  # data of every try
        self.bad = False

    def generate_toy_dataset(self):
        if self.armed:
            self.bad = bool(self.plan[self.tries]) if self.tries < len(self.plan) else False
            self.tries += 1
            if self.bad and self.mode == "toy":
                raise RuntimeError("injected")
        return super().generate_toy_dataset()

    def add_data(self, **kw):
        super().add_data(**kw)
        if self.armed:
            self.toys.append(({k: np.array(np.ravel(h.bin_counts), dtype=float) for k, h in kw.items()}, self.bad))
            if self.bad and self.mode == "data":
                raise RuntimeError("injected")

    def create_nll(self):
        nll = super().create_nll()
        if self.armed and self.bad:
            if self.mode == "nll":
                raise RuntimeError("injected")
            if self.mode == "fit":
                return FlakyNll(nll, self.at)
        return nll


@st.composite
def study_model(draw, yields=(200, 2500)):
    c = draw(fit_spec(yields=yields, constr=True, max_bins=4, big=True))
    unit(c)
    return c


def unit(c):
    """The efficiencies of a process add up to about one, so that fits start near their optimum."""
    for p in c["model"]["procs"]:
        ts = [t for ch in c["model"]["chans"] for t in ch["temps"] if t["p"] == p]
        tot = sum(t["eff"] for t in ts)
        if not 0.8 <= tot <= 1.2:
            for t in ts:
                t["eff"] = t["eff"] / tot


@st.composite
def case(draw):
    c = draw(study_model())
    if draw(st.integers(0, 3)) == 0:
        # a yield which is known to a fraction of an event
        i, e = draw(st.integers(0, len(c["truth"]) - 1)), draw(st.floats(0.2, 0.9))
        c["model"]["constr"] = [[c["model"]["procs"][i], c["truth"][i] + draw(st.floats(-1, 1)) * e, e]]
    c["mid"] = draw(st.sampled_from(["iminuit", "scipy", "IMinuit"]))
    c["mode"] = draw(st.sampled_from(["none", "toy", "data", "nll", "fit", "fit"]))
    c["at"] = draw(st.integers(0, 12))
    c["runs"] = draw(st.lists(st.fixed_dictionaries(dict(
        n=st.sampled_from([3, 1, 5, 8]), tries=st.sampled_from([None, 3, None, 2, 1]), fails=st.lists(st.sampled_from([0, 1, 0, 2, 0, 0, 3]), max_size=8),
        start=fixed_list(st.floats(0.7, 1.4), 3), lin=st.sampled_from([0, 0, 1, 2]))), min_size=1, max_size=2))
    return c


def check_results(what, study, m, r, toys, x0, ctx):
    """Every recorded fit belongs to its toy dataset."""
    n = len(toys)
    np_ = len(r.processes)
    par, unc = np.array(study.result_parameters, dtype=float), np.array(study.result_uncertainties, dtype=float)
    ensure(par.shape == (n, r.npar) and unc.shape == (n, r.npar), "%s: results of shape %s and %s for %d experiments", what, par.shape, unc.shape, n)
    nui = list(range(np_, r.npar))
    exp = sum_yields(r, x0)
    for i, toy in enumerate(toys):
        F = Fast(r, data=toy)
        best, f = F.minimize(x0, nui)
        cov = F.cov(best, list(range(np_)))
        sig = np.sqrt(np.diag(cov))[:np_]
        ensure(np.all(np.abs(par[i, :np_] - best[:np_]) <= 0.1 * sig), "%s: experiment %d recorded %s, the fit of its data gives %s +- %s",
               what, i, par[i, :np_], best[:np_], sig)
        close("%s: uncertainties of experiment %d" % (what, i), unc[i, :np_], sig, rtol=0.03)
        close("%s: nuisance parameters of experiment %d" % (what, i), par[i, np_:], x0[np_:], rtol=1e-9, atol=1e-9)
    for j, p in enumerate(r.processes):
        a, b = study.get_toy_results(p)
        same("%s: parameters of %s" % (what, p), a, par[:, j])
        same("%s: uncertainties of %s" % (what, p), b, unc[:, j])
        close("%s: pulls of %s" % (what, p), study.get_toy_result_pulls(p), (par[:, j] - exp[j]) / unc[:, j], rtol=1e-9, atol=1e-9)
    ctx.hit(np_ > 1 and n >= 3)


def sum_yields(r, x):
    """Yields of the model: sums of the template yields."""
    tot = [sum(ch["eff"][p] for ch in r.channels.values() if p in ch["t"]) for p in r.processes]
    return x[:len(tot)] * tot


def poisson_ok(what, r, x, toys):
    """The summed toys against their expectation."""
    for cn in r.channels:
        v = r.expectation(x, cn)
        s = np.sum([t[cn] for t in toys], axis=0)
        n = len(toys)
        ensure(np.all(s == np.round(s)) and np.all(s >= 0), "%s: data of %s are not counts: %s", what, cn, s)
        p = np.minimum(poisson.cdf(s, n * v), poisson.sf(s - 1, n * v))
        ensure(np.all(p > ALPHA), "%s: mean of %d toys in %s is %s, the model expects %s", what, n, cn, s / n, v)


def refused(what, study, p):
    for name, fn in (("result_parameters", lambda: study.result_parameters), ("result_uncertainties", lambda: study.result_uncertainties),
                     ("get_toy_results", lambda: study.get_toy_results(p)), ("get_toy_result_pulls", lambda: study.get_toy_result_pulls(p))):
        raises("%s: %s" % (what, name), fn)


def check(c, ctx):
    m = Recorder()
    pr = build(c, m)
    r = pr.r
    np_ = len(r.processes)
    if r.npar > 8 and c["mid"] == "scipy":
        # the numerical second derivatives take too long
        c["mid"] = "iminuit"
    study = tf.ToyStudy(m, c["mid"])
    refused("before the study", study, r.processes[0])
    nui = r.x0()[np_:]
    runs = list(c["runs"])
    for k, run in enumerate(runs):
        if run.get("lin"):
            # a linearity test with the same study in between
            t = c["truth"][0]
            try:
                study.do_linearity_test(r.processes[0], (0.8 * t, 1.2 * t), n_points=run["lin"], n_exp=2)
                ctx.label("after-linearity")
            except RuntimeError:
                return
        # the current parameters of the model
        x = np.concatenate([[t * run["start"][i % 3] for i, t in enumerate(c["truth"])], nui])
        m.update_parameters(x)
        r.update(x)
        fails = [] if c["mode"] == "none" else [run["fails"][i] if i < len(run["fails"]) else 0 for i in range(run["n"])]
        plan = []
        for f in fails:
            plan += [True] * f + [False]
        tries = run["tries"]
        give_up = next((i for i, f in enumerate(fails) if f >= (10 if tries is None else tries)), None)
        before = snapshot(m)
        m.arm(plan, c["mode"], c["at"])
        what = "%s study %d of %d experiments (failures %s, %s tries, mode %s)" % (c["mid"], k, run["n"], fails, tries, c["mode"])
        kw = {} if tries is None else dict(max_tries=tries)
        try:
            study.do_experiments(run["n"], **kw)
            gave_up = False
        except RuntimeError:
            gave_up = True
        m.armed = False
        ensure(gave_up == (give_up is not None), "%s: %s", what, "gave up" if gave_up else "did not give up")
        want = sum(f + 1 for f in fails[:give_up]) + tries if gave_up else sum(f + 1 for f in fails) if fails else run["n"]
        equal(what + ": number of tries", m.tries, want)
        toys = [t for t, bad in m.toys]
        flat = [tuple(np.concatenate([t[cn] for cn in r.channels])) for t in toys]
        if len(set(flat)) < len(flat):
            # probability that independent draws coincide that often
            mu = np.concatenate([r.expectation(x, cn) for cn in r.channels])
            same_ = np.prod([np.sum(poisson.pmf(np.arange(int(v + 12 * np.sqrt(v) + 20)), v) ** 2) for v in mu])
            k_ = len(flat) - len(set(flat))
            pairs = len(flat) * (len(flat) - 1) / 2
            ensure((pairs * same_) ** k_ > 1e-9, "%s: %d of %d toy datasets repeat others", what, k_, len(flat))
        if toys:
            poisson_ok(what, r, x, toys)
        after = snapshot(m)
        for cn in r.channels:
            for key in before["ch", cn]:
                if key not in ("data", "has_data"):
                    d = diff(before["ch", cn][key], after["ch", cn][key])
                    ensure(d is None, "%s changed %s of %s: %s", what, key, cn, d)
        if gave_up:
            ctx.label("gave-up")
            if k == len(runs) - 1 and k < 2:
                # the next study does not contain experiments of this one
                runs.append(dict(run, n=2, fails=[], lin=0))
            continue
        check_results(what, study, m, r, [t for t, bad in m.toys if not bad], x, ctx)
        ctx.label("mode-" + c["mode"], "retries" if any(fails) else "no-retries", "run-%d" % k, c["mid"].lower())


# ------------------------------------------------------------------ linearity
@st.composite
def lin_case(draw):
    c = draw(study_model(yields=(300, 2500)))
    c["mid"] = draw(st.sampled_from(["iminuit", "iminuit", "scipy"]))
    c["k"] = draw(st.integers(0, 2))
    a = draw(st.floats(60, 600))
    c["limits"] = [a, a * draw(st.floats(1.5, 4))]
    c["points"] = draw(st.sampled_from([3, 2, 4]))
    c["n"] = draw(st.sampled_from([4, 2, 6, 10]))
    c["mode"] = draw(st.sampled_from(["none", "none", "fit", "toy"]))
    c["fails"] = draw(st.lists(st.booleans(), max_size=8))
    return c


def check_linearity(c, ctx):
    m = Recorder()
    pr = build(c, m)
    r = pr.r
    np_ = len(r.processes)
    k = c["k"] % np_
    p = r.processes[k]
    if any(p not in ch["t"] and np.sum(list(ch["t"].values())[0].n) == 0 for ch in r.channels.values()):
        return
    study = tf.ToyStudy(m, c["mid"])
    m.arm(c["fails"] if c["mode"] != "none" else [], c["mode"], 3)
    pts, mean, std = study.do_linearity_test(p, tuple(c["limits"]), n_points=c["points"], n_exp=c["n"])
    m.armed = False
    what = "%s linearity test of %s" % (c["mid"], p)
    n = c["points"]
    close(what + ": points", pts, np.linspace(c["limits"][0], c["limits"][1], n), rtol=1e-9)
    ensure(len(mean) == n and len(std) == n, "%s: %d means and %d spreads for %d points", what, len(mean), len(std), n)
    toys = [t for t, bad in m.toys if not bad]
    equal(what + ": number of fits", len(toys), n * c["n"])
    # the templates of the other processes hold their initial yields
    for ch in r.channels.values():
        for t in ch["t"].values():
            t.yld = float(np.sum(t.n))
            t.nui = np.zeros(len(t.n))
    base = r.x0()
    tot = sum_yields(r, np.ones(r.npar))
    base[:np_] /= tot
    for i in range(n):
        x = base.copy()
        x[k] = pts[i]
        block = toys[i * c["n"]:(i + 1) * c["n"]]
        exp = {}
        for cn, ch in r.channels.items():
            e = np.zeros(ch["nbins"])
            for q, t in ch["t"].items():
                if q == p:
                    t.yld = pts[i] * ch["eff"][q]
                e = e + np.ravel(t.values)
            s = np.sum([b[cn] for b in block], axis=0)
            pv = np.minimum(poisson.cdf(s, len(block) * e), poisson.sf(s - 1, len(block) * e))
            ensure(np.all(pv > ALPHA), "%s: mean of the toys at %r in %s is %s, expected %s", what, pts[i], cn, s / len(block), e)
        fits, sig = [], []
        for b in block:
            F = Fast(r, data=b)
            best, f = F.minimize(np.maximum(x, [1.0] * np_ + [-9] * (r.npar - np_)), list(range(np_, r.npar)))
            fits.append(best[k])
            sig.append(np.sqrt(F.cov(best, list(range(np_)))[k, k]))
        close("%s: mean at %r" % (what, pts[i]), mean[i], np.mean(fits), rtol=0, atol=0.1 * np.max(sig))
        close("%s: spread at %r" % (what, pts[i]), std[i], np.std(fits), rtol=0, atol=0.1 * np.max(sig))
    same(what + ": last results", np.array(study.get_toy_results(p)[0]).shape, (c["n"],))
    ctx.hit(np_ > 1 and c["n"] * n >= 3)
    ctx.label(c["mid"], "mode-" + c["mode"])


# ------------------------------------------------------------------ statistics
def stat_case():
    return st.builds(lambda c, m: dict(c, mid=m), study_model(yields=(800, 4000)), st.sampled_from(["iminuit", "scipy"]))


NEXP = 160


def check_stat(c, ctx):
    """Yields are unbiased and pulls have unit width (the efficiencies of a process add up to one)."""
    for p in c["model"]["procs"]:
        ts = [t for ch in c["model"]["chans"] for t in ch["temps"] if t["p"] == p]
        tot = sum(t["eff"] for t in ts)
        for t in ts:
            t["eff"] = t["eff"] / tot
    c["model"]["constr"] = []
    pr = build(c)
    m, r = pr.m, pr.r
    x = np.concatenate([c["truth"], r.x0()[len(r.processes):]])
    m.update_parameters(x)
    r.update(x)
    for cn in r.channels:
        r.channels[cn]["data"] = r.expectation(x, cn)
    np_ = len(r.processes)
    if r.npar > 7:
        # the numerical second derivatives take too long
        c["mid"] = "iminuit"
    sig = np.sqrt(np.diag(Fast(r).cov(x, list(range(np_)))))[:np_]
    study = tf.ToyStudy(m, c["mid"])
    study.do_experiments(NEXP)
    for j, p in enumerate(r.processes):
        pulls = np.array(study.get_toy_result_pulls(p), dtype=float)
        ensure(pulls.shape == (NEXP,) and np.all(np.isfinite(pulls)), "pulls %s", pulls)
        fit = np.array(study.get_toy_results(p)[0])
        bias = (np.mean(fit) - x[j]) / sig[j]
        lim = 7.5 / np.sqrt(NEXP) + 0.05
        ensure(abs(bias) < lim, "%s: fitted yields of %s are biased by %.2f standard deviations", c["mid"], p, bias)
        width = np.std(pulls)
        ensure(abs(width - 1) < 7.5 / np.sqrt(2 * NEXP) + 0.05, "%s: pulls of %s have width %.2f", c["mid"], p, width)
    ctx.hit(np_ > 1)
    ctx.label(c["mid"])


SUBS = [
    Sub("studies", case, check, 200, 6000, "toy studies with recorded toy datasets and injected failures; every recorded fit is repeated independently"),
    Sub("linearity", lin_case, check_linearity, 80, 2000, "linearity tests with recorded toy datasets"),
    Sub("pulls", stat_case, check_stat, 16, 400, "%d toy experiments per case: bias of the yields and width of the pulls" % NEXP),
]
