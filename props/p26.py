"""P26: results do not depend on declaration order or on equivalent formulations."""
import copy

import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import Pair, nll_tol, real_edges
from pbt.core import Sub, close, ensure, equal
from pbt.fits import Fast, build, fit_spec, run_fit, set_start, true_vector
from pbt.gens import fl, model_and_params, nbins

RULE = ("non-trivial: the reformulation changes the parameter vector or the templates and the model has at least two processes or "
        "channels and a nonzero nuisance parameter")
KINDS = ["procs", "chans", "temps", "scale", "reverse", "eff", "flatten", "names"]


# ------------------------------------------------------------------ parameters by meaning
def size(ch):
    return int(np.prod([nbins(a) for a in ch["axes"]]))


def to_dict(spec, x):
    d = {("y", p): x[i] for i, p in enumerate(spec["procs"])}
    pos = len(spec["procs"])
    for ch in spec["chans"]:
        for t in ch["temps"]:
            for i in range(size(ch)):
                d["n", ch["name"], t["p"], i] = x[pos]
                pos += 1
    return d


def to_vector(spec, d):
    x = [d["y", p] for p in spec["procs"]]
    for ch in spec["chans"]:
        for t in ch["temps"]:
            x += [d["n", ch["name"], t["p"], i] for i in range(size(ch))]
    return np.array(x, dtype=float)


# ------------------------------------------------------------------ reformulations: (spec, map of parameters, map of channel bins)
def permute(lst, seed):
    rng = np.random.RandomState(seed)
    return [lst[i] for i in rng.permutation(len(lst))]


def scaled(t, s, n):
    t = copy.deepcopy(t)
    errs = t["errs"] if t["errs"] is not None else [float(np.sqrt(v)) for v in t["counts"]]
    # bins without a statistical uncertainty have a fixed small one, which does not scale
    if any(e == 0 and (v != 0 or t["systs"]) for v, e in zip(t["counts"], errs)):
        return t
    t["counts"] = [v * s for v in t["counts"]]
    t["errs"] = [v * s for v in errs]
    for y in t["systs"]:
        if y["kind"] == "cov":
            y["a"] = [[v * s for v in row] for row in y["a"]]
        else:
            y["up"] = [v * s for v in y["up"]]
            y["down"] = [v * s for v in y["down"]]
    return t


def reordered(t, idx):
    t = copy.deepcopy(t)
    t["counts"] = [t["counts"][i] for i in idx]
    if t["errs"] is not None:
        t["errs"] = [t["errs"][i] for i in idx]
    for y in t["systs"]:
        for k in ("a", "up", "down"):
            if k in y:
                y[k] = [y[k][i] for i in idx]
    return t


def reversed_axis(a):
    if "edges" in a:
        return dict(edges=[-v for v in a["edges"]][::-1])
    return dict(n=a["n"], lo=-a["hi"], hi=-a["lo"])


def apply(spec, kind, seed):
    """Returns the new spec and a function that maps (parameter dict) to the new one and, per channel, the order of the old bins."""
    s = copy.deepcopy(spec)
    rng = np.random.RandomState(seed)
    order = {c["name"]: list(range(size(c))) for c in spec["chans"]}
    rename = {}
    fmap = lambda d: d
    if kind == "procs":
        s["procs"] = permute(s["procs"], seed)
        s["constr"] = permute(s["constr"], seed)
    elif kind == "chans":
        s["chans"] = permute(s["chans"], seed)
    elif kind == "temps":
        for c in s["chans"]:
            c["temps"] = permute(c["temps"], rng.randint(1000))
    elif kind == "scale":
        for c in s["chans"]:
            c["temps"] = [scaled(t, float(rng.choice([2.0, 0.25, 3.7, 117.0])), size(c)) if rng.rand() < 0.7 else t for t in c["temps"]]
    elif kind == "reverse":
        hit = [c["name"] for c in s["chans"] if rng.rand() < 0.7] or [s["chans"][0]["name"]]
        for c in s["chans"]:
            if c["name"] not in hit:
                continue
            idx = list(range(size(c)))[::-1]
            c["axes"] = [reversed_axis(a) for a in c["axes"]]
            c["temps"] = [reordered(t, idx) for t in c["temps"]]
            c["data"] = [c["data"][i] for i in idx]
            order[c["name"]] = idx

        def fmap(d):
            out = {}
            for k, v in d.items():
                if k[0] == "n" and k[1] in hit:
                    out["n", k[1], k[2], order[k[1]].index(k[3])] = v
                else:
                    out[k] = v
            return out
    elif kind == "eff":
        f = {p: float(rng.choice([0.1, 0.5, 2.0, 7.3])) for p in s["procs"]}
        for c in s["chans"]:
            for t in c["temps"]:
                t["eff"] = t["eff"] * f[t["p"]]
        s["constr"] = [[p, v / f[p], e / f[p]] for p, v, e in s["constr"]]

        def fmap(d):
            return {k: (v / f[k[1]] if k[0] == "y" else v) for k, v in d.items()}
    elif kind == "flatten":
        for c in s["chans"]:
            n = size(c)
            c["axes"] = [dict(n=n, lo=0.0, hi=float(n))]
    elif kind == "names":
        new = ["p one", "zeta", "alpha_1", "x-y", "Q", "10", "2"]
        rename = {p: new[i] for i, p in enumerate(s["procs"])}
        chn = {c["name"]: "region%d" % (7 - i) for i, c in enumerate(s["chans"])}
        s["procs"] = [rename[p] for p in s["procs"]]
        s["constr"] = [[rename[p], v, e] for p, v, e in s["constr"]]
        for c in s["chans"]:
            c["name"] = chn[c["name"]]
            for t in c["temps"]:
                t["p"] = rename[t["p"]]
                t["name"] = "t"

        def fmap(d):
            return {(("y", rename[k[1]]) if k[0] == "y" else ("n", chn[k[1]], rename[k[2]], k[3])): v for k, v in d.items()}
        return s, fmap, {chn[c]: o for c, o in order.items()}, chn
    return s, fmap, order, {c["name"]: c["name"] for c in spec["chans"]}


@st.composite
def case(draw):
    c = draw(model_and_params(npoints=2, max_bins=4))
    c["how"] = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 999)).map(list), min_size=1, max_size=3))
    return c


def unique_constraints(spec):
    spec = copy.deepcopy(spec)
    last = {p: [p, v, e] for p, v, e in spec["constr"]}
    spec["constr"] = list(last.values())
    return spec


def check(c, ctx):
    spec = unique_constraints(c["model"])
    a = Pair(spec)
    for cs in spec["chans"]:  # data as used (zero where no template has entries)
        cs["data"] = [float(v) for v in np.ravel(a.r.channels[cs["name"]]["data"])]
    cur, maps, orders = spec, [], {cs["name"]: list(range(size(cs))) for cs in spec["chans"]}
    chn = {cs["name"]: cs["name"] for cs in spec["chans"]}
    for kind, seed in c["how"]:
        cur, f, o, rn = apply(cur, kind, seed)
        maps.append(f)
        new = {}
        for old, name in chn.items():
            chn[old] = rn[name]
            new[old] = [orders[old][i] for i in o[rn[name]]]
        orders = new
        ctx.label(kind)
    b = Pair(cur)
    # systematics outside of the domain are left out on both sides alike, up to rounding
    na = sorted(len(t.systs) for ch in a.r.channels.values() for t in ch["t"].values())
    nb = sorted(len(t.systs) for ch in b.r.channels.values() for t in ch["t"].values())
    if na != nb:
        ctx.label("edge-of-domain")
        return
    fa, fb = a.m.create_nll(), b.m.create_nll()
    changed = False
    for pt in c["points"]:
        x = a.vector(pt)
        d = to_dict(spec, x)
        for f in maps:
            d = f(d)
        z = to_vector(cur, d)
        changed |= len(z) == len(x) and not np.array_equal(x, z) or any(k in ("scale", "flatten", "names") for k, _ in c["how"])
        tol = 3 * (nll_tol(a.r, x) + nll_tol(b.r, z))
        va, vb = float(fa(x.copy())), float(fb(z.copy()))
        close("likelihood of the reformulated model", vb, va, rtol=1e-10, atol=tol)
        a.m.update_parameters(x.copy())
        b.m.update_parameters(z.copy())
        aa, ab = a.m.generate_asimov_dataset(), b.m.generate_asimov_dataset()
        for old, name in chn.items():
            u = np.ravel(aa[old].bin_counts)[orders[old]]
            v = np.ravel(ab[name].bin_counts)
            close("expectation of channel %s" % old, v, u, rtol=1e-10, atol=1e-10 * float(np.sum(np.abs(u))))
        ea = {k: np.ravel(t.errors) for k, t in a.t.items()}
        if not any(k == "names" for k, _ in c["how"]):
            for k, t in b.t.items():
                u = ea[k][orders[k[0]]]
                close("uncertainties of %s in %s" % (k[1], k[0]), np.ravel(t.errors), u, rtol=1e-8, atol=1e-10 * float(np.sum(np.abs(u))))
    t = np.array(c["points"][0]["t"])
    ctx.hit(changed and (len(spec["procs"]) > 1 or len(spec["chans"]) > 1) and np.any(t != 0))


# ------------------------------------------------------------------ channels are independent
@st.composite
def sum_case(draw):
    return draw(model_and_params(npoints=1, max_bins=4))


def check_sum(c, ctx):
    spec = unique_constraints(c["model"])
    a = Pair(spec)
    x = a.vector(c["points"][0])
    d = to_dict(spec, x)
    total, tol = 0.0, nll_tol(a.r, x)
    n0 = []
    for i, ch in enumerate(spec["chans"]):
        one = dict(procs=spec["procs"], chans=[ch], constr=spec["constr"] if i == 0 else [])
        b = Pair(one)
        z = to_vector(one, d)
        total += float(b.m.create_nll()(z))
        tol += nll_tol(b.r, z)
        b.m.update_parameters(z)
        n0.append(np.ravel(b.m.generate_asimov_dataset()[ch["name"]].bin_counts))
    close("sum of the likelihoods of the channels", float(a.m.create_nll()(x.copy())), total, rtol=1e-10, atol=3 * tol)
    a.m.update_parameters(x)
    asi = a.m.generate_asimov_dataset()
    for ch, n in zip(spec["chans"], n0):
        close("expectation of the channel alone", np.ravel(asi[ch["name"]].bin_counts), n, rtol=1e-10, atol=1e-10 * float(np.sum(np.abs(n))))
    ctx.hit(len(spec["chans"]) > 1 and np.any(x[len(spec["procs"]):] != 0))
    ctx.label("channels-%d" % len(spec["chans"]), "constraints" if spec["constr"] else "no-constraints")


# ------------------------------------------------------------------ fits
@st.composite
def fit_case(draw):
    c = draw(fit_spec(max_bins=3, max_ch=2))
    c["how"] = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 999)).map(list), min_size=1, max_size=2))
    c["nui"] = draw(st.booleans())
    return c


def check_fit(c, ctx):
    a = build(c)
    spec = copy.deepcopy(c["model"])
    for cs in spec["chans"]:
        cs["data"] = [float(v) for v in np.ravel(a.r.channels[cs["name"]]["data"])]
    cur, maps = spec, []
    for kind, seed in c["how"]:
        cur, f, _, _ = apply(cur, kind, seed)
        maps.append(f)
        ctx.label(kind)
    b = Pair(cur)
    x0 = true_vector(a, c)
    d = to_dict(spec, x0)
    for f in maps:
        d = f(d)
    set_start(a, x0)
    set_start(b, to_vector(cur, d))
    out = []
    for pr in (a, b):
        f = tf.TemplateFitter(pr.m, "iminuit")
        res = run_fit(f, "iminuit", fix_nui_params=c["nui"], update_templates=False)
        if res is None:
            ctx.label("failed")
            return
        out.append(res)
    close("minimum of the reformulated model", out[1].fcn_min_val, out[0].fcn_min_val, rtol=1e-6, atol=5e-3)
    d = to_dict(spec, np.array(out[0].params.values, dtype=float))
    e = to_dict(spec, np.array(out[0].params.errors, dtype=float))
    for f in maps:
        d, e = f(d), f(e)
    z, s = to_vector(cur, d), to_vector(cur, e)
    np_ = len(cur["procs"])
    # uncertainty of the yields from the reference likelihood
    F = Fast(b.r)
    try:
        cov = F.cov(z, list(range(np_)) if c["nui"] else None)
        sig = np.sqrt(np.diag(cov))[:np_]
    except np.linalg.LinAlgError:
        sig = np.full(np_, np.nan)
    if np.all(np.isfinite(sig)) and np.all(sig > 0):
        close("fitted yields of the reformulated model", np.array(out[1].params.values)[:np_], z[:np_], rtol=1e-6, atol=0.3 * sig)
        ctx.hit(np_ > 1)
    ctx.label("statistical" if c["nui"] else "with-nuisance")


SUBS = [
    Sub("reformulate", case, check, quick=900, rule=RULE),
    Sub("channels", sum_case, check_sum, quick=400, rule="non-trivial: at least two channels and a nonzero nuisance parameter"),
    Sub("fit", fit_case, check_fit, quick=160, rule="non-trivial: both fits succeed for a model with at least two processes"),
]
