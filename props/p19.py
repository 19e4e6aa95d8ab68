"""P19: covariance, correlation and systematic matrices obey their algebra."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, close, ensure, equal, same
from pbt.gens import fixed_list, fl, num

from templatefitter.utility import array_split_into, corr2cov, cov2corr, get_systematic_cov_mat

RULE = ("non-trivial: matrices with at least two correlated variables of different variance; variations that shift at least two bins in "
        "different directions or by up and down differently; splits into at least two non-empty pieces")


# ------------------------------------------------------------------ covariance and correlation
@st.composite
def cov_case(draw):
    n = draw(st.sampled_from([3, 2, 4, 1, 6, 9]))
    k = draw(st.integers(1, n + 1))
    a = draw(fixed_list(fixed_list(st.one_of(fl(-1, 1), st.integers(-3, 3).map(float)), k), n))
    scale = draw(fixed_list(st.builds(lambda m, e: m * 10.0 ** e, st.floats(1, 10), st.sampled_from([0, 0, -1, 2, -6, 5])), n))
    zero = draw(st.one_of(st.just([]), st.lists(st.integers(0, n - 1), max_size=2)))
    resc = draw(fixed_list(st.builds(lambda m, e, s: s * m * 10.0 ** e, st.floats(1, 10), st.integers(-4, 4), st.sampled_from([1, 1, -1])), n))
    return dict(a=a, scale=scale, zero=zero, resc=resc, diag=draw(st.integers(0, 4)) == 0,
                form=draw(st.sampled_from(["plain", "fortran", "readonly", "view", "int"])))


def matrix(c):
    a = np.array(c["a"]) * np.array(c["scale"])[:, None]
    a[c["zero"]] = 0
    cov = a @ a.T
    if c["diag"]:
        cov = np.diag(np.diag(cov))
    return cov


def shaped(cov, form):
    if form == "fortran":
        return np.asfortranarray(cov)
    if form == "view":
        big = np.full((2 * len(cov), 2 * len(cov)), 7.0)
        big[::2, ::2] = cov
        return big[::2, ::2]
    cov = cov.copy()
    if form == "readonly":
        cov.setflags(write=False)
    return cov


def check_cov(c, ctx):
    cov = matrix(c)
    if c["form"] == "int":
        cov = np.round(np.array(c["a"]) * 3)
        cov = (cov @ cov.T).astype(int)
    n = len(cov)
    arg = shaped(cov, c["form"])
    keep = np.array(arg, copy=True)
    with np.errstate(all="ignore"):
        corr = np.array(cov2corr(arg))
    same("argument of cov2corr after the call", arg, keep)
    ensure(corr.shape == (n, n), "cov2corr: shape %s for %d variables", corr.shape, n)
    want = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if cov[i, i] > 0 and cov[j, j] > 0:
                want[i, j] = cov[i, j] / math.sqrt(cov[i, i]) / math.sqrt(cov[j, j])
    close("correlation", corr, want, rtol=0, atol=1e-12)
    live = np.diag(cov) > 0
    close("diagonal of the correlation", np.diag(corr), live.astype(float), rtol=0, atol=1e-12)
    ensure(np.all(np.abs(corr) <= 1 + 1e-12), "correlation outside [-1, 1]: %s", corr)
    var = np.array(np.diag(cov), dtype=float)
    vkeep, ckeep = var.copy(), corr.copy()
    back = corr2cov(corr, var)
    sig = np.sqrt(var)
    close("covariance from the correlation", back, cov, rtol=0, atol=1e-11 * np.outer(sig, sig))
    same("correlation after corr2cov", corr, ckeep)
    same("variances after corr2cov", var, vkeep)
    # from an arbitrary correlation-like matrix and variances
    v2 = (np.array(c["resc"]) * 3) ** 2
    close("corr2cov", corr2cov(corr, v2), corr * np.sqrt(np.outer(v2, v2)), rtol=1e-11, atol=1e-11 * np.sqrt(np.outer(v2, v2)) * (corr == 0))
    # rescaling the variables
    s = np.array(c["resc"])
    with np.errstate(all="ignore"):
        resc = np.array(cov2corr(cov * np.outer(s, s)))
    close("correlation of rescaled variables", resc, corr * np.outer(np.sign(s), np.sign(s)), rtol=0, atol=1e-11)
    off = want - np.diag(np.diag(want))
    ctx.hit(np.max(np.abs(off)) > 1e-3 and len(set(np.round(var[live], 9))) > 1)
    ctx.label("vanishing" if not np.all(live) else "all-positive", "n-%d" % n, c["form"])


# ------------------------------------------------------------------ systematic covariance
@st.composite
def syst_case(draw):
    n = draw(st.sampled_from([3, 2, 5, 1, 8]))
    integer = draw(st.integers(0, 4)) == 0
    elem = st.integers(0, 200).map(float) if integer else st.one_of(num(0, 500), fl(0, 1e4))
    nom = draw(fixed_list(elem, n))
    out = [[], []]
    for v in nom:
        k = draw(st.sampled_from(["two-sided", "two-sided", "asym", "one-sided", "up-only", "down-only", "none", "random"]))
        d = float(draw(st.integers(1, 30))) if integer else draw(fl(0.01, 300))
        e = float(draw(st.integers(1, 30))) if integer else draw(fl(0.01, 300))
        s = draw(st.sampled_from([1, -1]))
        u, w = {"two-sided": (v + s * d, v - s * d), "asym": (v + s * d, v - s * e), "one-sided": (v + s * d, v + s * (d + e)), "up-only": (v + s * d, v),
                "down-only": (v, v + s * d), "none": (v, v), "random": (d, e)}[k]
        out[0].append(u)
        out[1].append(w)
    return dict(nom=nom, up=out[0], down=out[1], dtype=draw(st.sampled_from(["int", "int", "uint64", "uint16", "int16"])) if integer else "float")


def check_syst(c, ctx):
    dt = np.dtype(c["dtype"])
    nom, up, down = (np.abs(c[k]).astype(dt) if dt.kind == "u" else np.array(c[k]).astype(dt) for k in ("nom", "up", "down"))
    args = [a.copy() for a in (nom, up, down)]
    got = np.array(get_systematic_cov_mat(*args))
    for a, b, w in zip(args, (nom, up, down), ("nominal", "up", "down")):
        same("%s values after the call" % w, a, b)
    n = len(nom)
    mean = [(abs(float(u) - float(v)) + abs(float(d) - float(v))) / 2 for v, u, d in zip(nom, up, down)]
    sign = [-1.0 if u < d else 1.0 for u, d in zip(up, down)]
    s = np.array(mean) * np.array(sign)
    tied = (up == down) & (np.array(mean) > 0)
    want = np.outer(s, s)
    big = np.outer(np.array(mean), np.array(mean))
    # the sign of a shift with up == down is not determined by the statement
    und = np.logical_xor.outer(tied, tied) | np.logical_and.outer(tied, tied) & ~np.eye(n, dtype=bool)
    ensure(got.shape == (n, n), "shape %s for %d bins", got.shape, n)
    close("systematic covariance", np.where(und, np.abs(got), got), np.where(und, np.abs(want), want), rtol=1e-10)
    same("symmetry of the systematic covariance", got, got.T)
    ensure(np.all(np.diag(got) >= 0) and np.all(got[np.array(mean) == 0] == 0), "rows without shift: %s", got)
    w = np.linalg.eigvalsh(got)
    ensure(w[0] >= -1e-10 * max(np.trace(got), 1e-300), "not positive semi-definite: eigenvalues %s", w)
    if not np.any(tied):
        close("after exchanging up and down", get_systematic_cov_mat(nom, down, up), got, rtol=1e-10)
    # scaling and shifting all histograms together
    close("scaled histograms", get_systematic_cov_mat(nom * 4, up * 4, down * 4), 16 * got, rtol=1e-10)
    r = slice(None, None, -1)
    close("reversed bins", get_systematic_cov_mat(nom[r], up[r], down[r]), got[r, r], rtol=1e-12)
    close("no shift", get_systematic_cov_mat(nom, nom, nom), np.zeros((n, n)))
    nz = np.array(mean) > 0
    ctx.hit(np.sum(nz) > 1 and (len(set(np.array(sign)[nz])) > 1 or bool(np.any(np.abs(up - nom) != np.abs(down - nom)))))
    ctx.label("n-%d" % n, "tied" if np.any(tied) else "not-tied", c["dtype"], "mixed" if len(set(np.array(sign)[nz])) > 1 else "one-sign")
    del big


# ------------------------------------------------------------------ splitting
@st.composite
def split_case(draw):
    sizes = draw(st.lists(st.sampled_from([2, 1, 0, 3, 5]), max_size=6))
    rest = draw(st.sampled_from([0, 0, 1, 4]))
    none = draw(st.booleans())
    n = sum(sizes) + rest
    return dict(values=draw(fixed_list(fl(-100, 100), n)), sizes=sizes, none=none, form=draw(st.sampled_from(["array", "list", "tuple", "iter", "2d"])))


def check_split(c, ctx):
    v = np.array(c["values"])
    src = v
    if c["form"] == "2d":
        v = np.stack([v, 2 * v], axis=1)
    arg = {"array": v, "2d": v, "list": list(v), "tuple": tuple(v), "iter": iter(list(v))}[c["form"]]
    sizes = list(c["sizes"]) + ([None] if c["none"] else [])
    got = list(array_split_into(arg, sizes))
    equal("number of pieces", len(got), len(sizes))
    pos = 0
    for i, (g, s) in enumerate(zip(got, sizes)):
        end = len(src) if s is None else pos + s
        want = v[pos:end]
        if want.size:
            same("piece %d" % i, g, want)
        else:
            equal("length of piece %d" % i, len(g), 0)
        pos = end
    ctx.hit(sum(1 for g in got if len(g)) > 1)
    ctx.label(c["form"], "rest" if c["none"] else "sizes")


SUBS = [
    Sub("correlation", cov_case, check_cov, 3000, 60000, "covariance matrices converted to correlations and back"),
    Sub("systematic", syst_case, check_syst, 3000, 60000, "covariances of up/down variations"),
    Sub("split", split_case, check_split, 1500, 20000, "arrays split into given sizes"),
]
