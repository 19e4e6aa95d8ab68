"""P11: x*log(y/x) is accurate for all non-negative x and positive y."""
import decimal
import math

import numpy as np
from hypothesis import strategies as st

from pbt.core import Sub, close, ensure, equal, same

from templatefitter.utility import xlogyx

RULE = "non-trivial: a pair with x >= 1e-100 and y != x, in particular within a relative distance of 1e-3 or more than 1e3 apart"
D = decimal.Context(prec=60, Emin=-999999, Emax=999999)
FLOOR = 1e-97  # x below 1e-100 counts as zero


def exact(x, y):
    if not x > 0:
        return decimal.Decimal(0)
    dx, dy = decimal.Decimal(x), decimal.Decimal(y)
    return D.multiply(dx, D.ln(D.divide(dy, dx)))


def wide(draw):
    m = draw(st.floats(1, 10, exclude_max=True))
    e = draw(st.one_of(st.integers(-8, 8), st.integers(-90, 150)))
    return m * 10.0 ** e


@st.composite
def pair(draw):
    k = draw(st.sampled_from(["wide", "wide", "near", "near", "ulp", "equal", "zero", "count", "tiny"]))
    if k == "zero":
        return [0.0, wide(draw)]
    if k == "tiny":
        return [draw(st.floats(1e-300, 1e-98, allow_subnormal=False)), 10.0 ** draw(st.integers(-150, 150))]
    if k == "count":
        return [float(draw(st.integers(0, 10 ** 6))), draw(st.one_of(st.integers(1, 10 ** 6).map(float), st.floats(1e-6, 1e6)))]
    x = wide(draw)
    if k == "wide":
        return [x, wide(draw)]
    if k == "equal":
        return [x, x]
    if k == "ulp":
        y = x
        for _ in range(draw(st.integers(1, 4))):
            y = float(np.nextafter(y, draw(st.sampled_from([0.0, np.inf]))))
        return [x, y]
    d = draw(st.floats(-1, 1)) * 10.0 ** -draw(st.integers(0, 16))
    y = x * (1 + d)
    return [x, y if y > 0 else x]


@st.composite
def case(draw):
    n = draw(st.integers(1, 6))
    return dict(p=[draw(pair()) for _ in range(n)], form=draw(st.sampled_from(
        ["array", "scalar", "npscalar", "column", "2d", "list", "strided", "scalar-y", "scalar-x", "outer", "int", "readonly", "big"])))


def judge(what, x, y, got, rtol=4e-15):
    if x >= 1e-100 and not 1e-300 < y / x < 1e300:
        return  # outside the domain
    want = exact(x, y)
    err = abs(decimal.Decimal(float(got)) - want) if math.isfinite(got) else decimal.Decimal("Infinity")
    ensure(err <= decimal.Decimal(rtol) * abs(want) + decimal.Decimal(FLOOR), "%s: xlogyx(%r, %r) = %r, expected %r", what, x, y, got, float(want))
    d = y - x
    ensure(got <= d + 1e-14 * abs(d) + FLOOR, "%s: xlogyx(%r, %r) = %r above y-x = %r", what, x, y, got, d)


def check(c, ctx):
    f = c["form"]
    X = [float(p[0]) for p in c["p"]]
    Y = [float(p[1]) for p in c["p"]]
    x, y = np.array(X), np.array(Y)
    if f == "scalar":
        for a, b in zip(X, Y):
            r = xlogyx(a, b)
            ensure(np.ndim(r) == 0, "a scalar call returned shape %s", np.shape(r))
            judge(f, a, b, float(r))
    elif f == "npscalar":
        for a, b in zip(x, y):
            judge(f, float(a), float(b), float(xlogyx(a, b)))
    elif f in ("scalar-y", "scalar-x", "outer"):
        if f == "outer":
            # only ratios inside the double range
            r = xlogyx(x[:, None], y[None, :])
            pairs = [(i, j) for i in range(len(X)) for j in range(len(Y))]
        elif f == "scalar-y":
            r = np.asarray(xlogyx(x, Y[0]))
            pairs = [(i, 0) for i in range(len(X))]
        else:
            r = np.asarray(xlogyx(X[0], y))
            pairs = [(0, j) for j in range(len(Y))]
        equal("shape", r.shape, (len(X), len(Y)) if f == "outer" else (len(X),))
        for k, (i, j) in enumerate(pairs):
            judge(f, X[i], Y[j], float(r.ravel()[k]))
    else:
        if f == "int":
            x = np.array([int(min(v, 2 ** 40)) for v in X])
            y = np.array([max(1, int(min(v, 2 ** 40))) for v in Y])
        elif f == "list":
            x, y = X, Y
        elif f == "column":
            x, y = x[:, None], y[:, None]
        elif f == "2d":
            x, y = np.array([X, Y]), np.array([Y, [v if v > 0 else 1.0 for v in X]])
        elif f == "strided":
            x, y = np.repeat(x, 3)[::3], np.repeat(y, 2)[::-2][::-1]
        elif f == "readonly":
            x.setflags(write=False)
            y.setflags(write=False)
        elif f == "big":
            x, y = np.tile(x, 200), np.tile(y, 200)
        kx, ky = np.array(x), np.array(y)
        r = xlogyx(x, y)
        equal("shape", np.shape(r), np.shape(kx))
        same("x argument", x, kx)
        same("y argument", y, ky)
        if f == "big":
            same("repeated entries", r.reshape(200, -1), np.tile(r[:len(X)], (200, 1)))
            r, kx, ky = r[:len(X)], kx[:len(X)], ky[:len(X)]
        for a, b, g in zip(np.ravel(kx), np.ravel(ky), np.ravel(r)):
            judge(f, float(a), float(b), float(g))
    ctx.label(f)
    for a, b in zip(X, Y):
        if a >= 1e-100 and a != b:
            q = abs(b - a) / max(a, b)
            if q < 1e-3:
                ctx.label("near")
                ctx.hit()
            elif b > 1e3 * a or a > 1e3 * b:
                ctx.label("far")
                ctx.hit()
    if 0.0 in X:
        ctx.label("zero")


@st.composite
def special(draw):
    return dict(x=[draw(st.sampled_from([float("nan").hex(), "0.0", "1.0"])) for _ in range(draw(st.integers(1, 4)))],
                y=draw(st.floats(1e-5, 1e5)), f32=[[draw(st.floats(0.0078125, 8192.0, width=32)), draw(st.floats(0.0078125, 8192.0, width=32))] for _ in range(3)])


def check_special(c, ctx):
    x = np.array([float("nan") if "nan" in v else float(v) for v in c["x"]])
    r = np.asarray(xlogyx(x, c["y"]))
    for a, g in zip(x, r):
        if math.isnan(a):
            equal("missing x", float(g), 0.0)
        else:
            judge("special", float(a), c["y"], float(g))
    for a, b in c["f32"]:
        g = xlogyx(np.array([a], dtype=np.float32), np.array([b], dtype=np.float32))
        close("single precision", g[0], float(exact(a, b)), rtol=2e-5, atol=1e-6 * a)
    ctx.hit(any(math.isnan(a) for a in x))


SUBS = [
    Sub("precision", case, check, 12000, 400000, "generated pairs in scalar and array calls against 60-digit decimal arithmetic",
        corpus=[dict(p=[[100.0, 100.00000000000001]], form="array"), dict(p=[[1e-60, 1e60], [1e60, 1e-60]], form="outer")]),
    Sub("special", special, check_special, 800, 8000, "missing values and single precision"),
]
