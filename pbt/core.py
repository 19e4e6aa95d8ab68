"""Sub-check definition, comparison helpers and the per-case context."""
import math

import numpy as np


class Violation(AssertionError):
    """The code under test broke the property."""


class Ctx:
    """Collects what a case exercised."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels.add(n)

    def hit(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, rule="", corpus=(), shards=8):
        self.name = name
        self.strategy = strategy  # function returning a Hypothesis strategy
        self.check = check  # check(case, ctx)
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.rule = rule
        self.corpus = list(corpus)
        self.shards = shards


def fail(msg):
    raise Violation(msg)


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=400):
    s = np.array2string(np.asarray(x), precision=17, threshold=60) if isinstance(x, (np.ndarray, list, tuple)) else repr(x)
    return s if len(s) <= n else s[:n] + "..."


def as_float_array(name, got):
    try:
        a = np.asarray(got, dtype=float)
    except Exception as e:
        raise Violation("%s: not numeric: %s (%s)" % (name, short(got), e))
    return a


def close(name, got, want, rtol=1e-9, atol=0.0, shape=True, nan_ok=False):
    """Element-wise |got-want| <= atol + rtol*|want|; atol may be an array."""
    g = as_float_array(name, got)
    w = np.asarray(want, dtype=float)
    if shape and g.shape != w.shape:
        raise Violation("%s: shape %s instead of %s" % (name, g.shape, w.shape))
    if not shape and g.size != w.size:
        raise Violation("%s: size %s instead of %s" % (name, g.size, w.size))
    if not shape:
        g = g.reshape(-1)
        w = w.reshape(-1)
        atol = np.asarray(atol, dtype=float)
        if atol.ndim:
            atol = atol.reshape(-1)
    with np.errstate(all="ignore"):
        ok = (np.abs(g - w) <= atol + rtol * np.abs(w)) | (g == w)
    if nan_ok:
        ok |= np.isnan(g) & np.isnan(w)
    if not np.all(ok):
        raise Violation("%s: got %s, expected %s" % (name, short(g), short(w)))


def same(name, got, want):
    """Exact equality of arrays (nan equals nan)."""
    g = as_float_array(name, got)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape or not np.array_equal(g, w, equal_nan=True):
        raise Violation("%s: got %s, expected %s" % (name, short(g), short(w)))


def equal(name, got, want):
    try:
        ok = bool(got == want)
    except Exception:
        ok = False
    if not ok:
        raise Violation("%s: got %s, expected %s" % (name, short(got), short(want)))


def raises(name, fn, exc=Exception):
    """The operation has to be rejected with an exception."""
    try:
        r = fn()
    except exc:
        return
    raise Violation("%s was accepted (returned %r)" % (name, r))


def finite(x):
    return isinstance(x, (int, float)) and math.isfinite(x)
