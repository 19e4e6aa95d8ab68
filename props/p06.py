"""P06: template parameters are stored, validated and reset faithfully."""
import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import add_syst, hist_from, mids, real_edges, template_from
from pbt.core import Sub, close, ensure, raises, same
from pbt.gens import axis, fixed_list, fl, nbins, num, systs, template_spec

RULE = "non-trivial: at least two parameter writes or resets on one template, or a rejected write followed by a read"


YIELD = st.one_of(num(0, 1000), num(0, 1000), num(-1000, 1000), st.sampled_from([-0.0, 1e-9, 1e9, -3.0]))
NUI = st.one_of(fl(-1, 1), fl(-1, 1), fl(-40, 40))


@st.composite
def history(draw):
    ts = []
    for _ in range(draw(st.integers(1, 2))):
        dim = draw(st.sampled_from([1, 1, 2]))
        axes = [draw(axis(1, 5 if dim == 1 else 3)) for _ in range(dim)]
        ts.append(dict(axes=axes, t=draw(template_spec(axes, max_systs=1))))
    share = draw(st.booleans()) and len(ts) == 2
    if share:
        ts[1] = dict(axes=ts[0]["axes"], t=dict(ts[0]["t"], systs=[]))
    sizes = []
    for t in ts:
        n = 1
        for a in t["axes"]:
            n *= nbins(a)
        sizes.append(n)
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        i = draw(st.integers(0, len(ts) - 1))
        n = sizes[i]
        k = draw(st.sampled_from(["params", "params", "yield", "yield", "nui", "nui", "badparams", "badyield", "badnui", "badshape",
                                  "reset", "reset", "syst", "fill", "mutate"]))
        op = dict(op=k, t=i)
        if k == "params":
            op["x"] = [draw(YIELD)] + draw(fixed_list(NUI, n))
            op["int"] = draw(st.booleans())
        elif k == "yield":
            op["y"] = draw(YIELD)
            op["form"] = draw(st.sampled_from(["float", "int", "array", "npfloat"]))
        elif k == "nui":
            op["x"] = draw(fixed_list(NUI, n))
        elif k == "badparams":
            op["n"] = draw(st.sampled_from([m for m in (n, n + 2, 1, 0) if m != n + 1]))
        elif k == "badnui":
            op["n"] = draw(st.sampled_from([m for m in (n + 1, n - 1, 0, 2 * n) if m != n]))
        elif k == "badshape":
            op["what"] = draw(st.sampled_from(["params", "nui"]))
            m = n + (op["what"] == "params")
            op["shape"] = draw(st.sampled_from([[m, 1], [1, m], [m, m], [m, 2], [2, m], []]))
        elif k == "badyield":
            op["form"] = draw(st.sampled_from(["array2", "str", "none", "list", "column", "empty", "complex"]))
        elif k == "syst":
            op["s"] = draw(systs(ts[i]["t"]["counts"], len(ts[i]["axes"]) == 1, 1))
        elif k == "fill":
            op["w"] = draw(fixed_list(num(0, 20), n))
        ops.append(op)
    return dict(ts=ts, share=share, ops=ops)


def safe(r):
    return np.all(1 + r.nui * r.rel >= 0.05)


def check(c, ctx):
    real, refs, hists = [], [], []
    for i, s in enumerate(c["ts"]):
        h = hists[0] if c["share"] and i == 1 else hist_from(s["axes"], s["t"]["counts"], s["t"]["errs"])
        hists.append(h)
        t = tf.Template1d("t%d" % i, "x", h) if len(s["axes"]) == 1 else tf.Template2d("t%d" % i, ("x", "y"), h)
        _, r = template_from("ref", s["axes"], dict(s["t"], systs=[]))
        for q in s["t"]["systs"]:
            add_syst(t, r, s["axes"], q)
        real.append(t)
        refs.append(r)
    held = []
    writes = 0
    rejected = False
    for op in c["ops"]:
        k, i = op["op"], op["t"]
        t, r = real[i], refs[i]
        n = len(r.n)
        if k == "params":
            x = np.array(op["x"], dtype=float)
            x[1:] = np.maximum(x[1:], np.where(r.rel > 0, -0.9 / r.rel, -np.inf))
            if op["int"]:
                x = np.concatenate([[np.round(x[0])], np.where((1 + r.rel * np.round(x[1:]) >= 0.1), np.round(x[1:]), 0)])
                t.params = x.astype(int)
            else:
                t.params = x
                held.append(x)
            r.yld, r.nui = float(x[0]), np.array(x[1:], dtype=float)
            writes += 1
        elif k == "yield":
            y = float(op["y"])
            if op["form"] == "int":
                y = float(int(y))
            t.yield_param = {"float": y, "int": int(y), "array": np.array([y]), "npfloat": np.float64(y)}[op["form"]]
            r.yld = y
            writes += 1
        elif k == "nui":
            x = np.maximum(np.array(op["x"], dtype=float), np.where(r.rel > 0, -0.9 / r.rel, -np.inf))
            t.nui_params = x
            held.append(x)
            r.nui = x.copy()
            writes += 1
        elif k == "badparams":
            raises("parameter vector of length %d for %d bins" % (op["n"], n), lambda: setattr(t, "params", np.ones(op["n"])))
            rejected = True
        elif k == "badnui":
            raises("nuisance parameters of length %d for %d bins" % (op["n"], n), lambda: setattr(t, "nui_params", np.ones(op["n"])))
            rejected = True
        elif k == "badshape":
            raises("%s of shape %s for %d bins" % (op["what"], op["shape"], n),
                   lambda: setattr(t, "params" if op["what"] == "params" else "nui_params", np.full(op["shape"], 0.5)))
            rejected = True
        elif k == "badyield":
            bad = {"array2": np.array([1.0, 2.0]), "str": "3", "none": None, "list": [1.0], "column": np.ones((2, 1)),
                   "empty": np.array([]), "complex": 1 + 2j}[op["form"]]
            raises("yield %r" % (bad,), lambda: setattr(t, "yield_param", bad))
            rejected = True
        elif k == "reset":
            t.reset()
            r.yld, r.nui = float(np.sum(r.n)), np.zeros(n)
            writes += 1
        elif k == "syst":
            for q in op["s"]:
                add_syst(t, r, c["ts"][i]["axes"], q)
        elif k == "fill":
            m = mids(c["ts"][i]["axes"])
            hists[i].fill(m, np.array(op["w"], dtype=float))
        elif k == "mutate":
            for a in held:
                a += 1.0
        if not safe(r):
            t.nui_params = np.zeros(n)
            r.nui = np.zeros(n)
        ctx.label(k)
        for j, (t, r) in enumerate(zip(real, refs)):
            w = "template %d after %s" % (j, k)
            close("params of " + w, t.params, np.concatenate([[r.yld], r.nui]), rtol=1e-12)
            close("yield of " + w, t.yield_param, r.yld, rtol=1e-12)
            close("nuisance parameters of " + w, t.nui_params, r.nui, rtol=1e-12)
            v = r.values
            close("values of " + w, t.values, v, rtol=1e-9)
            close("fractions of " + w, t.fractions(np.array(r.nui)), r.fractions(r.nui), rtol=1e-9)
            close("errors of " + w, t.errors, r.rel.reshape(r.shape) * v, rtol=1e-9)
            cov = r.cov
            close("sum of the uncertainty sources of " + w, np.sum(t.cov_mats, axis=0), cov, rtol=1e-10, atol=1e-10 * np.sqrt(np.outer(np.diag(cov), np.diag(cov))))
            ensure(len(t.cov_mats) == 1 + len(r.systs), "%d uncertainty sources for %s with %d systematics", len(t.cov_mats), w, len(r.systs))
            close("covariance of " + w, t.cov_mat, cov, rtol=1e-10, atol=1e-10 * np.sqrt(np.outer(np.diag(cov), np.diag(cov))))
    ctx.hit(writes >= 2 or (rejected and writes))
    if c["share"]:
        ctx.label("shared-histogram")


SUBS = [
    Sub("history", history, check, 3000, 60000, "histories of valid and invalid writes, resets, systematics and histogram fills on 1-2 templates",
        corpus=[dict(ts=[dict(axes=[dict(n=2, lo=0.0, hi=1.0)], t=dict(counts=[10.0, 20.0], errs=None, systs=[]))], share=False,
                     ops=[dict(op="fill", t=0, w=[5.0, 0.0]), dict(op="reset", t=0)]),
                dict(ts=[dict(axes=[dict(n=2, lo=0.0, hi=1.0)], t=dict(counts=[10.0, 20.0], errs=None, systs=[]))], share=False,
                     ops=[dict(op="params", t=0, x=[4.0, 0.0, 0.0], int=True), dict(op="yield", t=0, y=4.5, form="float"),
                          dict(op="params", t=0, x=[4.0, 0.0, 0.0], int=False), dict(op="mutate", t=0)])]),
]
