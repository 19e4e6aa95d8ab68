"""P05: template uncertainties are the sum of statistical and all added systematics."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import templatefitter as tf
from pbt import ref
from pbt.build import add_syst, admissible, hist_from, real_edges, template_from
from pbt.core import Sub, close, ensure, raises, same
from pbt.gens import axis, fixed_list, fl, nbins, neg_template_spec, num, systs, template_spec
from props.p01 import coord

RULE = "non-trivial: at least one systematic was added to a template with at least two bins"


@st.composite
def history(draw):
    dim = draw(st.sampled_from([1, 1, 2]))
    axes = [draw(axis(1, 7 if dim == 1 else 3)) for _ in range(dim)]
    es = [[float(v) for v in e] for e in real_edges(axes)]
    n = 1
    for a in axes:
        n *= nbins(a)
    t = draw(template_spec(axes, max_systs=0))
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(["syst", "syst", "events", "events", "bad", "params", "read"]))
        if k == "syst":
            for s in draw(systs(t["counts"], dim == 1, 1)):
                ops.append(dict(op="syst", s=s))
        elif k == "events":
            m = draw(st.integers(1, 12))
            w = st.integers(0, 64).map(lambda v: v / 16.0)
            up = draw(fixed_list(w, m))
            down = draw(st.one_of(fixed_list(w, m), st.just(up)))
            ops.append(dict(op="events", pts=[[draw(coord(e)) for e in es] for _ in range(m)], up=up, down=down,
                            as_list=draw(st.booleans())))
        elif k == "bad":
            ops.append(dict(op="bad", shape=draw(st.sampled_from([[n + 1, n + 1], [n, n + 1], [n + 1, n], [n], [1, 1, 1]]))))
        elif k == "params":
            ops.append(dict(op="params", y=draw(fl(0, 1e3)), nui=draw(fixed_list(fl(-1, 1), n))))
        else:
            ops.append(dict(op="read"))
    return dict(axes=axes, t=t, ops=ops)


def verify(t, r, what):
    cov = r.cov
    sc = float(np.max(np.abs(cov))) or 1.0
    scale = np.sqrt(np.outer(np.diag(cov), np.diag(cov)))
    close("covariance after " + what, t.cov_mat, cov, rtol=1e-10, atol=1e-10 * scale)
    mats = t.cov_mats
    ensure(len(mats) == len(r.systs) + 1, "%d covariance matrices after %s instead of %d", len(mats), what, len(r.systs) + 1)
    for i, (a, b) in enumerate(zip(mats, r.cov_mats)):
        s2 = np.sqrt(np.outer(np.abs(np.diag(b)), np.abs(np.diag(b))))
        close("covariance matrix %d after %s" % (i, what), a, b, rtol=1e-10, atol=1e-10 * s2 + 1e-30)
    close("sum of covariance matrices after " + what, np.sum([np.asarray(m) for m in mats], axis=0), cov, rtol=1e-10, atol=1e-10 * scale)
    corr = r.corr
    close("correlation after " + what, t.corr, corr, rtol=1e-9, atol=1e-9)
    k = np.linalg.cond(corr)
    iv = np.linalg.inv(corr)
    close("inverse correlation after " + what, t.inv_corr_mat, iv, rtol=1e-9, atol=1e-13 * k * np.linalg.norm(iv, 2) + 1e-9)
    v = r.values
    close("values after " + what, t.values, v, rtol=1e-9, atol=1e-9 * abs(r.yld))
    close("errors after " + what, t.errors, r.rel.reshape(r.shape) * v, rtol=1e-9)


def check(c, ctx):
    axes = c["axes"]
    t, r = template_from("t", axes, c["t"])
    edges = real_edges(axes)
    dim = len(axes)
    verify(t, r, "creation")
    added = 0
    for op in c["ops"]:
        k = op["op"]
        if k == "syst":
            if add_syst(t, r, axes, op["s"]):
                added += 1
                ctx.label("syst-" + op["s"]["kind"])
            else:
                ctx.label("skipped-singular")
        elif k == "events":
            pts = [tuple(p) for p in op["pts"]]
            up = ref.ref_fill(edges, pts, op["up"])[0].ravel()
            down = ref.ref_fill(edges, pts, op["down"])[0].ravel()
            cov = ref.ref_syst_cov(r.n, up, down)
            if not admissible(r, cov):
                ctx.label("skipped-singular")
                continue
            cols = [np.array([p[d] for p in pts]) for d in range(dim)]
            wu, wd = (op["up"], op["down"]) if op["as_list"] else (np.array(op["up"]), np.array(op["down"]))
            data = cols[0] if dim == 1 else np.array(cols)
            if len(pts) % 3 == 0:
                # pandas columns which do not share an index
                wu, wd = pd.Series(wu, index=range(len(pts))), pd.Series(wd, index=range(len(pts), 0, -1))
                data = [pd.Series(q, index=range(2 + d, 2 + d + len(pts))) for d, q in enumerate(cols)]
                data = data[0] if dim == 1 else data
            t.add_variation(data, wu, wd)
            r.add_cov(cov)
            added += 1
            ctx.label("syst-events")
            if any("edges" in a for a in axes):
                ctx.label("events-variable-edges")
        elif k == "bad":
            if dim == 1 and tuple(op["shape"]) != (len(r.n),) * 2:
                raises("covariance matrix of shape %s for %d bins" % (op["shape"], len(r.n)),
                       lambda: t.add_cov_mat(np.ones(op["shape"])))
                ctx.label("bad-shape")
        elif k == "params":
            nui = np.maximum(np.array(op["nui"]), np.where(r.rel > 0, -0.9 / r.rel, -np.inf))
            t.yield_param = op["y"]
            t.nui_params = nui
            r.yld, r.nui = op["y"], nui
        else:
            for _ in range(2):
                _ = (t.cov_mat, t.corr, t.inv_corr_mat, t.errors, t.cov_mats)
        # parameters set before a variation may leave the positive domain afterwards
        if np.any(1 + r.nui * r.rel < 0.05):
            t.nui_params = np.zeros(len(r.n))
            r.nui = np.zeros(len(r.n))
        verify(t, r, k)
    ctx.hit(added > 0 and len(r.n) > 1)
    ctx.label("dim-%d" % dim, "added-%d" % min(added, 3))


@st.composite
def orders(draw):
    axes = [draw(axis(2, 6))]
    t = draw(template_spec(axes, max_systs=0))
    s = draw(systs(t["counts"], True, 4))
    return dict(axes=axes, t=t, s=s, perm=draw(st.permutations(list(range(len(s))))))


def check_orders(c, ctx):
    """The order of addition does not matter; exchanging up and down (where they differ) does not matter."""
    def make(lst, swap):
        t, r = template_from("t", c["axes"], c["t"])
        n = 0
        for s in lst:
            if swap and s["kind"] == "ud" and all(u != v or (u == n and v == n) for u, v, n in zip(s["up"], s["down"], c["t"]["counts"])):
                # where up and down agree but differ from the nominal value the sign is a convention
                s = dict(kind="ud", up=s["down"], down=s["up"])
            n += add_syst(t, r, c["axes"], s)
        return t, r, n
    a, ra, na = make(c["s"], False)
    b, rb, nb = make([c["s"][i] for i in c["perm"]], True)
    if na != nb or na != len(c["s"]):
        return
    scale = np.sqrt(np.outer(np.diag(ra.cov), np.diag(ra.cov)))
    close("covariance in another order", b.cov_mat, a.cov_mat, rtol=1e-9, atol=1e-10 * scale)
    close("correlation in another order", b.corr, a.corr, rtol=1e-9, atol=1e-9)
    close("errors in another order", b.errors, a.errors, rtol=1e-9)
    verify(b, rb, "reordering")
    ctx.hit(na > 1)


@st.composite
def negative(draw):
    dim = draw(st.sampled_from([1, 1, 2]))
    axes = [draw(axis(2, 6 if dim == 1 else 3)) for _ in range(dim)]
    return dict(axes=axes, t=draw(neg_template_spec(axes, 3)), y=draw(fl(1, 1e4)))


def check_negative(c, ctx):
    """Templates with bins of negative content have the same uncertainties."""
    t, r = template_from("t", c["axes"], c["t"])
    t.yield_param = r.yld = c["y"]
    verify(t, r, "creation")
    ctx.hit(bool(np.any(r.n < 0)) and len(r.systs) > 0)


SUBS = [
    Sub("history", history, check, 2500, 50000, "histories of systematics, parameters, rejected matrices and reads on one template",
        corpus=[dict(axes=[dict(edges=[0.0, 1.0, 4.0])], t=dict(counts=[10.0, 20.0], errs=None, systs=[]),
                     ops=[dict(op="events", pts=[[0.5], [1.5], [3.0]], up=[12.0, 13.0, 12.0], down=[8.0, 9.0, 8.0], as_list=False)]),
                dict(axes=[dict(n=2, lo=0.0, hi=1.0), dict(n=1, lo=0.0, hi=1.0)], t=dict(counts=[10.0, 20.0], errs=None, systs=[]),
                     ops=[dict(op="events", pts=[[0.25, 0.5], [0.75, 0.5]], up=[12.0, 13.0], down=[8.0, 9.0], as_list=False)])]),
    Sub("orders", orders, check_orders, 1200, 24000, "two orders of addition, with up and down exchanged"),
    Sub("negative", negative, check_negative, 800, 16000, "templates with bins of negative content"),
]
