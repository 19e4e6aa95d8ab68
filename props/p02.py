"""P02: filling is additive, order independent and isolated from the caller."""
import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt import ref
from pbt.build import real_edges
from pbt.core import Sub, close, ensure, same
from pbt.gens import axis, fixed_list, fl, nbins, num
from props.p01 import coord

RULE = "a history is non-trivial if some histogram is filled at least twice (or filled after being created from binned data)"


@st.composite
def entries(draw, es, max_n=8):
    n = draw(st.integers(0, max_n))
    pts = [[draw(coord(e)) for e in es] for _ in range(n)]
    w = draw(st.one_of(st.none(), fixed_list(num(-5, 10), n)))
    return pts, w


@st.composite
def history(draw):
    """Operations refer to histograms by index into the list of live ones."""
    ops = []
    live = []  # axes per histogram
    nops = draw(st.integers(2, 12))
    for _ in range(nops):
        kinds = ["new"] if not live else ["new", "binned", "fill", "fill", "fill", "chunks", "shuffle", "mutate", "mutate", "project"]
        k = draw(st.sampled_from(kinds))
        if k in ("new", "binned"):
            dim = draw(st.integers(1, 2))
            axes = [draw(axis(1, 5 if dim == 1 else 3)) for _ in range(dim)]
            op = dict(op=k, axes=axes)
            n = 1
            for a in axes:
                n *= nbins(a)
            if k == "binned":
                op["counts"] = draw(fixed_list(st.integers(0, 50), n))
                op["int"] = draw(st.booleans())
                op["errs"] = draw(st.one_of(st.none(), fixed_list(num(0, 9), n)))
            else:
                op["via"] = draw(st.sampled_from(["edges", "args"]))
                if draw(st.booleans()):
                    es = [[float(v) for v in e] for e in real_edges(axes)]
                    op["pts"], op["w"] = draw(entries(es))
            live.append(axes)
            ops.append(op)
            continue
        i = draw(st.integers(0, len(live) - 1))
        es = [[float(v) for v in e] for e in real_edges(live[i])]
        if k == "fill":
            pts, w = draw(entries(es))
            ops.append(dict(op=k, h=i, pts=pts, w=w))
        elif k in ("chunks", "shuffle"):
            pts, w = draw(entries(es, 10))
            if k == "chunks":
                cuts = sorted(draw(st.lists(st.integers(0, len(pts)), max_size=3)))
                ops.append(dict(op=k, h=i, pts=pts, w=w, cuts=cuts))
            else:
                ops.append(dict(op=k, h=i, pts=pts, w=w, perm=draw(st.permutations(list(range(len(pts)))))))
        elif k == "mutate":
            ops.append(dict(op=k, h=i, what=draw(st.sampled_from(["data", "weights", "edges", "counts", "errs"])), by=draw(num(-3, 3))))
        elif k == "project" and len(live[i]) == 2:
            which = draw(st.sampled_from([0, 1]))
            ops.append(dict(op=k, h=i, axis=which))
            live.append([live[i][which]])
    return dict(ops=ops)


class Model:
    def __init__(self, edges, counts=None, errsq=None, filled=False):
        self.edges = [np.array(e, dtype=float) for e in edges]
        shape = tuple(len(e) - 1 for e in edges)
        self.c0 = np.zeros(shape) if counts is None else np.array(counts, dtype=float)
        self.e0 = np.zeros(shape) if errsq is None else np.array(errsq, dtype=float)
        self.pts, self.w = [], []
        self.filled = filled
        self.fills = 0
        self.noise = self.noise2 = 0.0
        self.base = (0.0, 0.0)
        self.cache = None

    def add(self, pts, w):
        self.pts += [tuple(p) for p in pts]
        self.w += list(w) if w is not None else [1.0] * len(pts)
        self.noise = self.base[0] + 1e-13 * sum(abs(v) for v in self.w)
        self.noise2 = self.base[1] + 1e-13 * sum(v * v for v in self.w)
        self.filled = True
        self.fills += 1
        self.cache = None

    def state(self):
        if self.cache is None:
            c, e, s = ref.ref_fill(self.edges, self.pts, self.w)
            self.cache = (self.c0 + c, self.e0 + e, s + np.abs(self.c0), )
        return self.cache


def as_data(pts, dim):
    cols = [np.array([p[d] for p in pts], dtype=float) for d in range(dim)]
    return cols


def check(c, ctx):
    hs, ms, owned = [], [], []  # owned: caller arrays per histogram
    twice = False
    for op in c["ops"]:
        k = op["op"]
        if k in ("new", "binned"):
            dim = len(op["axes"])
            edges = real_edges(op["axes"])
            own = dict(edges=[e.copy() for e in edges], data=[], weights=[], counts=None, errs=None)
            if k == "new":
                data = w = None
                if "pts" in op:
                    data = as_data(op["pts"], dim)
                    w = None if op["w"] is None else np.array(op["w"], dtype=float)
                    own["data"] += data
                    if w is not None:
                        own["weights"].append(w)
                cls = tf.Hist1d if dim == 1 else tf.Hist2d
                arg = None if data is None else (data[0] if dim == 1 else (data[0], data[1]))
                if op["via"] == "args" and all("n" in a for a in op["axes"]):
                    rng = tuple((a["lo"], a["hi"]) for a in op["axes"])
                    nb = tuple(a["n"] for a in op["axes"])
                    h = cls(nb if dim == 2 else nb[0], rng if dim == 2 else rng[0], arg, w)
                else:
                    h = cls(own["edges"][0] if dim == 1 else tuple(own["edges"]), None, arg, w)
                m = Model([np.asarray(e) for e in (h.bin_edges if dim == 2 else [h.bin_edges])])
                if data is not None:
                    m.add(op["pts"], op["w"])
            else:
                shape = tuple(len(e) - 1 for e in edges)
                cnt = np.array(op["counts"], dtype=int if op["int"] else float).reshape(shape)
                err = None if op["errs"] is None else np.array(op["errs"], dtype=float).reshape(shape)
                own["counts"], own["errs"] = cnt, err
                cls = tf.Hist1d if dim == 1 else tf.Hist2d
                m = Model(edges, cnt, cnt if err is None else err ** 2, filled=True)
                h = cls.from_binned_data(cnt, own["edges"][0] if dim == 1 else tuple(own["edges"]), err)
            hs.append(h); ms.append(m); owned.append(own)
        elif k in ("fill", "chunks", "shuffle"):
            h, m, own = hs[op["h"]], ms[op["h"]], owned[op["h"]]
            dim = len(m.edges)
            pts = op["pts"]
            w = op["w"]
            if k == "shuffle":
                pts = [pts[i] for i in op["perm"]]
                w = None if w is None else [w[i] for i in op["perm"]]
            cuts = [0] + list(op.get("cuts", [])) + [len(pts)]
            for a, b in zip(cuts[:-1], cuts[1:]):
                cols = as_data(pts[a:b], dim)
                wa = None if w is None else np.array(w[a:b], dtype=float)
                backup = [x.copy() for x in cols] + ([] if wa is None else [wa.copy()])
                h.fill(cols[0] if dim == 1 else (cols[0], cols[1]), *([] if wa is None else [wa]))
                for x, y in zip(cols + ([] if wa is None else [wa]), backup):
                    same("array passed to fill", x, y)
                own["data"] += cols
                if wa is not None:
                    own["weights"].append(wa)
            if m.filled:
                twice = True
            m.add(pts, w)
            ctx.label(k)
        elif k == "mutate":
            own = owned[op["h"]]
            arrs = {"data": own["data"], "weights": own["weights"], "edges": own["edges"],
                    "counts": [own["counts"]] if own["counts"] is not None else [],
                    "errs": [own["errs"]] if own["errs"] is not None else []}[op["what"]]
            for a in arrs:
                a += np.array(op["by"]).astype(a.dtype)
                ctx.label("mutate-" + op["what"])
        elif k == "project":
            h, m = hs[op["h"]], ms[op["h"]]
            p = h.x_projection() if op["axis"] == 0 else h.y_projection()
            c_, e_, _ = m.state()
            other = 1 - op["axis"]
            hs.append(p)
            ms.append(Model([m.edges[op["axis"]]], c_.sum(axis=other), e_.sum(axis=other), filled=True))
            ms[-1].base = ms[-1].noise, ms[-1].noise2 = 10 * m.noise, 10 * m.noise2
            owned.append(dict(edges=[], data=[], weights=[], counts=None, errs=None))
            ctx.label("project")
        # every live histogram has to match its model after every step
        for i, (h, m) in enumerate(zip(hs, ms)):
            cc, ee, s = m.state()
            # rounding may depend on all the weights (differences of cumulative sums)
            close("counts of histogram %d after %s" % (i, k), h.bin_counts, cc, rtol=1e-11, atol=1e-11 * s + m.noise)
            close("squared errors of histogram %d after %s" % (i, k), h.bin_errors_sq, ee, rtol=1e-10, atol=1e-11 * np.abs(m.e0) + m.noise2)
            ge = [h.bin_edges] if len(m.edges) == 1 else list(h.bin_edges)
            for a, b in zip(ge, m.edges):
                same("edges of histogram %d after %s" % (i, k), a, b)
            ensure(bool(h.is_empty) == (not m.filled), "is_empty of histogram %d after %s is %s", i, k, h.is_empty)
    ctx.hit(twice)


@st.composite
def bulk(draw):
    dim = draw(st.integers(1, 2))
    n = draw(st.sampled_from([2000, 40, 20000, 70000, 140000]))
    return dict(axes=[draw(axis(1, 10 if dim == 1 else 4)) for _ in range(dim)], n=n, seed=draw(st.integers(0, 2 ** 31)),
                cuts=draw(st.lists(st.integers(0, n), max_size=3)), w=draw(st.booleans()), perm=draw(st.booleans()))


def check_bulk(c, ctx):
    """Large samples: one fill against several fills of the pieces in another order."""
    dim, n = len(c["axes"]), c["n"]
    edges = real_edges(c["axes"])
    g = np.random.default_rng(c["seed"])
    cols = [e[0] + (e[-1] - e[0]) * g.uniform(-0.1, 1.1, n) for e in edges]
    w = g.normal(1, 1, n) if c["w"] else None
    cls = tf.Hist1d if dim == 1 else tf.Hist2d

    def new():
        return cls(edges[0].copy() if dim == 1 else tuple(e.copy() for e in edges))

    def fill(h, i):
        x = [col[i] for col in cols]
        h.fill(x[0] if dim == 1 else (x[0], x[1]), *([] if w is None else [w[i]]))

    a, b = new(), new()
    fill(a, slice(None))
    order = g.permutation(n) if c["perm"] else np.arange(n)
    cuts = [0] + sorted(c["cuts"]) + [n]
    for lo, hi in zip(cuts[:-1], cuts[1:]):
        fill(b, order[lo:hi])
    m = float(np.sum(np.abs(w))) if w is not None else float(n)
    close("counts of %d entries filled in %d pieces" % (n, len(cuts) - 1), b.bin_counts, a.bin_counts, rtol=1e-11, atol=1e-12 * m)
    close("squared errors of %d entries filled in %d pieces" % (n, len(cuts) - 1), b.bin_errors_sq, a.bin_errors_sq, rtol=1e-10,
          atol=1e-12 * (float(np.sum(w ** 2)) if w is not None else float(n)))
    ctx.hit(len(cuts) > 2)
    ctx.label("bulk-%d" % n)


SUBS = [
    Sub("bulk", bulk, check_bulk, 300, 5000, "samples of up to 140000 entries filled at once and in pieces"),
    Sub("history", history, check, 4000, 80000, "histories of up to 12 operations over several histograms, compared with the multiset of entries after every step",
        corpus=[dict(ops=[dict(op="binned", axes=[dict(n=2, lo=0.0, hi=2.0)], counts=[3, 4], int=True, errs=None),
                          dict(op="fill", h=0, pts=[[0.5]], w=[1.5]), dict(op="mutate", h=0, what="counts", by=1.0)]),
                dict(ops=[dict(op="binned", axes=[dict(n=2, lo=0.0, hi=2.0), dict(n=1, lo=0.0, hi=1.0)], counts=[3, 4], int=False, errs=[1.0, 2.0]),
                          dict(op="fill", h=0, pts=[[0.5, 0.5]], w=[1.5]), dict(op="mutate", h=0, what="errs", by=1.0)])]),
]
