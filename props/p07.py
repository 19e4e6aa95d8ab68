"""P07: model assembly accepts only compatible parts and rejection changes nothing."""
import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import channel_args, diff, hist_from, real_edges, snapshot
from pbt.core import Sub, ensure, equal, raises, same
from pbt.gens import CNAMES, NAMES, axis, fixed_list, fl, num

RULE = "non-trivial: at least one accepted template or dataset and at least one rejected operation after it"

VARIANTS = ["same", "same", "same", "same", "explicit", "hi", "lo", "nbins", "edges", "edges", "swap", "nswap", "merge", "dim", "flat", "subclass"]


class OtherTemplate1d(tf.Template1d):
    pass


class OtherTemplate2d(tf.Template2d):
    pass


def agree(a, b):
    return len(a) == len(b) and np.all(np.abs(a - b) <= 1e-3 * np.min(np.diff(a)))


def variant(axes, kind):
    """Edges of the variant, or None if it does not exist for this binning."""
    es = [np.array(e) for e in real_edges(axes)]
    if kind in ("same", "explicit", "subclass"):
        return es
    if kind == "hi":
        es[-1] = es[-1].copy()
        es[-1][-1] += es[-1][-1] - es[-1][0]
        return es
    if kind == "lo":
        es[0] = es[0].copy()
        es[0][0] -= es[0][-1] - es[0][0]
        return es
    if kind == "nbins":
        e = es[-1]
        es[-1] = np.concatenate([e[:-1], [(e[-1] + e[-2]) / 2], e[-1:]])
        return es
    if kind == "edges":
        for d in reversed(range(len(es))):
            if len(es[d]) > 2:
                e = es[d].copy()
                e[1] += 0.3 * min(e[1] - e[0], e[2] - e[1])
                es[d] = e
                return es
        return None
    if kind == "swap":
        if len(es) == 2 and not agree(*es):
            return es[::-1]
        return None
    if kind == "nswap":  # numbers of bins exchanged, ranges kept
        if len(es) == 2 and len(es[0]) != len(es[1]):
            return [np.linspace(a[0], a[-1], len(b)) for a, b in (es, es[::-1])]
        return None
    if kind == "merge":  # all bins along one axis
        if len(es) == 2 and len(es[1]) > 2:
            return [np.linspace(es[0][0], es[0][-1], (len(es[0]) - 1) * (len(es[1]) - 1) + 1), np.array([es[1][0], es[1][-1]])]
        return None
    if kind == "dim":
        return es + [np.array([0.0, 1.0])] if len(es) == 1 else es[:1]
    if kind == "flat":
        if len(es) == 2:
            n = (len(es[0]) - 1) * (len(es[1]) - 1)
            return [np.linspace(es[0][0], es[0][-1], n + 1)]
        return None


def make_hist(es, counts):
    shape = tuple(len(e) - 1 for e in es)
    n = int(np.prod(shape))
    c = np.array([counts[i % len(counts)] for i in range(n)]).reshape(shape)
    if len(es) == 1:
        return tf.Hist1d.from_binned_data(c, es[0]), c
    return tf.Hist2d.from_binned_data(c, tuple(es)), c


@st.composite
def history(draw):
    chans = []
    for c in draw(st.permutations(CNAMES))[:draw(st.integers(1, 3))]:
        dim = draw(st.sampled_from([1, 1, 2]))
        axes = [draw(axis(1, 5 if dim == 1 else 3, wild=True)) for _ in range(dim)]
        if dim == 2 and draw(st.integers(0, 2)) == 0:
            axes[1] = axes[0]
        chans.append(dict(name=c, axes=axes))
    procs = draw(st.permutations(NAMES))[:draw(st.integers(1, 3))]
    ops = []
    nc, npr = len(chans), len(procs)
    contents = fixed_list(num(0, 50), 3)
    pre = draw(st.integers(0, 4))
    if pre:  # usually start with a defined model
        ops += [dict(op="channel", c=i) for i in range(nc)] + [dict(op="process", p=i) for i in range(npr)]
    for _ in range(draw(st.integers(2, 14))):
        k = draw(st.sampled_from(["template"] * 6 + ["data"] * 4 + ["constraint", "constraint", "process", "channel"]))
        if k == "template":
            ops.append(dict(op=k, c=draw(st.integers(0, nc - 1)), p=draw(st.integers(0, npr - 1)), v=draw(st.sampled_from(VARIANTS)),
                            undef=draw(st.sampled_from(["", "", "", "", "", "c", "p"])), eff=draw(st.one_of(st.none(), fl(0.01, 2))), n=draw(contents)))
        elif k == "data":
            ops.append(dict(op=k, parts=[dict(c=draw(st.integers(0, nc - 1)), v=draw(st.sampled_from(VARIANTS[:-1])), n=draw(contents))
                                         for _ in range(draw(st.integers(1, 2)))], undef=draw(st.sampled_from([False, False, False, True]))))
        elif k == "constraint":
            ops.append(dict(op=k, p=draw(st.integers(0, npr - 1)), v=draw(num(0, 100)), e=draw(fl(0.1, 10)),
                            undef=draw(st.sampled_from([False, False, True]))))
        elif k == "process":
            ops.append(dict(op=k, p=draw(st.integers(0, npr - 1))))
        else:
            ops.append(dict(op=k, c=draw(st.integers(0, nc - 1))))
    return dict(chans=chans, procs=procs, ops=ops)


def fits(ch, es):
    """Whether edges es may be added to the channel."""
    want = [(len(e) - 1, e[0], e[-1]) for e in real_edges(ch["axes"])]
    if want != [(len(e) - 1, e[0], e[-1]) for e in es]:
        return False
    return ch["edges"] is None or all(agree(a, b) for a, b in zip(ch["edges"], es))


def verify(m, procs, reg, constr, what):
    equal("processes after " + what, tuple(m.processes), tuple(procs))
    equal("number of processes after " + what, m.num_processes, len(procs))
    equal("channels after " + what, list(m.channels.keys()), list(reg))
    equal("number of channels after " + what, m.num_channels, len(reg))
    tot = 0
    for cn, r in reg.items():
        c = m.channels[cn]
        n = int(np.prod([len(e) - 1 for e in real_edges(r["axes"])]))
        equal("processes of channel %s after %s" % (cn, what), tuple(c.processes), tuple(r["t"]))
        equal("number of templates after " + what, c.num_templates, len(r["t"]))
        equal("number of bins after " + what, c.num_bins, n)
        equal("nuisance parameters of channel %s after %s" % (cn, what), c.num_nui_params, n * len(r["t"]))
        tot += n * len(r["t"])
        equal("efficiencies after " + what, dict(c.efficiencies), dict(r["eff"]))
        for p, t in r["t"].items():
            ensure(c[p] is t and c.templates[p] is t, "template %s/%s is not the added one after %s", cn, p, what)
        equal("has_data after " + what, bool(c.has_data), r["data"] is not None)
        if r["data"] is not None:
            same("data after " + what, c.data_bin_counts, r["data"])
        else:
            raises("reading missing data after " + what, lambda: c.data_bin_counts)
    equal("number of nuisance parameters after " + what, m.num_nui_params, tot)
    equal("constrained yields after " + what, sorted(set(m.constrained_yields)), sorted(constr))
    equal("constraint values after " + what, {p: (m.constrained_yield_values[p], m.constrained_yield_errors[p]) for p in constr}, constr)
    for i, p in enumerate(procs):
        equal("index of " + p, m.process_to_index(p), i)


def check(c, ctx):
    m = tf.MultiChannelTemplate()
    procs, reg, constr = [], {}, {}
    accepted = rejected_after = False
    for op in c["ops"]:
        k = op["op"]
        before = snapshot(m)
        why = None
        act = commit = None
        if k == "process":
            p = c["procs"][op["p"]]
            if p in procs:
                why = "process defined twice"
            act = lambda: m.define_process(p)
            commit = lambda: procs.append(p)
        elif k == "channel":
            ch = c["chans"][op["c"]]
            if ch["name"] in reg:
                continue
            b, rg = channel_args(ch["axes"])
            act = lambda: m.define_channel(ch["name"], b, rg)
            commit = lambda: reg.__setitem__(ch["name"], dict(axes=ch["axes"], t={}, eff={}, data=None, edges=None, type=None))
        elif k == "constraint":
            p = "undefined" if op["undef"] else c["procs"][op["p"]]
            if p not in procs:
                why = "constraint on an undefined process"
            act = lambda: m.add_gaussian_constraint_on_yield(p, op["v"], op["e"])
            commit = lambda: constr.__setitem__(p, (op["v"], op["e"]))
        elif k == "template":
            ch = c["chans"][op["c"]]
            es = variant(ch["axes"], op["v"])
            if es is None:
                continue
            cn = "undefined" if op["undef"] == "c" else ch["name"]
            p = "undefined" if op["undef"] == "p" else c["procs"][op["p"]]
            cls = {1: (tf.Template1d, OtherTemplate1d), 2: (tf.Template2d, OtherTemplate2d)}[len(es)][op["v"] == "subclass"]
            h, _ = make_hist(es, op["n"])
            t = cls("t", "x" if len(es) == 1 else ("x", "y"), h)
            if cn not in reg:
                why = "template for an undefined channel"
            elif p not in procs:
                why = "template for an undefined process"
            elif not fits(reg[cn], es):
                why = "template with incompatible binning (%s)" % op["v"]
            elif p in reg[cn]["t"]:
                why = "process added twice to a channel"
            elif reg[cn]["type"] not in (None, cls):
                why = "template of another type"
            eff = op["eff"]
            act = (lambda: m.add_template(cn, p, t)) if eff is None else (lambda: m.add_template(cn, p, t, eff))

            def commit():
                r = reg[cn]
                r["t"][p] = t
                r["eff"][p] = 1.0 if eff is None else eff
                r["type"] = cls
                r["edges"] = r["edges"] or es
        elif k == "data":
            kw, new = {}, []
            for q in op["parts"]:
                ch = c["chans"][q["c"]]
                es = variant(ch["axes"], q["v"])
                if es is None or ch["name"] in kw:
                    continue
                h, cnt = make_hist(es, q["n"])
                kw[ch["name"]] = h
                new.append((ch["name"], cnt, es))
                if ch["name"] not in reg:
                    why = "data for an undefined channel"
                elif not fits(reg[ch["name"]], es):
                    why = "data with incompatible binning (%s)" % q["v"]
            if not kw:
                continue
            if op["undef"]:
                kw["undefined"] = list(kw.values())[0]
                why = "data for an undefined channel"
            act = lambda: m.add_data(**kw)

            def commit():
                for cn, cnt, es in new:
                    reg[cn]["data"] = cnt
                    reg[cn]["edges"] = reg[cn]["edges"] or es
        if why:
            raises(why, act)
            d = diff(before, snapshot(m))
            ensure(d is None, "rejected operation (%s) changed the model: %s", why, d)
            ctx.label("rejected: " + why)
            rejected_after = rejected_after or accepted
        else:
            act()
            commit()
            if k in ("template", "data"):
                accepted = True
            ctx.label("accepted " + k)
        verify(m, procs, reg, constr, why or k)
    ctx.hit(rejected_after)


SUBS = [
    Sub("assembly", history, check, 4000, 80000, "histories of accepted and rejected definitions, templates, data and constraints",
        corpus=[
            dict(chans=[dict(name="c", axes=[dict(n=2, lo=0.0, hi=1.0)])], procs=["sig", "bkg"],
                 ops=[dict(op="channel", c=0), dict(op="process", p=0), dict(op="process", p=1),
                      dict(op="template", c=0, p=0, v="edges", undef="", eff=None, n=[1.0, 2.0, 3.0]),
                      dict(op="template", c=0, p=1, v="same", undef="", eff=0.5, n=[1.0, 2.0, 3.0]),
                      dict(op="data", parts=[dict(c=0, v="same", n=[1.0, 2.0, 3.0])], undef=False)]),
            dict(chans=[dict(name="c", axes=[dict(n=2, lo=0.0, hi=1.0)])], procs=["sig"],
                 ops=[dict(op="channel", c=0), dict(op="process", p=0),
                      dict(op="template", c=0, p=0, v="same", undef="", eff=None, n=[1.0, 2.0, 3.0]),
                      dict(op="data", parts=[dict(c=0, v="same", n=[1.0, 2.0, 3.0])], undef=True)])]),
]
