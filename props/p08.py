"""P08: the parameter vector maps one-to-one onto yields and nuisance parameters."""
import numpy as np
from hypothesis import strategies as st

from pbt.build import Pair
from pbt.core import Sub, close, ensure, equal, raises, same
from pbt.gens import EFFS0, fl, model_spec, n_nui, num, raw_params

RULE = "non-trivial: at least two processes and two channels whose lists of processes differ, or at least two processes and a parameter write"


@st.composite
def history(draw):
    spec = draw(model_spec(max_ch=3, max_proc=4, max_bins=4, effs=EFFS0))
    for ch in spec["chans"]:
        del ch["data"]
    np_, nn = len(spec["procs"]), n_nui(spec)
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(["update", "update", "set", "set", "reset", "template", "bad"]))
        if k == "update":
            ops.append(dict(op=k, x=draw(raw_params(np_, nn))))
        elif k == "set":
            ops.append(dict(op=k, p=draw(st.integers(0, np_ - 1)), v=draw(num(0, 1e3)), int=draw(st.booleans())))
        elif k == "template":
            ops.append(dict(op=k, c=draw(st.integers(0, 2)), i=draw(st.integers(0, 3)), v=draw(num(0, 1e3))))
        else:
            ops.append(dict(op=k))
    return dict(model=spec, ops=ops)


def verify(pr, what):
    m, r = pr.m, pr.r
    nll = m.create_nll()
    names = r.names()
    equal("parameter names after " + what, list(nll.param_names), names)
    x0 = r.x0()
    close("parameter vector after " + what, nll.x0, x0, rtol=1e-12)
    equal("lengths after " + what, (len(nll.x0), m.num_nui_params + m.num_processes), (len(names), len(names)))
    close("process yields after " + what, m.process_yields, x0[:len(r.processes)], rtol=1e-12)
    close("nuisance parameters after " + what, m.nui_params, x0[len(r.processes):], rtol=1e-12)
    errsq = {p: 0.0 for p in r.processes}
    for cn, c in r.channels.items():
        for p, t in c["t"].items():
            tm = m.channels[cn][p]
            ensure(tm is pr.t[cn, p], "channel %s process %s returns another template", cn, p)
            close("yield of %s/%s after %s" % (cn, p, what), tm.yield_param, t.yld, rtol=1e-12)
            same("nuisance parameters of %s/%s after %s" % (cn, p, what), tm.nui_params, t.nui)
            v = t.values
            close("values of %s/%s after %s" % (cn, p, what), tm.values, v, rtol=1e-9)
            errsq[p] += float(np.sum(t.errors ** 2))
    for i, p in enumerate(r.processes):
        close("yield of %s after %s" % (p, what), m.get_yield(p), x0[i], rtol=1e-12)
    close("process yield errors after " + what, m.process_yield_errors, np.sqrt([errsq[p] for p in r.processes]), rtol=1e-9)


def check(c, ctx):
    spec = c["model"]
    pr = Pair(spec, data=False)
    m, r = pr.m, pr.r
    verify(pr, "creation")
    initial = r.x0()
    start = {k: t.yield_param for k, t in pr.t.items()}
    for op in c["ops"]:
        k = op["op"]
        if k == "update":
            x = pr.vector(op["x"])
            keep = x.copy()
            m.update_parameters(x)
            same("vector passed to update_parameters", x, keep)
            r.update(x)
            for cn, ch in r.channels.items():
                for p in ch["t"]:
                    close("yield of %s/%s" % (cn, p), pr.t[cn, p].yield_param, x[r.processes.index(p)] * ch["eff"][p], rtol=1e-12)
        elif k == "set":
            p = r.processes[op["p"]]
            v = int(op["v"]) if op["int"] else op["v"]
            m.set_yield(p, v)
            for cn, ch in r.channels.items():
                if p in ch["t"]:
                    ch["t"][p].yld = float(v) * ch["eff"][p]
        elif k == "template":
            cn = list(r.channels)[op["c"] % len(r.channels)]
            p = list(r.channels[cn]["t"])[op["i"] % len(r.channels[cn]["t"])]
            pr.t[cn, p].yield_param = op["v"]
            r.channels[cn]["t"][p].yld = op["v"]
        elif k == "reset":
            m.reset_parameters()
            for cn, ch in r.channels.items():
                for p, t in ch["t"].items():
                    t.yld, t.nui = float(np.sum(t.n)), np.zeros(len(t.n))
                    close("yield of %s/%s after reset" % (cn, p), pr.t[cn, p].yield_param, start[cn, p], rtol=1e-12)
            close("parameter vector after reset", m.create_nll().x0, initial, rtol=1e-12)
        else:
            raises("setting the yield of an undefined process", lambda: m.set_yield("undefined", 1.0))
            raises("reading the yield of an undefined process", lambda: m.get_yield("undefined"))
        verify(pr, k)
        ctx.label(k)
    lists = [tuple(t["p"] for t in ch["temps"]) for ch in spec["chans"]]
    ctx.hit(len(spec["procs"]) > 1 and (len(set(lists)) > 1 or any(o["op"] in ("update", "set") for o in c["ops"])))
    if len(set(lists)) > 1:
        ctx.label("different process lists")
    if len({tuple(sorted(l)) for l in lists}) < len(set(lists)):
        ctx.label("permuted process lists")
    if len({r.channels[cn]["nbins"] for cn in r.channels}) > 1:
        ctx.label("different numbers of bins")
    if any(p not in l for l in lists for p in spec["procs"]):
        ctx.label("missing process")


SUBS = [Sub("mapping", history, check, 3000, 60000, "histories of parameter updates, yields and resets on models with 1-3 channels and 1-4 processes")]
