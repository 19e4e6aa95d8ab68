"""P10: the likelihood always reflects the current model."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

import templatefitter as tf
from pbt.build import Pair, add_syst, diff, hist_from, mids, nll_tol, snapshot
from pbt.core import Sub, close, ensure, equal, same
from pbt.gens import CNAMES, EFFS, NAMES, axis, fixed_list, fl, nbins, num, pos_count, systs, template_spec

RULE = "non-trivial: at least one evaluation before a later change of the same model that is followed by another evaluation"


@st.composite
def one_model(draw, tag):
    np_ = draw(st.sampled_from([2, 3, 1, 5]))
    nch = draw(st.sampled_from([1, 2, 1, 2, 5]))
    procs = draw(st.permutations(NAMES))[:np_]
    chans = []
    for c in draw(st.permutations(CNAMES))[:nch]:
        dim = draw(st.sampled_from([1, 1, 1, 2]))
        chans.append(dict(name=c, axes=[draw(axis(1, 3 if dim == 1 else 2)) for _ in range(dim)]))
    return dict(procs=procs, chans=chans)


def size(ch):
    n = 1
    for a in ch["axes"]:
        n *= nbins(a)
    return n


@st.composite
def history(draw):
    models = [draw(one_model(i)) for i in range(draw(st.sampled_from([1, 1, 2])))]
    if len(models) == 2 and draw(st.booleans()):
        models[1] = models[0]  # same names, but no common parts
    ops = []

    def template(mi, ci, pi):
        ch = models[mi]["chans"][ci]
        t = draw(template_spec(ch["axes"], pos_count, max_systs=1))
        t["p"] = models[mi]["procs"][pi]
        t["eff"] = draw(EFFS)
        return dict(op="template", m=mi, c=ci, t=t)

    def data(mi, ci):
        return dict(op="data", m=mi, c=ci, d=draw(fixed_list(num(0, 200), size(models[mi]["chans"][ci]))))

    for mi, md in enumerate(models):
        ops.append(dict(op="channel", m=mi, c=0))
        for pi in range(draw(st.integers(1, len(md["procs"])))):
            ops.append(dict(op="process", m=mi, p=pi))
        ops.append(template(mi, 0, 0))
        ops.append(data(mi, 0))
        for ci in range(1, draw(st.integers(1, len(md["chans"])))):
            pi = draw(st.integers(0, len(md["procs"]) - 1))
            ops += [dict(op="channel", m=mi, c=ci), dict(op="process", m=mi, p=pi), template(mi, ci, pi), data(mi, ci)]
    for _ in range(draw(st.integers(3, 12))):
        mi = draw(st.integers(0, len(models) - 1))
        md = models[mi]
        ci, pi = draw(st.integers(0, len(md["chans"]) - 1)), draw(st.integers(0, len(md["procs"]) - 1))
        k = draw(st.sampled_from(["eval"] * 4 + ["syst"] * 3 + ["template"] * 4 + ["channel", "process", "constraint", "data", "data",
                                 "params", "params", "yield", "tyield", "reset", "asimov", "toy", "fit", "copy"]))
        if k == "template":
            # a template for an undefined channel or process brings its definition with it
            ops += [dict(op="channel", m=mi, c=ci), dict(op="process", m=mi, p=pi), template(mi, ci, pi)]
            if draw(st.booleans()) or ci > 0:
                ops.append(data(mi, ci))
        elif k == "syst":
            ch = md["chans"][ci]
            ops.append(dict(op=k, m=mi, c=ci, i=draw(st.integers(0, 8)), kind=draw(st.sampled_from(["rel", "rel", "cov"])),
                            a=draw(fixed_list(fl(-0.4, 0.4), size(ch)))))
        elif k == "process":
            ops.append(dict(op=k, m=mi, p=pi))
        elif k == "channel":
            ops.append(dict(op="channel", m=mi, c=ci))
        elif k == "constraint":
            ops.append(dict(op=k, m=mi, p=pi, v=draw(num(0, 300)), e=draw(fl(1, 50))))
        elif k == "data":
            ops.append(data(mi, ci))
        elif k == "params":
            ops.append(dict(op=k, m=mi, y=draw(fixed_list(num(1, 500), len(md["procs"]))), t=draw(fixed_list(fl(-2, 2), 4))))
        elif k in ("yield", "tyield"):
            ops.append(dict(op=k, m=mi, p=pi, c=ci, i=draw(st.integers(0, 8)), v=draw(num(0, 500))))
        elif k == "copy":
            ops.append(dict(op=k, m=mi, deep=draw(st.booleans())))
        else:
            ops.append(dict(op=k, m=mi))
    ops += [dict(op="eval", m=mi) for mi in range(len(models))]
    return dict(models=models, ops=ops)


def cycle(v, n):
    return [v[i % len(v)] for i in range(n)]


class Live:
    def __init__(self, md):
        self.md = md
        self.pr = Pair(dict(procs=[], chans=[]))
        self.nlls = []
        self.systs = {}  # in order of addition
        self.specs = {}
        self.evals = 0

    def ready(self):
        r = self.pr.r
        return bool(r.channels) and bool(r.processes) and all(c["t"] and c["data"] is not None for c in r.channels.values())

    def fresh(self):
        """A new model built directly in the current state."""
        r = self.pr.r
        axes = {ch["name"]: ch["axes"] for ch in self.md["chans"]}
        spec = dict(procs=list(r.processes), chans=[dict(name=cn, axes=axes[cn], temps=[dict(self.specs[cn, p], systs=self.systs[cn, p]) for p in c["t"]],
                                                        data=[float(v) for v in np.ravel(c["data"])]) for cn, c in r.channels.items()],
                    constr=[[p, v, e] for p, (v, e) in r.constraints.items()])
        f = Pair(spec)
        for key, t in self.pr.t.items():
            f.t[key].params = np.array(t.params)
        return f


def compare(L, ctx, what):
    m, r = L.pr.m, L.pr.r
    f = L.fresh()
    new = m.create_nll()
    fn = f.m.create_nll()
    L.nlls.append(new)
    x0 = r.x0()
    for nll in L.nlls:
        equal("parameter names " + what, list(nll.param_names), r.names())
        close("parameter vector " + what, nll.x0, x0, rtol=1e-12)
    equal("parameter names of the directly built model", list(fn.param_names), r.names())
    same("parameter vector of the directly built model", fn.x0, new.x0)
    n = len(r.processes)
    for k in range(2):
        x = np.concatenate([10.0 + 7 * np.arange(n) + 11 * k, 0.3 * np.cos(np.arange(len(x0) - n) + k)])
        x = L.pr.vector(dict(y=x[:n], t=x[n:]))
        want = r.nll(x)
        # a fresh model may accumulate the same matrices, so that the result has to be equal to rounding
        for nll in L.nlls:
            close("likelihood " + what, nll(x), want, rtol=1e-9, atol=nll_tol(r, x))
        close("likelihood of the directly built model", new(x), fn(x), rtol=1e-12, atol=1e-3 * nll_tol(r, x))
        # a value very close to the one evaluated last; the two models evaluate them in opposite order
        z = x.copy()
        z[n:] += 4e-7 * np.sin(1.0 + np.arange(len(x0) - n) + k)
        z[:n] *= 1 + 1e-8 * (1 + np.arange(n))
        fn(x * 1.01)
        a, b = [new(q) for q in (x, z)], [fn(q) for q in (z, x)][::-1]
        close("likelihood of neighbouring values " + what, a, b, rtol=1e-12, atol=1e-3 * nll_tol(r, x))
        for cn, c in r.channels.items():
            y, nui = r.split(x)
            v = np.concatenate([[y[p] for p in c["t"]]] + [nui[cn, p] for p in c["t"]])
            close("expected bin counts of %s %s" % (cn, what), m.channels[cn].bin_counts_from_param_values(v), r.expectation(x, cn), rtol=1e-9)
    asimov(L, what)
    L.evals += 1


def asimov(L, what):
    a = L.pr.m.generate_asimov_dataset()
    for cn in L.pr.r.channels:
        v = L.pr.r.values(cn)
        close("Asimov data of %s %s" % (cn, what), np.ravel(a[cn].bin_counts), v, rtol=1e-9)


def copied(L, op):
    """A copy of the model starts equal and is independent of it."""
    m, r = L.pr.m, L.pr.r
    other = copy.deepcopy(m) if op["deep"] else pickle.loads(pickle.dumps(m))
    x0 = r.x0()
    n = len(r.processes)
    x = L.pr.vector(dict(y=10.0 + 7 * np.arange(n), t=0.3 * np.cos(np.arange(len(x0) - n))))
    f, g = m.create_nll(), other.create_nll()
    equal("parameter names of a copy", list(g.param_names), list(f.param_names))
    same("parameter vector of a copy", g.x0, f.x0)
    close("likelihood of a copy", g(x), f(x), rtol=1e-12, atol=1e-3 * nll_tol(r, x))
    before = snapshot(m)
    other.update_parameters(1.5 * x)
    for cn, ch in other.channels.items():
        for p, t in ch.templates.items():
            v = r.channels[cn]["t"][p].n
            t.add_variation(mids(next(q["axes"] for q in L.md["chans"] if q["name"] == cn)), v + 2.0 * (np.arange(len(v)) == 0), v)
    other.add_data(**other.generate_asimov_dataset())
    other.add_gaussian_constraint_on_yield(r.processes[0], 17.0, 3.0)
    other.define_process("only in the copy")
    d = diff(before, snapshot(m))
    ensure(d is None, "changes of a copy changed the model: %s", d)
    close("likelihood of the model after changes of a copy", f(x), r.nll(x), rtol=1e-9, atol=nll_tol(r, x))


def check(c, ctx):
    live = [Live(md) for md in c["models"]]
    hit = False
    changed_after_eval = [False] * len(live)
    for op in c["ops"]:
        i, k = op["m"], op["op"]
        L = live[i]
        md, pr = L.md, L.pr
        m, r = pr.m, pr.r
        before = [snapshot(o.pr.m) if o is not L else None for o in live] if len(live) > 1 and k != "eval" else None
        ch = md["chans"][op["c"]] if "c" in op else None
        p = md["procs"][op["p"]] if "p" in op else None
        done = True
        if k == "channel":
            if ch["name"] in r.channels or (r.channels and not all(q["t"] for q in r.channels.values())):
                continue
            pr.add_channel(ch)
        elif k == "process":
            if p in r.processes:
                continue
            m.define_process(p)
            r.processes.append(p)
        elif k == "template":
            cn, t = ch["name"], op["t"]
            if cn not in r.channels or t["p"] not in r.processes or t["p"] in r.channels[cn]["t"]:
                continue
            _, rt = pr.add_template(cn, t)
            kept = list(rt.systs)
            L.specs[cn, t["p"]] = t
            L.systs[cn, t["p"]] = list(t["systs"]) if len(kept) == len(t["systs"]) else []
            if len(kept) != len(t["systs"]):
                return
            d = r.channels[cn]["data"]
            if d is not None:
                pr.set_data(cn, d)
        elif k == "syst":
            cn = ch["name"]
            if cn not in r.channels or not r.channels[cn]["t"]:
                continue
            q = list(r.channels[cn]["t"])[op["i"] % len(r.channels[cn]["t"])]
            rt = r.channels[cn]["t"][q]
            a = np.array(op["a"]) * rt.n
            if op["kind"] == "cov" and len(ch["axes"]) == 1:
                s = dict(kind="cov", a=[[float(v)] for v in a])
            else:
                s = dict(kind="ud", up=[float(v) for v in rt.n + a], down=[float(v) for v in rt.n - a])
            if not add_syst(pr.t[cn, q], rt, ch["axes"], s):
                continue
            L.systs[cn, q].append(s)
            # keep the current parameters inside the domain
            if np.any(1 + rt.nui * rt.rel < 0.05):
                pr.t[cn, q].nui_params = np.zeros(len(rt.n))
                rt.nui = np.zeros(len(rt.n))
        elif k == "constraint":
            if p not in r.processes:
                continue
            m.add_gaussian_constraint_on_yield(p, op["v"], op["e"])
            r.constraints[p] = (op["v"], op["e"])
        elif k == "data":
            if ch["name"] not in r.channels or not r.channels[ch["name"]]["t"]:
                continue
            pr.set_data(ch["name"], op["d"])
        elif not (r.processes and r.channels and all(q["t"] for q in r.channels.values())):
            continue
        elif k == "params":
            x = pr.vector(dict(y=cycle(op["y"], len(r.processes)), t=cycle(op["t"], r.npar - len(r.processes))))
            m.update_parameters(x)
            r.update(x)
        elif k == "yield":
            if p not in r.processes:
                continue
            m.set_yield(p, op["v"])
            for q in r.channels.values():
                if p in q["t"]:
                    q["t"][p].yld = op["v"] * q["eff"][p]
        elif k == "tyield":
            cn = ch["name"]
            if cn not in r.channels:
                continue
            q = list(r.channels[cn]["t"])[op["i"] % len(r.channels[cn]["t"])]
            pr.t[cn, q].yield_param = op["v"]
            r.channels[cn]["t"][q].yld = op["v"]
        elif k == "reset":
            m.reset_parameters()
            for q in r.channels.values():
                for t in q["t"].values():
                    t.yld, t.nui = float(np.sum(t.n)), np.zeros(len(t.n))
        else:
            done = False
            if k == "asimov":
                asimov(L, "after an interleaved change")
            elif k == "toy":
                toy = m.generate_toy_dataset()
                for cn in r.channels:
                    v, g = r.values(cn), np.ravel(toy[cn].bin_counts)
                    ensure(np.all(np.abs(g - v) <= 8 * np.sqrt(v) + 25) and np.all(g[v == 0] == 0), "toy data %s for expectation %s", g, v)
            elif k == "copy" and L.ready():
                copied(L, op)
            elif k == "fit" and L.ready():
                try:
                    tf.TemplateFitter(m, "iminuit").do_fit(update_templates=False, verbose=0, fix_nui_params=True)
                except RuntimeError:
                    ctx.label("fit-error")
            if k != "eval" and not L.ready():
                continue
        if done and L.evals:
            changed_after_eval[i] = True
        if before:
            for j, o in enumerate(live):
                if before[j] is not None:
                    d = diff(before[j], snapshot(o.pr.m))
                    ensure(d is None, "operation %s on model %d changed model %d: %s", k, i, j, d)
        ctx.label(k)
        if L.ready():
            if k in ("eval", "fit", "toy"):
                if changed_after_eval[i]:
                    hit = True
                compare(L, ctx, "after %s" % k)
            else:
                # evaluate without building the reference model: only the existing functions
                for nll in L.nlls[-2:]:
                    x = pr.vector(dict(y=cycle([20.0, 30.0], len(r.processes)), t=cycle([0.1, -0.2, 0.3], r.npar - len(r.processes))))
                    close("likelihood of an existing function after " + k, nll(x), r.nll(x), rtol=1e-9, atol=nll_tol(r, x))
    ctx.hit(hit)
    if len(live) > 1:
        ctx.label("two-models")


SUBS = [Sub("interleaving", history, check, 2400, 50000, "interleaved construction, parameter changes and evaluations of 1-2 models")]
