"""C22: Fourier bases and power spectra follow their definitions."""
import numpy as np

import drive
import engine
import fns
import tlc
from compose import compose, judge


def check(ctx):
    sc, st, tr = tlc.enumerate_all("FnGen")
    ctx.count(states=st, transitions=tr)
    ctx.say("FnGen: {} combinations of arguments".format(len(sc)))
    r0 = np.random.RandomState(ctx.seed)
    share = {"general": 0.12, "env": 0.25, "red": 0.7, "dm_tn": 0.5, "turnover": 0.5}
    todo = [(k, i) for k in range(ctx.n(1, 6)) for i, c in enumerate(sc) if ctx.thorough or r0.rand() < share.get(c["f"], 1)]
    r0.shuffle(todo)
    groups = [todo[k:k + 6] for k in range(0, len(todo), 6)]     # several calls on one pulsar, interleaved

    def one(g):
        r = np.random.RandomState([ctx.seed, g])
        psr = fns.pulsar(r)
        ph, ev = {}, []
        for _, i in groups[g]:
            ev.append(fns.call_basis(sc[i], r, psr, ph) if sc[i]["basis"] else fns.call_spec(sc[i], r))
        return engine.enc({"id": g, "m": {"psrs": [fns.record(psr)], "sigs": [], "arr": [], "phases": ph}, "ops": [sc[i] for _, i in groups[g]], "ev": ev})
    rows = []
    for g, (k, v) in enumerate(ctx.pool(one, range(len(groups)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("calling basis functions", v, {"scenario": groups[g]})
    judge(ctx, rows, "direct calls", extra=lambda g: {"scenario": groups[g]})

    # the same functions as parts of signals, common processes with the span of the array among them
    def ask(s):
        p, q = s.points(2, 0.4)
        s.add(drive.tphi(s.M, p), drive.tphi(s.M, q), drive.bigphi(s.M, q))
    base = dict(npsr=[1, 2, 3], ntoa=[5, 7], ncol=[2], nsig=5, minsig=3, nq=1, q=["lnl"], only=[1, 2, 4], kinds=["gp", "cgp", "cgp"], max={"gp": 3, "cgp": 2},
                basis=["red", "dm", "dm_tn", "chrom", "env", "ephem", "general", "red"], cbasis=["auto", "red", "dm", "chrom", "ephem"], cprior=["powerlaw", "genmodes", "turnover", "turnover_knee", "broken", "free", "tproc"],
                prior=["powerlaw", "genmodes", "turnover", "turnover_knee", "broken", "free", "tproc", "tproc_adapt"],
                gpsel=["none", "half", "backend"], orf=["hd", "mix"], style=["par", "const"], fstyle=["par", "const", "lit", "inst", "fn"])
    compose(ctx, base, ctx.n(110), ask, 1, opt=dict(nosort=0.4, components=True, pseed=True), label="signals")
