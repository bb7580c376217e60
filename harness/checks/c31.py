"""C31: requests outside of what is supported are refused, all others answered."""
import numpy as np

import engine
import refuse
import tlc
from compose import compose, judge


def check(ctx):
    sc, st, tr = tlc.enumerate_all("RefuseGen")
    ctx.count(states=st, transitions=tr)
    todo = [(i, k) for i, c in enumerate(sc) for k in range(ctx.n(2, 12))]

    def one(n):
        i, k = todo[n]
        ev = refuse.events(sc[i], np.random.RandomState([ctx.seed, i, k]))
        return engine.enc({"id": n, "m": {"psrs": [], "sigs": [], "arr": []}, "ops": sc[i], "ev": ev})
    rows = []
    for n, (k, v) in enumerate(ctx.pool(one, range(len(todo)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("requests", v, {"scenario": sc[todo[n][0]]})
    judge(ctx, rows, "requests", extra=lambda n: {"scenario": sc[todo[n][0]]})

    # coefficients exist for processes with columns of their own only
    def ask(s):
        if not any(x["k"] in ("gp", "cgp") and k + 1 in a["s"] for a in s.m["arr"] for k, x in enumerate(s.m["sigs"])):
            return
        for p in s.points(2, 0.5):
            ev = refuse.shared(s.M, p, s.r)
            if ev:
                s.add(ev)
    base = dict(npsr=[1, 2, 3], ntoa=[5, 6], ncol=[2], nsig=4, minsig=2, nq=1, q=["lnl"], only=[1, 2], combine=[True, True, False], ccombine=[True, False],
                sel=["none"], gpsel=["none", "half", "custom1"], basis=["red", "red", "dm", "poly"], vary=[False], prior=["powerlaw", "free"], pprior=["scale", "dense"],
                tm=["normed"], style=["par", "const"], orf=["hd", "dipole"], cbasis=["red", "poly"], cprior=["powerlaw"], cfor=[0, 12, 23, 1], max={"gp": 3, "cgp": 1})
    compose(ctx, dict(base, kinds=["gp", "gp", "tm"]), ctx.n(80), ask, 1, label="separate processes")
    compose(ctx, dict(base, kinds=["gp", "cgp", "tm"]), ctx.n(80), ask, 2, label="with a common process")
