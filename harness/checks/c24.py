"""C24: overlap reduction and antenna functions are correct for every geometry."""
import numpy as np

import drive
import engine
import geo
import tlc
from compose import compose, judge


def check(ctx):
    sc, st, tr = tlc.enumerate_all("GeoGen")
    ctx.count(states=st, transitions=tr)
    reps = {"sphere": ctx.n(1, 5), "antenna": ctx.n(3, 20), "orf": ctx.n(2, 12), "anis": ctx.n(3, 15)}
    todo = [(i, k) for i, c in enumerate(sc) for k in range(reps[c["kind"]])]

    def one(n):
        i, k = todo[n]
        r = np.random.RandomState([ctx.seed, i, k])
        with np.errstate(all="ignore"):
            ev = geo.events(sc[i], r)
        return engine.enc({"id": n, "m": {"psrs": [], "sigs": [], "arr": []}, "ops": sc[i], "ev": ev})
    rows = []
    for n, (k, v) in enumerate(ctx.pool(one, range(len(todo)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("geometry", v, {"scenario": sc[todo[n][0]]})
    judge(ctx, rows, "geometries", extra=lambda n: {"scenario": sc[todo[n][0]]})

    # correlations of common processes and bursts in models
    def ask(s):
        p, q = s.points(2, 0.5)
        s.add(drive.names(s.M, p), drive.bigphi(s.M, p), drive.bigphi(s.M, q), drive.delay(s.M, q, atol=2e-12))
    compose(ctx, dict(npsr=[2, 3, 4], ntoa=[5], ncol=[1], nsig=4, minsig=2, nq=1, q=["lnl"], only=[1, 2], kinds=["cgp", "cgp", "det"], max={"cgp": 3, "det": 1},
                      cbasis=["red"], orf=["anis", "hd", "dipole", "monopole", "mix", "anis"], cfor=[0, 12, 1], style=["par", "const"], wf=["bwm"], detsel=["none"]),
            ctx.n(80), ask, 1, opt=dict(nosort=0.3), label="common processes")
