"""C29: epochs, interpolation and stabilised design matrices, for any times."""
import numpy as np

import engine
import quant
import tlc
from compose import judge


def check(ctx):
    sc, st, tr = tlc.enumerate_all("QuantGen", profile=dict(n=4, grid=5 if ctx.thorough else 4, dt=3, nmin=3))
    ctx.count(states=st, transitions=tr)
    ctx.say("QuantGen: {} arrangements".format(len(sc)))
    r0 = np.random.RandomState([ctx.seed, 29])
    ix = r0.permutation(len(sc))[:ctx.n(2500, len(sc))]
    todo = [("grid", sc[i]) for i in ix] + [("any", None)] * ctx.n(150, 2000) + [("stable", None)] * ctx.n(40, 400)

    def one(n):
        kind, x = todo[n]
        r = np.random.RandomState([ctx.seed, n])
        with np.errstate(all="ignore"):
            if kind == "stable":
                ev = quant.stable(r)
            elif kind == "grid":
                t, dt = quant.place(x, r)
                ev = quant.groups(t, dt, x["nmin"])
            else:
                t, dt = quant.scattered(r)
                ev = quant.groups(t, dt, int(r.randint(1, 5)), default=r.rand() < 0.2)
        return engine.enc({"id": n, "m": {"psrs": [], "sigs": [], "arr": []}, "ops": kind, "ev": [ev]})
    rows = []
    for n, (k, v) in enumerate(ctx.pool(one, range(len(todo)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("times", v, {"scenario": todo[n]})
    judge(ctx, rows, "arrangements of times", extra=lambda n: {"scenario": todo[n]})
