"""C28: eccentric binaries evolve and radiate as their equations say."""
import numpy as np

import eccentric
import engine
import tlc
from compose import judge


def check(ctx):
    sc, st, tr = tlc.enumerate_all("EccGen")
    ctx.count(states=st, transitions=tr)
    reps = {"rate": 8, "eqns": 10, "coef": 3, "wave": 1, "solve": 2}
    todo = [(i, k) for i, c in enumerate(sc) for k in range(ctx.n(reps[c["kind"]], 12 * reps[c["kind"]]))]

    def one(n):
        i, k = todo[n]
        with np.errstate(all="ignore"):
            ev = eccentric.events(sc[i], np.random.RandomState([ctx.seed, i, k]))
        return engine.enc({"id": n, "m": {"psrs": [], "sigs": [], "arr": []}, "ops": sc[i], "ev": ev})
    rows = []
    for n, (k, v) in enumerate(ctx.pool(one, range(len(todo)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("binary", v, {"scenario": sc[todo[n][0]]})
    judge(ctx, rows, "binaries", extra=lambda n: {"scenario": sc[todo[n][0]]})
