"""C07: densities, quantile functions and samplers describe one distribution."""
import numpy as np

import drive
import engine
import priors
import tlc
from compose import compose, judge


def check(ctx):
    sc, st, tr = tlc.enumerate_all("PriorGen")
    ctx.count(states=st, transitions=tr)
    reps = ctx.n(1, 6)
    r0 = np.random.RandomState(ctx.seed)
    todo = [(i, c, k) for i, c in enumerate(sc) for k in range(reps)]
    if not ctx.thorough:      # all of the enumeration except that only some truncated normals are taken
        todo = [t for t in todo if t[1]["d"] != "TN" or r0.rand() < 0.2]

    def one(t):
        i, c, k = t
        r = np.random.RandomState([ctx.seed, i, k])
        ps = priors.declare(c, r)
        return engine.enc({"id": i * 100 + k, "m": {"psrs": [], "sigs": [], "arr": []}, "ops": c, "ev": priors.events(c, ps, r, 80 if not ctx.thorough else 150)})
    rows = []
    for t, (k, v) in zip(todo, ctx.pool(one, todo)):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("declaring a parameter", v, {"scenario": t[1]})
    judge(ctx, rows, "declarations of parameters", extra=lambda i: {"scenario": sc[i // 100]})

    # the prior of an array and its hypercube transform
    def ask(s):
        p, q = s.points(2)
        s.add(drive.lnprior(s.M, s.free, p), drive.lnprior(s.M, s.free, q))
        for _ in range(2):
            if s.free:
                s.add(drive.cube(s.M, s.free, s.r, p))
        # a point outside of the support
        far = [x for x in s.free if x["pr"]["d"] in ("U", "LE", "TN") and not any(h in x["name"] for h in ("hyper", "pmin", "pmax"))]
        if far:
            x = far[s.r.randint(len(far))]
            o = dict(p)
            o[x["name"]] = [150.0] * x["size"] if x["size"] else 150.0
            s.add(drive.lnprior(s.M, s.free, o))
    compose(ctx, dict(npsr=[1, 2], ntoa=[5], ncol=[2], nsig=5, minsig=3, nq=1, q=["lnl"], only=[1, 2], kinds=["mn2", "tneq", "eck", "gp", "det"],
                      max={"gp": 2}, basis=["red", "dm_tn"], prior=["powerlaw", "free", "tproc", "turnover"], vary=[True],
                      style=["par", "inst"], fstyle=["par", "inst", "fn"]), ctx.n(250), ask, 1,
            opt=dict(hyper=0.5, cubeonly=True))
