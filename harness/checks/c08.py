"""C08: functions resolve every argument to the parameter or value meant for it."""
import numpy as np

import drive
import engine
import resolve
import tlc
from compose import compose, judge


def check(ctx):
    # every declaration with few nodes, and sampled ones with more
    base = dict(kws=["a", "b"], depth=3, modes=["call", "draw"], nodes=2, exact=False)
    sc, st, tr = tlc.enumerate_all("ResolveGen", profile=dict(base, nodes=3 if ctx.thorough else 2))
    ctx.count(states=st, transitions=tr, declarations_enumerated=len(sc))
    few = len(sc)
    for n, k in ((3, 700), (4, 500), (6, 500)):
        sc += tlc.simulate("ResolveGen", dict(base, kws=["a", "b", "c"], nodes=n, exact=True), ctx.n(k), ctx.seed * 31 + n, depth=20)
    empty = {"psrs": [], "sigs": [], "arr": []}

    def one(i):
        r = np.random.RandomState([ctx.seed, i])
        ev = resolve.draws(sc[i], r) if sc[i]["mode"] == "draw" else resolve.calls(sc[i], r, 4 if i < few else 6)
        return engine.enc({"id": i, "m": empty, "ops": sc[i], "ev": ev})
    rows = []
    for i, (k, v) in enumerate(ctx.pool(one, range(len(sc)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("declaring functions", v, {"scenario": sc[i]})
    judge(ctx, rows, "declarations of functions", extra=lambda i: {"scenario": sc[i]})

    # nested functions and hierarchical priors inside of models
    def ask(s):
        p, q = s.points(2, 0.5)
        s.add(drive.names(s.M, p), drive.lnl(s.M, p, s.free, methods=("cliques",)), drive.delay(s.M, q), drive.tphi(s.M, q),
              drive.lnprior(s.M, s.free, q), drive.lnl(s.M, q, s.free, methods=("cliques",), dense_too=False))
    compose(ctx, dict(npsr=[1, 2], ntoa=[5, 6], ncol=[2], nsig=5, minsig=3, nq=1, q=["lnl"], only=[1, 2], kinds=["gp", "det", "cgp", "ecb"],
                      max={"gp": 2, "det": 2}, style=["par", "inst"], fstyle=["fn", "fn", "inst", "const"], vary=[True],
                      basis=["red", "dm_tn", "chrom", "env"], prior=["powerlaw", "turnover", "turnover_knee", "broken", "tproc_adapt"],
                      cbasis=["red"], cprior=["powerlaw"], orf=["mix"]), ctx.n(200), ask, 1, opt=dict(hyper=0.3))
