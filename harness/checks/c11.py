"""C11: all ECORR implementations represent the same epoch-correlated covariance."""
import copy

import drive
import engine
from compose import compose

METHODS = ["sherman-morrison", "fast-sherman-morrison", "block", "sparse"]


def check(ctx):
    def ask(s):
        p, q = s.points(2, 0.5)
        for x in (p, q, p):
            for a in range(len(s.m["arr"])):
                s.add(drive.white(s.M, a, x, s.r, nx=int(s.r.randint(1, 4)), nz=int(s.r.randint(1, 4)), rhs=("nr", "nx", "rx")))
        s.add(drive.lnl(s.M, q, s.free, methods=("cliques",)))
        # the same model with every other kernel
        for me in METHODS:
            m = copy.deepcopy(s.m)
            for k in m["sigs"]:
                if k["k"] == "eck":
                    k["method"] = me
            try:
                M = engine.Model(m, s.psrs)
            except Exception as e:
                s.add({"op": "flag", "what": "building the model with " + me, "obs": engine.exc(e)})
                continue
            s.add(drive.white(M, 0, q, s.r, nx=2, nz=2, rhs=("nr", "nx", "rx")))
            s.add(drive.lnl(M, q, s.free, methods=("cliques",), dense_too=False))
    base = dict(npsr=[1, 2], ntoa=[5, 6, 9], ncol=[2], nsig=4, minsig=2, nq=1, q=["lnl"], only=[1, 2], order=["sorted", "shuffled"],
                layout=["pairs", "triples", "mixed", "single", "chain", "ties"], kinds=["mn2", "tneq", "eck", "eck", "mtm"],
                sel=["none", "backend", "frontend", "telescope"], partsel=["index", "custom1"])
    compose(ctx, dict(base, minsig=3), ctx.n(170), ask, 1)
    # kernel directly after the first white noise; the basis form
    compose(ctx, dict(base, kinds=["eck"], minsig=2, nsig=2), ctx.n(130), ask, 2)
    def lnl(s):
        p, q = s.points(2, 0.5)
        s.add(drive.lnl(s.M, p, s.free), drive.tphi(s.M, q), drive.lnl(s.M, q, s.free))
    compose(ctx, dict(base, kinds=["ecb", "tm"], tm=["svd", "normed"], minsig=2, nsig=4), ctx.n(170), lnl, 3)
    # many TOAs
    compose(ctx, dict(base, npsr=[1], ntoa=[25, 36], minsig=3, layout=["mixed", "chain", "triples"]), ctx.n(30), ask, 4)
