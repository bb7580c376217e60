"""C06: the registry of free parameters."""
import drive
from compose import compose
from concrete import draw


def check(ctx):
    def ask(s):
        p, q = s.points(2)
        s.add(drive.names(s.M, p), drive.mapping(s.M, s.free, p), drive.mapping(s.M, s.free, q), drive.lnprior(s.M, s.free, p))
        if s.r.rand() < 0.15:
            s.add(drive.lnl(s.M, q, s.free, methods=("cliques",), dense_too=False))
        if s.free:
            s.add(drive.cube(s.M, s.free, s.r, p))
        s.add(drive.names(s.M, q))
    base = dict(npsr=[1, 2, 3], ntoa=[5, 6], ncol=[2], nsig=8, minsig=4, nq=1, q=["lnl"], only=[1, 2],
                kinds=["mn2", "tneq", "eck", "ecb", "gp", "tm", "mtm", "det", "cgp"],
                max={"gp": 3, "det": 2, "cgp": 2, "mn2": 2, "tneq": 1}, vary=[True],
                basis=["red", "dm", "dm_tn", "chrom", "env", "poly"],
                prior=["powerlaw", "turnover", "turnover_knee", "broken", "free", "tproc", "tproc_adapt"],
                gpsel=["none", "backend", "half", "custom1"], coef=[False, False, True], style=["par", "par", "const", "inst"],
                partsel=["index", "custom1"])
    compose(ctx, base, ctx.n(500), ask, 1, opt=dict(hyper=0.2, cubeonly=True))
    # vectors of more than ten components
    compose(ctx, dict(base, npsr=[1, 2], nsig=4, minsig=3, kinds=["gp", "gp", "cgp", "det"], basis=["red", "dm"], prior=["free", "tproc", "tproc_adapt"],
                      cbasis=["red"], cprior=["free"]), ctx.n(90), ask, 2, opt=dict(hyper=0.2, modes=[10, 11, 12], cmodes=11))
