"""C27: what a model says of itself is what it is."""
import drive
import show
from checks.c05 import defaults, setdef
from compose import compose


def check(ctx):
    def ask(s):
        p, q = s.points(2)
        s.add(drive.names(s.M, p), show.show(s.M, p))
        consts = {k["name"]: k for c in s.consts for k in c}
        if consts and s.r.rand() < 0.5:
            setdef(s, 0, defaults(s, list(consts.values())))
            s.add(show.show(s.M, q))
    base = dict(npsr=[1, 2, 3], ntoa=[5, 6], ncol=[2], nsig=6, minsig=3, nq=1, q=["lnl"], only=[1, 2],
                kinds=["mn2", "tneq", "eck", "ecb", "gp", "tm", "mtm", "det", "cgp"],
                max={"gp": 3, "det": 2, "cgp": 2, "mn2": 2, "tneq": 1}, vary=[True],
                basis=["red", "dm", "dm_tn", "chrom", "env", "poly"],
                prior=["powerlaw", "turnover", "turnover_knee", "broken", "free", "tproc", "tproc_adapt"],
                gpsel=["none", "backend", "half", "custom1"], coef=[False, False, True], style=["par", "par", "const", "inst"],
                partsel=["index", "custom1"])
    compose(ctx, base, ctx.n(220), ask, 1, opt=dict(hyper=0.2))
