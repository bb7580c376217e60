"""C01: the likelihood is the Gaussian marginal density of the composed model."""
import drive
from compose import ask_lnl, compose, has


def check(ctx):
    def ask(s):
        ask_lnl(2)(s)
        s.add(drive.delay(s.M, s.point()))
        if has(s.m, "wtm", "mtm"):
            s.add(drive.sigprior(s.M, s.point()))
    base = dict(nsig=6, nq=1, q=["lnl"], npsr=[1, 2], minsig=2)
    compose(ctx, dict(base, kinds=["mn2", "tneq", "eck", "ecb", "gp", "tm", "mtm", "det"]), ctx.n(500), ask, 1)
    # all functions and all bases, also with varying basis parameters
    compose(ctx, dict(base, kinds=["gp", "tm", "cgp"], max={"gp": 3}, nsig=5, only=[1],
                      basis=["red", "dm", "dm_tn", "chrom", "env", "general", "poly", "lininterp"],
                      prior=["powerlaw", "genmodes", "turnover", "turnover_knee", "broken", "free", "tproc", "tproc_adapt"],
                      cfor=[0], orf=["hd"]), ctx.n(350), ask, 2)
    # many TOAs and many modes, so that positions and numbered names have two digits
    compose(ctx, dict(base, npsr=[1], ntoa=[26, 40], kinds=["mn2", "tneq", "eck", "ecb", "gp", "tm", "mtm"], nsig=5, max={"gp": 1}, minsig=3,
                      layout=["mixed", "chain", "single"]), ctx.n(36), ask, 3)
    compose(ctx, dict(base, npsr=[1], kinds=["gp", "tm"], max={"gp": 2}, nsig=4, minsig=3, only=[1], sel=["none", "backend"],
                      basis=["red", "dm", "chrom", "general"], prior=["free", "tproc", "tproc_adapt", "powerlaw"]), ctx.n(60), ask, 4,
            opt=dict(modes=[10, 11, 12]))
