"""C02: correlated common signals give the joint covariance of the whole array."""
import drive
from compose import compose


def check(ctx):
    def ask(s):
        p, q = s.points(2, 0.3)
        s.add(drive.lnl(s.M, p, s.free), drive.bigphi(s.M, p), drive.lnl(s.M, q, s.free), drive.bigphi(s.M, q), drive.tphi(s.M, q))
    base = dict(npsr=[2, 3, 4], ntoa=[5, 6], ncol=[2], nsig=5, minsig=3, nq=1, q=["lnl"], kinds=["gp", "tm", "cgp"], max={"cgp": 2},
                where=["free", "anti"], sel=["none", "backend"], only=[1, 2], style=["par", "const", "inst"],
                basis=["red", "dm", "poly"], prior=["powerlaw", "free"], gpsel=["none", "custom1"],
                cfor=[0, 0, 12, 13, 23, 124, 1], orf=["hd", "dipole", "monopole", "mix"], ccombine=[True, False],
                cbasis=["red", "dm", "poly", "auto"], pprior=["scale", "dense"])
    compose(ctx, base, ctx.n(330), ask, 1)
    # only common processes: two or three at the same frequencies, pulsars without any
    compose(ctx, dict(base, kinds=["cgp"], max={"cgp": 3}, nsig=4, minsig=3, cbasis=["red", "poly"]), ctx.n(180), ask, 2)
    # arrays of five and six pulsars, eleven frequencies
    compose(ctx, dict(base, npsr=[5, 6], ntoa=[4, 5], kinds=["gp", "cgp", "cgp"], max={"cgp": 2, "gp": 1}, nsig=4, minsig=2,
                      cfor=[0, 0, 1245, 135, 23, 4]), ctx.n(40), ask, 3)
    compose(ctx, dict(base, npsr=[2, 3], ntoa=[5], kinds=["gp", "cgp"], max={"cgp": 1, "gp": 1}, nsig=3, minsig=2, basis=["red"],
                      cprior=["free"], cbasis=["red"]), ctx.n(40), ask, 4, opt=dict(modes=[11, 12], cmodes=11))
