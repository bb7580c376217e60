"""C03: all inversion methods agree with the exact inverse of the prior matrix."""
import drive
from compose import compose


def check(ctx):
    def ask(s):
        pts = s.points(3, 0.4)
        r = s.r
        for k in (0, 1, 0, 2, 1):
            s.add(drive.phiinv(s.M, pts[k], order=r.permutation(3)))
        s.add(*drive.localinv(s.M, pts[0]))
        s.add(drive.lnl(s.M, pts[1], s.free, methods=[("cliques", "partition", "sparse")[i] for i in r.permutation(3)], repeat=True))
    base = dict(npsr=[1, 2, 3], ntoa=[5, 6], ncol=[2], nsig=5, minsig=2, nq=1, q=["lnl"], kinds=["gp", "ecb", "cgp", "tm"],
                max={"cgp": 2, "gp": 2}, sel=["none"], only=[1, 2], tm=["svd", "normed"],
                basis=["red", "poly"], prior=["powerlaw", "free"], pprior=["dense", "scale"], gpsel=["none", "custom1", "half"],
                cfor=[0, 0, 12, 23, 1], orf=["hd", "dipole", "monopole", "mix"], ccombine=[True, False],
                cbasis=["red", "poly", "poly"])
    compose(ctx, base, ctx.n(330), ask, 1)
    # dense priors that share columns with each other and with common processes
    compose(ctx, dict(base, kinds=["gp", "cgp"], max={"gp": 3, "cgp": 2}, basis=["poly"], cbasis=["poly"], nsig=6, minsig=4,
                      combine=[True], npsr=[1, 2, 3]), ctx.n(200), ask, 2)
    # processes without common columns, connected by a third one
    compose(ctx, dict(base, kinds=["gp", "cgp"], max={"gp": 3, "cgp": 1}, basis=["poly"], cbasis=["red"], cprior=["powerlaw"], nsig=5, minsig=5, gpsel=["none"],
                      sel=["none"], pprior=["dense"], combine=[True], npsr=[2], only=[0], cfor=[0]), ctx.n(40), ask, 4, opt=dict(chain=True))

    # many pulsars: the determinant is far outside of the range of floating-point numbers

    def inverses(s):
        p = s.point()
        s.add(drive.phiinv(s.M, p, order=s.r.permutation(3)))
    compose(ctx, dict(base, npsr=[22, 26], ntoa=[4], kinds=["cgp", "gp"], max={"cgp": 1, "gp": 1}, basis=["poly"], pprior=["scale"], cbasis=["red"],
                      nsig=3, minsig=2, cprior=["powerlaw", "free"], cfor=[0], gpsel=["none"], style=["par"], cstyle=["par"]), ctx.n(6), inverses, 3, label="many pulsars")
