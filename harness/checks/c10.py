"""C10: white-noise variances follow the EFAC/EQUAD convention."""
import drive
from compose import compose


def check(ctx):
    def ask(s):
        pts = s.points(3, 0.5)
        for k in (0, 1, 2, 0):
            for a, e in enumerate(s.m["arr"]):
                for j, n in enumerate(e["s"]):
                    if s.m["sigs"][n - 1]["k"] in ("mn", "tneq"):
                        s.add(drive.sigwhite(s.M, a, j, pts[k]))
                s.add(drive.white(s.M, a, pts[k], s.r, nx=1, nz=1))
    every = ["none", "backend", "band", "half", "telescope", "freq", "frontend", "custom", "nanograv", "index", "custom1", "dict"]
    base = dict(npsr=[1, 2], ntoa=[6, 9], ncol=[2], nsig=5, minsig=1, nq=1, q=["lnl"], only=[1, 2],
                kinds=["mn2", "tneq"], max={"mn2": 3}, sel=every[:7], partsel=every, style=["par", "const", "inst", "fn"])
    compose(ctx, base, ctx.n(320), ask, 1)
    # next to ECORR kernels and marginalized timing models
    compose(ctx, dict(base, kinds=["mn2", "tneq", "eck", "ecb", "mtm", "gp"], max={"mn2": 2}, style=["par", "const", "inst"], basis=["red"], prior=["powerlaw"],
                      minsig=3), ctx.n(130), ask, 2)
