"""C14: coefficient-based processes give the hierarchical form of the same model."""
import drive
from compose import compose
from concrete import lit


def check(ctx):
    def ask(s):
        pts = s.points(3, 0.5)
        s.add(drive.names(s.M, pts[0]))
        common = any(x["k"] == "cgp" and x.get("coef") and "coefname" not in x for x in s.m["sigs"])
        tm = any(x.get("coef") and x["basis"]["f"] == "tm" for x in s.m["sigs"])
        cor = any(x["k"] == "cgp" for x in s.m["sigs"])
        for p in (pts[0], pts[1], pts[0], pts[2]):
            s.add(drive.lnl(s.M, p, s.free, methods=("cliques",)), drive.delay(s.M, p))
            if not common:
                s.add(drive.lnprior(s.M, s.free, p))
            if not tm and not cor:
                s.add(drive.joint(s.M, p))
        s.add(drive.tphi(s.M, pts[1]))
        s.add(drive.mapping(s.M, s.free, pts[1]))
    base = dict(npsr=[1, 2], ntoa=[5, 6, 8], ncol=[2], nsig=5, minsig=2, nq=1, q=["lnl"], only=[1, 2], coef=[True, True, False],
                kinds=["gp", "ecb", "det", "eck"], max={"gp": 3}, sel=["none", "backend"], gpsel=["none", "half", "backend", "custom1"],
                basis=["red", "dm", "dm_tn", "chrom", "env", "poly", "lininterp"], vary=[True, False], pprior=["scale", "dense"],
                prior=["powerlaw", "free", "turnover", "broken", "tproc"], fstyle=["par", "const", "inst", "fn", "lit"])
    compose(ctx, dict(base, kinds=["gp", "gp", "ecb", "det", "eck"]), ctx.n(180), ask, 1, opt=dict(hyper=0.2))
    compose(ctx, dict(base, kinds=["gp", "tm", "mtm"], tmcoef=[True, True, False]), ctx.n(80), ask, 2)
    # common processes through their coefficients: delays
    def common(m, c):
        for x in m["sigs"]:
            if x["k"] == "cgp" and (c.r.rand() < 0.7) and not x.get("autospan"):
                x["coef"] = True
                if c.r.rand() < 0.5:
                    b = x["basis"]
                    x["coefname"] = "shared_coefficients" + x["name"]
                    x["coefsize"] = len(b["cols"]) if b["f"] == "poly" else 2 * b["kw"]["nmodes"]["v"]
                    x["coefpr"] = {"d": "N", "kw": {"mu": lit(0.0), "sigma": lit(1e-6)}, "rng": [-1e-6, 1e-6]}
    compose(ctx, dict(base, kinds=["cgp", "gp"], npsr=[2, 3], ntoa=[5], max={"cgp": 2, "gp": 1}, cfor=[0, 12, 1], orf=["hd", "mix"],
                      cbasis=["red", "dm", "poly"]), ctx.n(100), ask, 3, edit=common)
    compose(ctx, dict(base, npsr=[1], kinds=["gp", "gp", "det"], nsig=3, basis=["red", "dm"], prior=["powerlaw", "free"]), ctx.n(36), ask, 4,
            opt=dict(modes=[6, 11]))
