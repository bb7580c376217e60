"""C15: conditional means and draws follow the posterior of the coefficients."""
import drive
from compose import compose

METHODS = ("cliques", "partition", "sparse")


def timing(s):
    """A timing model that keeps all columns: (pulsar, position), if there is one."""
    for a, e in enumerate(s.m["arr"]):
        for j, k in enumerate(e["s"]):
            g = s.m["sigs"][k - 1]
            if g["k"] == "gp" and g["basis"]["f"] == "tm" and not g["basis"].get("exclude") and not g.get("coef"):
                return a, j


def bases(s):
    """Bases of all pulsars; an array without any has no coefficients to ask for."""
    try:
        return s.M.pta.get_basis(drive.pyparams(s.points(1, 0.5)[0]))
    except Exception:
        return [True]


def check(ctx):
    def ask(s):
        if not any(x["k"] in ("gp", "cgp") and not x.get("coef") and k + 1 in a["s"] for a in s.m["arr"] for k, x in enumerate(s.m["sigs"])):
            return
        if not any(x is not None for x in bases(s)):
            return
        p, q = s.points(2, 0.5)
        cor = any(x["k"] == "cgp" for x in s.m["sigs"])
        dense = any(x.get("prior", {}).get("f") == "dense" for x in s.m["sigs"])
        k = s.r.randint(3)
        me = [METHODS[k]] if not cor or (k != 1 or (sum(x["k"] == "cgp" for x in s.m["sigs"]) == 1 and not dense)) else ["cliques"]
        s.add(*drive.cond(s.M, p, s.r, methods=me, tm=timing(s)))
        s.add(*drive.cond(s.M, q, s.r, methods=me, draws=False))
        s.add(*drive.cond(s.M, p, s.r, methods=["cliques"], draws=False))
    base = dict(npsr=[1, 2], ntoa=[5, 6, 8], ncol=[2], nsig=5, minsig=2, nq=1, q=["lnl"], only=[1, 2], combine=[False], ccombine=[False],
                kinds=["gp", "ecb", "tm", "det", "eck"], max={"gp": 2}, sel=["none", "backend"], gpsel=["none", "half", "custom1"],
                basis=["red", "dm", "dm_tn", "chrom", "poly"], vary=[True, False], pprior=["scale", "dense"], tm=["normed", "raw"],
                prior=["powerlaw", "free"], coef=[False, False, False, True], orf=["hd", "dipole", "mix"], cbasis=["red", "dm", "auto"],
                cprior=["powerlaw", "free"])
    compose(ctx, base, ctx.n(120), ask, 1)
    compose(ctx, dict(base, kinds=["gp", "tm", "cgp"], npsr=[2, 3], ntoa=[5, 6], cfor=[0, 0, 12, 23, 1], max={"cgp": 2, "gp": 1}, nsig=4),
            ctx.n(110), ask, 2)
    compose(ctx, dict(base, npsr=[1, 2], ntoa=[5, 14], kinds=["gp", "gp", "tm"], nsig=3, basis=["red", "dm"], prior=["powerlaw", "free"]), ctx.n(30), ask, 3,
            opt=dict(modes=[6, 11]))
