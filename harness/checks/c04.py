"""C04: answers depend only on the parameters given, never on earlier calls."""
from compose import compose, has, replay, skeletons
from history import History, walk

ALL = ["lnl", "white", "sigwhite", "delay", "tphi", "tnt", "phiinv", "lnprior"]


def check(ctx):
    def hist(s):
        h = History(s)
        pts = s.points(4, 0.6)
        for q in s.skel["qs"]:
            h.ask(q["q"], pts[q["pt"] - 1])
        h.finish()

    def one(s):
        h = History(s)
        qs = ["lnl"] + [ALL[i] for i in s.r.permutation(len(ALL))[:2]]
        walk(s, h, qs)
        h.finish()
    base = dict(npsr=[1, 2], ntoa=[5, 6], ncol=[2], nsig=5, minsig=3, nq=12, npt=4, q=ALL, only=[1, 2],
                kinds=["mn2", "tneq", "eck", "ecb", "gp", "tm", "mtm", "det", "cgp"], sel=["none", "backend"],
                max={"gp": 2, "det": 2}, basis=["red", "dm", "dm_tn", "chrom", "env", "poly"], vary=[True, False], prior=["powerlaw", "free", "tproc"],
                gpsel=["none", "custom1", "half"], cfor=[0, 1], coef=[False, False, True], detsel=["none", "half"],
                style=["par", "const", "inst"], orf=["hd", "mix"], cbasis=["red", "auto", "poly"])
    compose(ctx, base, ctx.n(200), hist, 1)
    compose(ctx, dict(base, q=["lnl"], nq=1), ctx.n(130), one, 2)
    # wideband timing models
    compose(ctx, dict(base, npsr=[1], ntoa=[7, 8], ncol=[2], nsig=3, minsig=3, q=["lnl"], nq=1, kinds=["wtm", "wtm", "gp", "det"], max={"gp": 1, "wtm": 1, "det": 1},
                      only=[1], style=["par"], sel=["none", "backend"], jsel=["backend", "half", "band", "custom"]), ctx.n(30), delays, 4, label="wideband")
    # results of several pulsars are combined: each of them must be up to date
    compose(ctx, dict(base, npsr=[3, 4], ntoa=[4, 5], q=["lnl"], nq=1, nsig=4, minsig=2, kinds=["gp", "tm", "det", "cgp"], style=["par"], fstyle=["par"],
                      max={"gp": 1}, cfor=[0, 0, 12], basis=["red", "chrom"], prior=["powerlaw"], only=[1, 2, 3, 23], gpsel=["none"]),
            ctx.n(24), lambda s: several(s), 3)


def delays(s):
    h = History(s)
    walk(s, h, ["delay", "lnl"])
    h.finish()


def several(s):
    h = History(s)
    walk(s, h, ["lnl"])
    h.finish()
