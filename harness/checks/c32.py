"""C32: models leave the pulsars, the values they are given and each other alone."""
import drive
import engine
from compose import compose, has
from history import History

QS = ["lnl", "white", "sigwhite", "delay", "tphi", "tnt", "phiinv", "lnprior"]


def second(s, k):
    """Another array over the same pulsar objects: of the same classes, or of classes of its own."""
    if k == 0:
        M = engine.Model.over(s.M, s.M.array(), s.m["arr"])
        M.inst = dict(s.M.inst)
        return M
    return engine.Model(s.m, s.psrs)


def separate(ask):
    """Several arrays over the same pulsars, asked in turns; then the data."""
    def go(s):
        hs = [History(s), History(s), History(s)]
        for k in (1, 2):
            try:
                hs[k].M = second(s, k - 1)
            except Exception as e:
                s.add({"op": "flag", "what": "another array of the same pulsars", "obs": engine.exc(e)})
                return
        ask(s, hs)
        for h in hs:
            h.finish()
        s.add(*drive.pulsars(s.m, s.psrs))
    return go


def turns(s, hs):
    pts = s.points(3, 0.5)
    for q in s.skel["qs"]:
        h = hs[s.r.randint(3)]
        h.ask(q["q"], pts[q["pt"] - 1])
        if s.r.rand() < 0.5:
            s.add(*drive.given(h.M, pts[q["pt"] - 1], s.free, s.r))


def draws(s, hs):
    pts = s.points(2, 0.5)
    cor = has(s.m, "cgp")
    for k in s.r.permutation(3):
        M = hs[k].M
        if not any(x is not None for x in M.pta.get_basis(engine.pyparams(pts[0]))):
            return
        s.add(*drive.cond(M, pts[k % 2], s.r, methods=[["cliques", "sparse"][s.r.randint(2)]] if cor else [["cliques", "partition", "sparse"][s.r.randint(3)]],
                          draws=bool(k == 0), n=400))
        hs[k].ask(["lnl", "tnt", "phiinv", "tphi"][s.r.randint(4)], pts[k % 2])
        s.add(*drive.given(M, pts[0], s.free, s.r))


def check(ctx):
    base = dict(npsr=[1, 2], ntoa=[5, 7], ncol=[2], nsig=6, minsig=3, nq=8, npt=3, q=QS, only=[1, 2],
                kinds=["mn2", "tneq", "eck", "ecb", "gp", "tm", "mtm", "det", "cgp"], sel=["none", "backend", "freq", "dict", "custom"], max={"gp": 2, "det": 2},
                basis=["red", "dm", "dm_tn", "chrom", "env", "poly"], vary=[True, False], prior=["powerlaw", "free", "tproc"], gpsel=["none", "custom1", "half", "dict", "index"],
                cfor=[0, 1], coef=[False, False, True], detsel=["none", "half"], style=["par", "const", "inst"], orf=["hd", "mix"], cbasis=["red", "auto", "poly"],
                tm=["normed", "raw", "svd"], wf=["bwm", "ramp", "disp", "taylor", "drift", "bwmfn"])
    compose(ctx, base, ctx.n(120), separate(turns), 1, opt=dict(stored=0.6, nosort=0.7))
    compose(ctx, dict(base, npsr=[1, 2], nsig=4, minsig=2, q=["lnl"], kinds=["wtm", "wtm", "gp", "det", "mn2"], max={"gp": 1, "wtm": 1, "det": 1}, ntoa=[7, 8], nq=4,
                      style=["par"], sel=["none", "backend"], jsel=["backend", "half", "band", "custom"]), ctx.n(30), separate(turns), 2, opt=dict(stored=0.6, nosort=0.7),
            label="wideband")
    compose(ctx, dict(base, nsig=4, kinds=["gp", "ecb", "tm", "cgp", "det"], combine=[False], ccombine=[False], coef=[False], tm=["normed", "raw"], nq=1, q=["lnl"],
                      prior=["powerlaw", "free"], max={"gp": 2}), ctx.n(40), separate(draws), 3, opt=dict(stored=0.6, nosort=0.7), label="conditional")
    # the physical ephemeris moves planets
    compose(ctx, dict(base, npsr=[2], ntoa=[4], nsig=3, minsig=2, q=["lnl", "delay"], nq=6, kinds=["eph", "det", "gp"], only=[1, 2], style=["par"]), ctx.n(16),
            separate(turns), 4, opt=dict(stored=0.6, nosort=0.7), label="ephemeris")
