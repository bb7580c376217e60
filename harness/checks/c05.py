"""C05: defaults of constants take effect whenever they are set."""
import drive
from compose import compose
from engine import attempt
from history import History

QS = ["lnl", "white", "sigwhite", "delay", "tphi", "tnt", "phiinv", "lnprior"]


def setdef(s, target, vals):
    """target: 0 for the array, k for the k-th pulsar's model."""
    obj = s.M.pta if target == 0 else s.M.pta.pulsarmodels[target - 1]
    o = attempt(lambda: obj.set_default_params(dict(vals)), lambda _: {"k": "ok"})
    s.add({"op": "setdef", "target": target, "vals": vals, "obs": o})


def defaults(s, which, always=()):
    vals = {}
    for k in which:
        lo, hi = (float(x) for x in k["rng"])
        if k["name"] in always or s.r.rand() < 0.6:
            vals[k["name"]] = float(s.r.uniform(lo, hi)) if lo > 0 or hi < 0 or s.r.rand() < 0.7 else [0.0, 0, -0.0][s.r.randint(3)]
    if s.free and s.r.rand() < 0.5:      # names of free parameters and of nothing have no effect
        vals[s.free[s.r.randint(len(s.free))]["name"]] = 0.123
        vals["no_such_parameter"] = 1.0
    return vals


def check(ctx):
    def ask(s):
        h = History(s)
        pts = s.points(2, 0.5)
        allc = {k["name"]: k for c in s.consts for k in c}
        na = len(s.m["arr"])
        # constants declared without value need a first default
        setdef(s, 0, defaults(s, list(allc.values()), unset(s.m, allc)))
        s.add(drive.names(s.M, pts[0]))
        for k, q in enumerate(s.skel["qs"]):
            if s.r.rand() < 0.45:
                t = int(s.r.randint(na + 1)) if s.r.rand() < 0.6 else 0
                setdef(s, t, defaults(s, list(allc.values()) if t == 0 or s.r.rand() < 0.3 else s.consts[t - 1]))
            h.ask(q["q"], pts[q["pt"] - 1])
        s.add(drive.names(s.M, pts[0]))

    def unset(m, allc):
        return set(allc)
    base = dict(npsr=[1, 2], ntoa=[5, 6], ncol=[2], nsig=5, minsig=3, nq=10, npt=2, q=QS, only=[1, 2],
                kinds=["mn2", "tneq", "eck", "ecb", "gp", "tm", "mtm", "det", "cgp"], sel=["none", "backend"],
                max={"gp": 2, "det": 2}, basis=["red", "dm", "dm_tn", "env", "poly"], vary=[True, True, False], prior=["powerlaw", "free"],
                gpsel=["none", "custom1", "half"], cfor=[0, 1], coef=[False, False, True], detsel=["none", "half"],
                style=["const"], fstyle=["const", "fn"], cstyle=["const"], orf=["hd", "mix"], cbasis=["red", "auto"])
    compose(ctx, base, ctx.n(300), ask, 1, opt=dict(unset=0.4))
