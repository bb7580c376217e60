"""C13: timing-model marginalization is the same by every route and in any order."""
import copy

import numpy as np

import drive
import engine
from compose import compose, replay, skeletons


def shuffle(m, c):
    """The signals of every pulsar in another order."""
    r = np.random.RandomState([c.sid, len(m["sigs"]), 5])
    for a in m["arr"]:
        if r.rand() < 0.8:
            a["s"] = [int(x) for x in r.permutation(a["s"])]


def routes(m):
    """The model with every other form of its timing model."""
    k = next(i for i, s in enumerate(m["sigs"]) if s["k"] == "mtm" or s.get("basis", {}).get("f") == "tm")
    s = m["sigs"][k]
    base = {x: s["basis"][x] for x in s["basis"] if x not in ("tm", "exclude", "norms")}
    n = min(len(p["M"][0]) for p in m["psrs"])
    for tm in ("raw", "normed", "svd", "given"):
        if tm == "given" and len({len(p["M"][0]) for p in m["psrs"]}) > 1:
            continue
        b = dict(base, tm=tm)
        if tm == "given":
            b["norms"] = [1.5, 0.7, 2.5, 1.1][:n]
        yield k, {"k": "mtm", "basis": b, "name": "marginalizing_linear_timing_model"}
        yield k, {"k": "gp", "basis": b, "prior": {"f": "tmprior", "kw": {}}, "name": "linear_timing_model", "coef": False}
        if n > 1:
            if tm == "given":
                b = dict(b, norms=b["norms"][:-1])
            yield k, {"k": "gp", "basis": dict(b, exclude=[n - 1]), "prior": {"f": "tmprior", "kw": {}},
                      "name": "linear_timing_model", "coef": False}


def check(ctx):
    def ask(s):
        p, q = s.points(2, 0.4)
        s.add(drive.lnl(s.M, p, s.free), drive.lnl(s.M, q, s.free))
        s.add(drive.tphi(s.M, p), drive.tnt(s.M, p) if not any(x["k"] == "mtm" for x in s.m["sigs"]) else None)
        for a in range(len(s.m["arr"])):
            s.add(drive.white(s.M, a, p, s.r))

    # the same with every other form of the timing model
    def alternatives(s):
        p = s.point()
        s.add(drive.lnl(s.M, p, s.free))
        alt = list(routes(s.m))
        for i in s.r.permutation(len(alt))[:4]:
            k, sg = alt[i]
            m = copy.deepcopy(s.m)
            m["sigs"][k] = sg
            M, e = drive.build_event(lambda: engine.Model(m, s.psrs))
            if M is None:
                s.add(e)
            else:
                e = drive.lnl(M, p, s.free, methods=("cliques",))
                s.add(dict(e, op="lnlof", m=m["sigs"]))
    base = dict(npsr=[1, 2], ntoa=[5, 6, 8], ncol=[1, 2, 3, 4], nsig=6, minsig=3, nq=1, q=["lnl"], only=[1, 2],
                kinds=["tm", "mtm", "eck", "gp", "ecb", "mn2", "tneq", "cgp", "det"], sel=["none", "backend"], max={"gp": 1},
                exclude=[False, True], basis=["red", "dm"], prior=["powerlaw"], gpsel=["none", "half"], cfor=[0, 1, 12], orf=["hd", "mix"],
                cbasis=["red"], style=["par", "const"], wf=["ramp", "disp", "taylor", "drift"])
    compose(ctx, dict(base, kinds=["tm", "mtm"] * 3 + base["kinds"][2:]), ctx.n(330), ask, 1, edit=shuffle)
    compose(ctx, dict(base, kinds=["mtm", "eck", "gp", "det"], nsig=4, minsig=2), ctx.n(60), ask, 2, edit=shuffle)
    compose(ctx, dict(base, npsr=[1], ntoa=[25, 36], kinds=["tm", "mtm", "eck", "gp"], nsig=4, layout=["mixed", "single"]), ctx.n(24), ask, 4,
            edit=shuffle)
    base["kinds"] = ["tm", "eck", "gp", "mn2", "cgp"]
    sk = [k for k in skeletons(ctx, base, ctx.n(280), 3) if any(s["k"] == "tm" for s in k["sigs"])]
    replay(ctx, sk, alternatives, 3, edit=shuffle, label="routes")
