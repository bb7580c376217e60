"""C12: combining basis columns never changes the modelled covariance."""
import numpy as np

import drive
import engine
import tlc
from compose import Scene, compose, judge
from concrete import lit

ALPHABET = np.array([[1, 0, 0], [0, 1, 1], [1, 2, 0]], float)
# different columns may be small, or nearly equal
ALPHABETS = [ALPHABET, ALPHABET * 1e-14, np.array([[1, 2, 3], [1, 2, 3 + 1e-12], [1, 2 + 1e-13, 3]]), ALPHABET[:, ::-1] * 1e14, np.ones((3, 3)) + 1e-13 * ALPHABET]


def model(x, rec, r):
    letters = ALPHABETS[r.randint(len(ALPHABETS)) if r.rand() < 0.5 else 0]
    sigs = [{"k": "mn", "efac": lit(1.0), "name": "", "sel": {"s": "none"}}]
    for k, s in enumerate(x):
        n = len(s["cols"])
        kw = {"s": lit(float(r.uniform(0.5, 2)))}
        if s["dense"]:
            kw["rho"] = lit(float(r.uniform(0.1, 0.4)))
        b = {"f": "poly", "kw": {}, "cols": letters[[c - 1 for c in s["cols"]]].tolist(), "labels": r.uniform(0.5, 2, n).tolist()}
        if s["var"]:
            b["kw"]["c"] = {"t": "par", "name": "c{}".format(k), "pr": {"d": "U", "kw": {"pmin": lit(0.0), "pmax": lit(9.0)}, "rng": [1.0, 3.0]}}
        sigs.append({"k": "gp", "sel": {"s": "none"}, "basis": b, "prior": {"f": "dense" if s["dense"] else "scale", "kw": kw},
                     "combine": s["comb"], "name": "gp{}".format(k), "coef": False})
    return {"psrs": [rec], "sigs": sigs, "arr": [{"p": 1, "s": list(range(1, len(sigs) + 1))}], "phases": {}}


def check(ctx):
    raw = dict(name="J1234+5678", toas=[53000 * 86400 + 1e7 * k for k in range(3)], errs=[1e-6] * 3, res=[1e-6, -2e-6, 1e-6],
               freqs=[1400.0] * 3, flags={"f": ["A"] * 3}, M=np.ones((3, 1)), pos=[1.0, 0.0, 0.0])
    # every pair of signals with one or two columns each: the layouts are checked, then replayed
    sc, st, tr = tlc.enumerate_all("Columns", profile={"nsig": 2, "ncol": 2, "print": True, "full": False})
    ctx.count(states=st, transitions=tr)
    r = np.random.RandomState(ctx.seed)
    if not ctx.thorough:
        sc = [sc[i] for i in r.permutation(len(sc))[:ctx.n(1300)]]
    seen = tlc.simulate("Columns", {"nsig": 4, "ncol": 2, "print": True, "full": True}, ctx.n(250), ctx.seed)
    sc += seen

    def one(i):
        r = np.random.RandomState([ctx.seed, i])
        psr = engine.make_psr(raw)
        m = model(sc[i], engine.record(psr), r)
        free = [{"name": s["basis"]["kw"]["c"]["name"]} for s in m["sigs"] if s["k"] == "gp" and "c" in s["basis"]["kw"]]
        s = Scene(m, [psr], (free, [[]]), r, sc[i], i)
        if s.build():
            for v in (1.0, 2.5, 1.0):
                par = {p["name"]: v if r.rand() < .7 else 3.0 - v for p in free}
                s.add(drive.tphi(s.M, par), drive.share(s.M, par))
                if not free:
                    break
        return engine.enc({"id": i, "m": m, "ops": sc[i], "ev": s.ev})
    rows = []
    for i, (k, v) in enumerate(ctx.pool(one, range(len(sc)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("combining columns", v, {"scenario": sc[i]})
    judge(ctx, rows, "signals with equal columns", extra=lambda i: {"scenario": sc[i]})

    def ask(s):
        p, q = s.points(2, 0.4)
        for x in (p, q, p):
            s.add(drive.tphi(s.M, x), drive.share(s.M, x))
            if len(s.m["arr"]) > 1:
                s.add(drive.bigphi(s.M, x))
        s.add(drive.lnl(s.M, q, s.free, methods=("cliques",)))
    base = dict(npsr=[1, 2], ntoa=[5, 6], ncol=[2], nsig=6, minsig=3, nq=1, q=["lnl"], only=[1, 2], kinds=["gp", "ecb", "tm", "cgp"],
                max={"gp": 4, "cgp": 2, "ecb": 2}, sel=["none"], gpsel=["none", "half", "custom1"], basis=["poly", "red", "dm_tn", "red"],
                pprior=["scale", "dense"], prior=["powerlaw", "free"], cfor=[0, 1], cbasis=["red", "poly"], ccombine=[True, False],
                orf=["hd"], tm=["raw", "normed"], vary=[True, False])
    compose(ctx, base, ctx.n(220), ask, 1)
