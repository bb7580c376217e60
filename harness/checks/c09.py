"""C09: selections partition the TOAs as documented and apply parameters per group."""
import numpy as np

import drive
import engine
import tlc
from compose import compose, judge
from engine import attempt, make_psr, make_selection, record

KINDS = ["none", "backend", "nanograv", "customall", "telescope", "band", "frontend", "half", "freq"]


def selections_for(r, n):
    names = ["ASP", "GASP", "PUPPI", "A", "VEGAS", "none of them", "S_"]
    out = [{"s": k} for k in KINDS]
    out.append({"s": "none", "via": "dict"})
    for _ in range(2):
        k = [names[i] for i in r.choice(len(names), r.randint(1, 4), replace=False)]
        out.append({"s": "custom", "names": k, **({"via": "dict"} if r.rand() < .5 else {})})
        out.append({"s": "custom", "names": k[:1], "bare": True})
    d = {}
    for f in ("B", "fe", "backend"):
        if r.rand() < 0.6:
            al = bool(r.rand() < 0.5)
            pool = {"B": ["10CM", "20", "CM"], "fe": ["R1", "R10"], "backend": names}[f]
            nm = [pool[i] for i in r.choice(len(pool), r.randint(1, 3), replace=False)]
            bare = bool(r.rand() < .3)
            d[f] = {"all": al, "names": nm[:1] if bare else nm, "bare": bare, "pos": int(r.randint(100))}
    if d:
        out.append({"s": "dict", "dict": d})
    out.append({"s": "index", "name": "ix", "idx": sorted(set(r.randint(0, n + 2, 3).tolist()))})
    out.append({"s": "freq", "bands": {"lo": [300.0, 1000.0], "mid": [1000.0, 2000.0], "x": [1999.0, 5000.0]}})
    return out


def masks(psr, k, s):
    return {"op": "masks", "p": k, "sel": s,
            "obs": attempt(lambda: make_selection(s)(psr).masks,
                           lambda d: {"k": "map", "v": {str(a): np.asarray(b).astype(bool).tolist() for a, b in d.items()}})}


def call(psr, k, s, r):
    from enterprise.signals import parameter
    def go():
        S = make_selection(s)(psr)
        names, msk = S("efac", parameter.Uniform(0, 1))
        p2, arr = S("efac", parameter.Uniform(0, 1), psr.toaerrs)
        return {"k": "sel", "names": {a: b.name for a, b in names.items()}, "masks": {a: np.asarray(b).astype(bool).tolist() for a, b in msk.items()},
                "arr": {a: np.asarray(b) for a, b in arr.items()}}
    return {"op": "selcall", "p": k, "sel": s, "par0": "efac", "obs": attempt(go)}


def check(ctx):
    sc, st, tr = tlc.enumerate_all("SelGen", profile={"n": 4 if ctx.thorough else 3, "full": False})
    ctx.count(states=st, transitions=tr)
    sc += tlc.simulate("SelGen", {"n": 8, "full": True}, ctx.n(150), ctx.seed)

    def one(i):
        r = np.random.RandomState([ctx.seed, i])
        x = sc[i]
        n = len(x)
        raw = dict(name="J1234+5678", toas=[53000 * 86400 + 1e6 * t["t"] for t in x], errs=r.uniform(1e-7, 1e-6, n), res=np.zeros(n),
                   freqs=[float(t["f"]) for t in x], flags={"f": [t["bf"] for t in x], "B": [t["B"] for t in x], "fe": [t["fe"] for t in x]},
                   tel=[t["tel"] for t in x], M=np.ones((n, 1)), pos=[1.0, 0.0, 0.0])
        psr = make_psr(raw, sort=bool(i % 3))
        # another data set of the same pulsar, of the same length, divided by the same classes
        turn = [(k + 1) % n for k in range(n)]
        other = make_psr({**raw, "freqs": [raw["freqs"][k] for k in turn], "tel": [raw["tel"][k] for k in turn],
                          "flags": {f: [v[k] for k in turn] for f, v in raw["flags"].items()}}, sort=bool(i % 3))
        ev = []
        for s in selections_for(r, n):
            ev.append(masks(psr, 1, s))
            if r.rand() < 0.5:
                ev.append(masks(other, 2, s))
            if r.rand() < 0.15:
                ev.append(call(psr, 1, s, r))
        return engine.enc({"id": i, "m": {"psrs": [record(psr), record(other)], "sigs": [], "arr": []}, "ops": x, "ev": ev})
    rows = []
    for i, (k, v) in enumerate(ctx.pool(one, range(len(sc)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("building a pulsar", v, {"scenario": sc[i]})
    judge(ctx, rows, "selections of small pulsars", extra=lambda i: {"scenario": sc[i]})

    def ask(s):
        p, q = s.points(2, 0.3)
        s.add(drive.names(s.M, p))
        for a, e in enumerate(s.m["arr"]):
            for j, k in enumerate(e["s"]):
                if s.m["sigs"][k - 1]["k"] in ("mn", "tneq"):
                    s.add(drive.sigwhite(s.M, a, j, q))
            s.add(drive.white(s.M, a, p, s.r, nx=1, nz=1))
        s.add(drive.delay(s.M, p), drive.delay(s.M, q), drive.tphi(s.M, p))
    every = ["backend", "band", "half", "telescope", "freq", "frontend", "custom", "custom1", "nanograv", "index", "dict"]
    compose(ctx, dict(npsr=[1, 2], ntoa=[6, 9], ncol=[2], nsig=6, minsig=4, nq=1, q=["lnl"], only=[1, 2], flags=["two", "three", "asym"],
                      kinds=["mn2", "tneq", "eck", "ecb", "gp", "det"], max={"gp": 2, "det": 2, "mn2": 2}, partsel=every, sel=every[:7],
                      gpsel=every, detsel=every, basis=["red", "poly", "dm"], prior=["powerlaw", "free"]), ctx.n(180), ask, 1)
