"""Declared parameters with numbers, for spec/PriorGen.tla."""
import numpy as np

from concrete import lit
from engine import Model, attempt, num, pyparams, vec, PRIORS
from enterprise.signals import parameter

CENTER = dict(pmin=-1.0, pmax=1.5, mu=0.3, sigma=0.7, alpha=2.0, gamma=1.3, lam=1.7)
SPREAD = dict(pmin=0.3, pmax=0.3, mu=0.3, sigma=0.1, alpha=0.0, gamma=0.3, lam=0.4)
TN = dict(pmin=-1.2, pmax=1.4)


def value(r, d, slot, n=None):
    c = TN.get(slot, CENTER[slot]) if d == "TN" else CENTER[slot]
    if slot == "alpha":
        return float(r.randint(1, 4))
    v = c + SPREAD[slot] * r.uniform(-1, 1, n)
    return v.tolist() if n else float(v)


def hyper(r, d, slot, n=None):
    """A parameter for a hyperparameter: bounded so that the distribution stays admissible."""
    c = TN.get(slot, CENTER[slot]) if d == "TN" else CENTER[slot]
    p = {"t": "par", "pr": {"d": "U", "kw": {"pmin": lit(c - SPREAD[slot]), "pmax": lit(c + SPREAD[slot])},
                            "rng": [c - SPREAD[slot], c + SPREAD[slot]]}}
    if n:
        p["size"] = n
    return p


def declare(c, r):
    """pspec of the parameter of scenario c."""
    kw, n = {}, c["size"]
    for slot, st in zip(c["slots"], c["style"]):
        if c["d"] == "NC" and slot == "sigma":
            A = r.randn(n, n)
            kw[slot] = lit((A @ A.T + np.eye(n)).tolist())
        elif st == "lit":
            kw[slot] = lit(value(r, c["d"], slot))
        elif st == "vec":
            kw[slot] = lit(value(r, c["d"], slot, n))
        elif st == "const":
            kw[slot] = {"t": "const", "v": value(r, c["d"], slot)}
        elif st == "par":
            kw[slot] = hyper(r, c["d"], slot)
        elif st == "inst":
            kw[slot] = dict(hyper(r, c["d"], slot), name="shared_" + slot)
        elif st == "vpar":
            kw[slot] = hyper(r, c["d"], slot, n)
        elif st == "fn":
            cc = TN.get(slot, CENTER[slot]) if c["d"] == "TN" else CENTER[slot]
            h = SPREAD[slot] / 4
            kw[slot] = {"t": "fn", "f": "lin", "kw": {
                "a": {"t": "par", "pr": {"d": "U", "kw": {"pmin": lit(cc - h), "pmax": lit(cc + h)}, "rng": [cc - h, cc + h]}},
                "b": lit(h / 2)}}
    p = {"t": "par", "name": "x", "pr": {"d": "N" if c["d"] == "NC" else c["d"], "kw": kw}}
    if n:
        p["size"] = n
    return p


def frees(ps, name):
    """Names, sizes and ranges of the hyperparameters (as Free of spec/Params.tla)."""
    out = []
    for k, v in ps["pr"]["kw"].items():
        if v["t"] == "par":
            out.append((v.get("name", name + "_" + k), v.get("size"), v["pr"]["rng"]))
        elif v["t"] == "fn":
            for a, w in v["kw"].items():
                if w["t"] == "par":
                    out.append((name + "_" + k + "_" + a, None, w["pr"]["rng"]))
    return out


def real(ps, inst=None):
    """The enterprise parameter for a pspec (named)."""
    M = Model.__new__(Model)
    M.inst = inst if inst is not None else {}
    return M.par(ps)


def events(c, ps, r, nsamp):
    P = real(ps)
    n = ps.get("size") or 0
    rec = {"name": ps["name"], "size": n, "pr": ps["pr"]}
    hy = frees(ps, ps["name"])
    ev = []
    def draw_h():
        return {k: (r.uniform(lo, hi, s).tolist() if s else float(r.uniform(lo, hi))) for k, s, (lo, hi) in hy}
    shape = (lambda x: x.tolist() if n else float(x))
    xs = [r.uniform(-0.4, 0.6, n or None), r.uniform(0.1, 0.9, n or None), r.uniform(-3, 3, n or None), r.uniform(1.9, 4, n or None)]
    if n == 3:      # one entry outside
        xs.append(np.array([0.2, 0.3, 5.0]))
        xs.append(np.array([-7.0, 0.3, 0.4]))
    if all(s == "lit" for s in c["style"]) and c["d"] in ("U", "LE"):      # bounds belong to the support
        xs += [np.full(n, ps["pr"]["kw"][b]["v"]) if n else ps["pr"]["kw"][b]["v"] for b in ("pmin", "pmax")]
    if c["d"] == "IG":      # closer to zero the density is not representable
        xs = [np.where((x > 0) & (x < 0.005), x + 0.005, x) if n else x + 0.005 * (0 < x < 0.005) for x in xs]
    for x in xs:
        h = draw_h()
        p = pyparams(h)
        v = np.asarray(x) if n else float(x)
        if r.rand() < 0.5:
            obs = dict(pdf=attempt(lambda: P.get_pdf(v, params=p), num), logpdf=attempt(lambda: P.get_logpdf(v, params=p), num))
        else:
            p2 = dict(p, **{ps["name"]: v})
            obs = dict(pdf=attempt(lambda: P.get_pdf(params=p2), num), logpdf=attempt(lambda: P.get_logpdf(params=p2), num))
        ev.append({"op": "prior", "p": rec, "par": h, "x": shape(np.asarray(x)), "obs": obs})
    if n == 3 and c["d"] in ("U", "N") and all(s == "lit" for s in c["style"]):      # the density is not representable, its logarithm is
        s = r.choice([1e-9, 1e10])
        kw = {k: lit(v["v"] * s) for k, v in ps["pr"]["kw"].items()}
        long = dict(ps, size=40, name="long", pr=dict(ps["pr"], kw=kw))
        L = real(long)
        x = r.uniform(-0.4, 0.6, 40) * s
        ev.append({"op": "prior", "p": {"name": "long", "size": 40, "pr": long["pr"]}, "par": {}, "x": x.tolist(),
                   "obs": dict(logpdf=attempt(lambda: L.get_logpdf(x), num))})
    for _ in range(2):
        h = draw_h()
        q = np.round(r.uniform(0.02, 0.98, n or None), 8)
        ev.append({"op": "quantile", "p": rec, "par": h, "q": shape(q),
                   "obs": attempt(lambda: P.get_ppf(q if n else float(q), params=pyparams(h)), lambda y: vec(np.atleast_1d(y)))})
    # joint samples with the hyperparameters, and samples at given hyperparameters
    np.random.seed(r.randint(1 << 30))
    def observe(fn):
        try:
            ds = [fn() for _ in range(nsamp)]
            return [{k: (np.asarray(v).tolist() if np.ndim(v) else float(v)) for k, v in d.items()} for d in ds]
        except Exception as e:
            return e
    def put(ds, h):
        if isinstance(ds, Exception):
            from engine import exc
            ev.append({"op": "flag", "what": "sampling", "obs": exc(ds)})
        else:
            ev.append({"op": "samples", "p": rec, "par": h, "draws": ds})
            for k, s, (lo, hi) in hy:      # the hyperparameters too
                if k in ds[0] and not h:
                    ev.append({"op": "samples", "par": {}, "draws": [{k: d[k]} for d in ds if k in d],
                               "p": {"name": k, "size": s or 0, "pr": {"d": "U", "kw": {"pmin": lit(lo), "pmax": lit(hi)}}}})
    put(observe(lambda: parameter.sample(P if r.rand() < .5 else [P])), {})
    h = draw_h()
    p = pyparams(h)
    put(observe(lambda: {ps["name"]: P.sample(params=p)}), h)
    return ev
