"""Calls of basis and spectrum functions with concrete values (scenarios of spec/FnGen.tla)."""
import copy
import decimal

import numpy as np

import engine
from engine import attempt

YR = 365.25 * 86400


def pulsar(r, n=None):
    """A small pulsar, in time order or not, with TOAs of one epoch and at the same time."""
    n = n or r.randint(4, 8)
    t = 53000 * 86400.0 + r.uniform(0, 12 * YR) + np.sort(r.uniform(0, r.choice([0.3, 3.0, 8.0]) * YR, n))
    if r.rand() < 0.3:
        t[1] = t[0]
    t[-1] += 1e6
    fl = [str(x) for x in r.choice(["PUPPI", "GASP", "S 1"], n)]
    fl[0] = fl[-1] = "PUPPI"
    fl[1 + r.randint(n - 2)] = "GASP"
    p = r.permutation(n) if r.rand() < 0.5 else np.arange(n)
    v = r.normal(size=3)
    v /= np.linalg.norm(v)
    raw = dict(name="J0613-0200", toas=t[p], errs=r.uniform(1e-7, 1e-6, n), res=np.zeros(n), freqs=r.choice([327.0, 430.0, 820.0, 1400.0, 1415.5, 2300.0], n),
               flags={"group": [fl[i] for i in p], "f": [fl[i] for i in p]}, M=np.ones((n, 1)), pos=v.tolist())
    return engine.make_psr(raw, sort=bool(r.rand() < 0.4))


def value(f, slot, way, r, psr, nf, single=False):
    """nf: numbers of frequencies that lists of one value each need."""
    T = psr.toas.max() - psr.toas.min() if psr is not None else 5 * YR
    num = {"Tspan": lambda: T * r.uniform(0.5, 3), "fmin": lambda: r.uniform(0.2, 1.5) / T, "fmax": lambda: r.uniform(3, 30) / T,
           "fref": lambda: r.uniform(400, 2000), "idx": lambda: r.uniform(0.5, 5), "log10_Amp": lambda: r.uniform(-8, -5),
           "log10_Q": lambda: r.uniform(1, 3.3), "t0": lambda: r.uniform(psr.toas.min(), psr.toas.max()),
           "log10_A": lambda: r.uniform(-18, -12), "gamma": lambda: r.uniform(0, 7), "lf0": lambda: r.uniform(-9, -7), "lfb": lambda: r.uniform(-9, -7),
           "lfk": lambda: r.uniform(-9, -7), "log10_fb": lambda: r.uniform(-9, -7), "kappa": lambda: r.uniform(0.05, 4) if f != "broken" else r.uniform(0.1, 0.5),
           "beta": lambda: r.uniform(0.1, 2), "delta": lambda: r.uniform(-1, 3)}
    if way in ("true", "false"):
        return way == "true"
    if slot in ("nmodes", "components"):
        return 1 if way == "one" else int(r.randint(2, 7)) if slot == "nmodes" else int(r.choice([2, 3, 4, 6]))
    if slot == "modes":
        v = np.sort(r.uniform(0.3, 12, r.randint(1, 6))) / T
        return v if way == "array" else v.tolist()
    if slot == "pseed":
        k = int(r.randint(1, 5000))
        return k if way == "int" else k + float(r.uniform(0, 0.9))
    if slot == "flagval":
        return "PUPPI" if way == "value" else ""
    if slot == "nfreq":
        k = int(r.randint(0, nf))
        return k if way == "int" else k + float(r.uniform(-0.4, 0.4))
    if slot in ("log10_rho", "alphas", "wgts", "alphas_adapt"):
        if slot == "alphas_adapt" and single:      # of one frequency
            return float(r.uniform(0.1, 5))
        v = {"log10_rho": lambda: r.uniform(-9, -4, nf), "wgts": lambda: np.sqrt(r.uniform(1e-9, 1e-8, nf))}.get(slot, lambda: r.uniform(0.1, 5, nf))()
        return v if way == "array" else v.tolist()
    if way == "zero":
        return 0
    x = float(num[slot]())
    if way == "int":
        return {"kappa": 2, "beta": 1, "delta": 1, "gamma": int(r.randint(0, 8)), "log10_A": int(r.randint(-18, -12))}.get(slot, int(round(x)) or 1)
    return x


def exact(v):
    """Floating-point numbers without any rounding."""
    if isinstance(v, (list, np.ndarray)):
        return [exact(x) for x in v]
    return str(decimal.Decimal(float(v))) if isinstance(v, float) else v


def lit(v):
    return {"t": "lit", "v": exact(v)}


def record(psr):
    d = engine.record(psr)
    return dict(d, toas=exact(psr.toas), freqs=exact(psr.freqs), pos=exact(psr.pos))


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return np.array_equal(np.asarray(a), np.asarray(b))


def call_basis(c, r, psr, phases):
    f = c["f"]
    kw = {s: value(f, s, w, r, psr, 3) for s, w in sorted(c["ch"].items()) if w != "out"}
    if f == "general":
        kw["flagname"] = "f" if r.rand() < 0.5 else "group"
    args = {"toas": psr.toas.copy()}
    if f in ("dm", "dm_tn", "chrom", "general"):
        args["freqs"] = psr.freqs.copy()
    if f == "ephem":
        args["pos"] = psr.pos.copy()
    if f == "general":
        args["flags"] = {k: np.array(psr.flags[k]) for k in psr.flags}
    if "pseed" in kw:
        seed = int(psr.toas[0] / 17) + int(kw["pseed"])
        phases[str(seed)] = np.random.RandomState(seed).uniform(0.0, 2 * np.pi, 30).tolist()
    old = copy.deepcopy((args, kw))
    turn = f in ("red", "dm", "dm_tn", "general") and "pseed" not in kw and not (f == "general" and c["ch"].get("flagval") == "value") and r.rand() < 0.15
    extra = {"pshift": True} if turn or ("pseed" in kw and r.rand() < 0.3) else {}
    spec = {k: lit(int(v) if k == "pseed" else v) for k, v in kw.items()}

    def go():
        if r.rand() < 0.3:
            a = list(args.values())
            return engine.BASES[f](*a, **kw, **extra)
        return engine.BASES[f](**args, **kw, **extra)
    obs = attempt(go, lambda o: {"k": "basis", "F": np.asarray(o[0], float), "f": exact(np.asarray(o[1], float).ravel()), "kept": same((args, kw)[0], old[0]) and same(kw, old[1])})
    return {"op": "basisfn", "p": 1, "fs": {"f": f, "kw": spec}, "turn": bool(turn), "obs": obs}


def call_spec(c, r):
    f = c["f"]
    comp = {s: value(f, s, w, r, None, 0) for s, w in c["ch"].items() if s == "components" and w != "out"}
    n = comp.get("components", 2)
    nf = int(r.randint(2, 6))
    T = r.uniform(1, 15) * YR
    base = np.arange(1, nf + 1) / T if r.rand() < 0.5 else np.sort(r.uniform(0.3, 20, nf)) / T
    fr = np.repeat(base, n)
    kw = {s: comp[s] if s in comp else value(f, s, w, r, None, nf, c["ch"].get("nfreq", "out") != "out") for s, w in sorted(c["ch"].items()) if w != "out"}
    old = copy.deepcopy((fr, kw))
    obs = attempt(lambda: engine.SPECTRA[f](fr, **kw), lambda o: dict(engine.vec(o), kept=same(fr, old[0]) and same(kw, old[1])))
    return {"op": "specfn", "fs": {"f": f, "kw": {k: lit(v) for k, v in kw.items()}}, "f": exact(old[0]), "obs": obs}
