"""Eccentric binaries (scenarios of spec/EccGen.tla)."""
import numpy as np
from enterprise.signals import utils

from engine import attempt, mat, vec
from fns import exact

DAY = 86400.0


def ecc(kind, r):
    return {"zero": 0.0, "small": float(r.uniform(0.001, 0.1)), "middle": float(r.uniform(0.1, 0.5)), "high": float(r.uniform(0.5, 0.85))}[kind]


def binary(c, r):
    return {"F": float(10 ** r.uniform(-9, -7)), "mc": float(10 ** r.uniform(7, 9.7)), "q": float(r.uniform(0.05, 1)), "e": ecc(c["ecc"], r)}


def events(c, r):
    return [{"rate": rate, "eqns": eqns, "solve": solve, "coef": coef, "wave": wave}[c["kind"]](c, r)]


def ask(what, fn, args, arrays, conv, **kw):
    """Calls fn with its arguments; those that are arrays must come out as they went in."""
    before = {k: np.array(v) for k, v in arrays.items()}
    o = attempt(fn, conv)
    left = [k for k in arrays if not np.array_equal(before[k], arrays[k])]
    return dict(kw, op="ecc", what=what, x=args, obs=o, changed=left)


def column(x):
    return vec(np.atleast_1d(x))


def spread(b, name, r):
    """The binary with an array of 3 values for one quantity; and as 3 binaries."""
    if name == "none":
        return b, {}, [b]
    lo, hi = {"mc": (0.3, 2), "F": (0.3, 2), "e": (0.1, 1.1)}[name]
    a = b[name] * r.uniform(lo, hi, 3) if b[name] else np.array([0.0, 0.2, 0.4])
    return dict(b, **{name: a}), {name: a}, [dict(b, **{name: float(v)}) for v in a]


def enc(b):
    return {k: exact(v) for k, v in b.items()}


def rate(c, r):
    b, arrays, many = spread(binary(c, r), c["arr"], r)
    many = [enc(x) for x in many]
    f = {"edot": lambda: utils.get_edot(b["F"], b["mc"], b["e"]), "Fdot": lambda: utils.get_Fdot(b["F"], b["mc"], b["e"]),
         "gammadot": lambda: utils.get_gammadot(b["F"], b["mc"], b["q"], b["e"])}[c["f"]]
    return ask(c["f"], f, many, arrays, column)


def eqns(c, r):
    b = binary(c, r)
    t = float(r.uniform(0, 1e9))
    if c["f"] == "constant":
        y = np.array([b["F"], r.uniform(0, 6)])
        return ask("eqns const", lambda: utils.get_coupled_constecc_eqns(y, t, b["mc"], b["e"]), [enc(b)], {"y": y}, vec)
    y = np.array([b["F"], b["e"], r.uniform(0, 6), r.uniform(0, 6)])
    return ask("eqns", lambda: utils.get_coupled_ecc_eqns(y, t, b["mc"], b["q"]), [enc(b)], {"y": y}, vec)


def solve(c, r):
    e = ecc(c["ecc"], r)
    F, q = float(10 ** r.uniform(-8.5, -7.5)), float(r.uniform(0.1, 1))
    # the time left is a multiple of ten to twenty years
    T = float(r.uniform(10, 20) * 365.25 * DAY)
    left = T * (r.uniform(4, 10) if c["chirp"] == "fast" else 10 ** r.uniform(2, 4))
    mc = 1e9
    mc *= (0.375 * F / utils.get_Fdot(F, mc, e) / left) ** 0.6
    mc = float(mc)
    t = np.append(0.0, np.sort(r.uniform(0.05, 1, 3))) * T + (float(r.uniform(0, 1e9)) if r.rand() < 0.5 else 0.0)
    g, l = float(r.uniform(0, 3)), float(r.uniform(0, 6))
    b = enc({"F": F, "mc": mc, "q": q, "e": e, "gamma": g, "l": l})
    if c["f"] == "constant":
        return ask("solve const", lambda: utils.solve_coupled_constecc_solution(F, e, l, mc, t), [b], {"t": t}, mat, t=exact(t))
    return ask("solve", lambda: utils.solve_coupled_ecc_solution(F, e, g, l, mc, q, t), [b], {"t": t}, mat, t=exact(t))


def amplitude(c, r):
    return None if c["amp"] == "distance" else float(10 ** r.uniform(-16, -13))


def coef(c, r):
    b0 = binary(c, r)
    b, arrays, many = spread(b0, "mc" if c["arr"] == "mc" else "none", r)
    dl = float(10 ** r.uniform(0, 3.5))
    h0 = amplitude(c, r)
    ns = [int(r.randint(1, 13))]
    n = ns[0]
    if c["arr"] == "n":
        ns = list(range(1, int(r.randint(2, 8))))
        n = np.array(ns)
        arrays = {"n": n}
        many = many * len(ns)
    else:
        ns = ns * len(many)
        if c["arr"] == "mc" and h0 is not None:
            many, ns = many[:1], ns[:1]
    xs = [dict(enc(x), n=k, dl=exact(dl), h0=[] if h0 is None else [exact(h0)]) for x, k in zip(many, ns)]
    f = getattr(utils, "get_" + c["f"])
    return ask(c["f"], lambda: f(n, b["mc"], dl, h0, b["F"], b["e"]), xs, arrays, column)


def wave(c, r):
    b = binary(c, r)
    dl, h0 = float(10 ** r.uniform(0, 3.5)), amplitude(c, r)
    t = np.sort(r.uniform(0, 5e8, int(r.randint(1, 5)))) + float(r.choice([0.0, 53000 * DAY]))
    # precession away from resonances of the harmonics
    gd = 0.0 if c["prec"] == "zero" else float(r.uniform(0.01, 0.4)) * np.pi * b["F"]
    inc = {"face": 0.0, "edge": np.pi / 2, "back": np.pi, "any": float(r.uniform(0, np.pi))}[c["inc"]]
    l0, g = float(r.uniform(0, 6)), float(r.uniform(0, 3))
    arrays = {"t": t}
    if c["arr"] == "angles":        # one value for each time
        l0, g = l0 + r.uniform(0, 1, len(t)), g + r.uniform(0, 1, len(t))
        arrays.update(l0=l0, gamma=g)
    xs = [dict(enc(dict(b, dl=dl, l0=float(l), gamma=float(a), gammadot=gd, inc=inc)), h0=[] if h0 is None else [exact(h0)])
          for l, a in zip(np.atleast_1d(l0), np.atleast_1d(g))]
    def two(o):
        return {"k": "two", "plus": vec(o[0]), "cross": vec(o[1])}
    return ask("wave", lambda: utils.calculate_splus_scross(c["nmax"], b["mc"], dl, h0, b["F"], b["e"], t, l0, g, gd, inc), xs, arrays, two,
               t=exact(t), nmax=c["nmax"])
