"""Sessions with noise and prior matrices (scenarios of spec/KernelGen.tla)."""
import fastshermanmorrison.fastshermanmorrison as fsm
import numpy as np
import scipy.sparse as sps
from enterprise.signals import gp_signals, signal_base, utils

from engine import attempt, mat, num, vec


def instantiate(sc, r):
    """The operations with values, and the arrays they are built from."""
    n = sc["n"]
    ops = []
    for o in sc["ops"]:
        o = dict(o)
        if o["op"] == "diag":
            o["v"] = 10.0 ** r.uniform(-14, -12, n)
        elif o["op"] == "kernel":
            o["j"] = 10.0 ** r.uniform(-15, -12, len(o["epochs"]))
        elif o["op"] == "marg":
            x = np.linspace(-1, 1, n)
            o["M"] = np.stack([x ** k + 0.1 * r.normal(size=n) for k in range(o["m"])], axis=1)
        elif o["op"] == "prior":
            o["v"] = 0 if o["form"] == "size" else 10.0 ** r.uniform(-3, 0, n) if o["form"] == "vec" else posdef(r, n)
        elif o["op"] == "put":
            m = len(o["idx"])
            o["v"] = np.float64(r.uniform(0.5, 2)) if o["form"] == "num" else 10.0 ** r.uniform(-3, 0, m) if o["form"] == "vec" else posdef(r, m)
        ops.append(o)
    return n, ops


def posdef(r, n):
    a = r.normal(size=(n, n + 2))
    a = a @ a.T / n
    return (a + a.T) / 2


def contiguous(e):
    return all(b == a + 1 for a, b in zip(e, e[1:]))


def kernel(o):
    eps = [[k - 1 for k in e] for e in o["epochs"]]
    if o["method"] == "sparse":
        N = np.zeros((o["n"], o["n"]))
        for e, j in zip(eps, o["j"]):
            if len(e) > 1:
                N[np.ix_(e, e)] = j
        return signal_base.csc_matrix_alt(sps.csc_matrix(N))
    sl = [slice(e[0], e[-1] + 1) if o["slices"] and contiguous(e) else np.array(e) for e in eps]
    if o["method"] == "block":
        return signal_base.BlockMatrix([np.ones((len(e), len(e))) * j for e, j in zip(eps, o["j"])], sl)
    return (signal_base.ShermanMorrison if o["method"] == "sm" else fsm.FastShermanMorrison)(np.array(o["j"]), sl)


def make(objs, o, r):
    k = o["op"]
    if k == "diag":
        return signal_base.ndarray_alt(o["v"].copy())
    if k == "kernel":
        return kernel(o)
    if k == "marg":
        return gp_signals.MarginalizingNmat(o["M"])
    if k == "zero":
        return 0 + objs[o["i"] - 1]
    if k == "sum":
        a, b = objs[o["i"] - 1], objs[o["k"] - 1]
        if isinstance(b, signal_base.ndarray_alt) and not isinstance(a, gp_signals.MarginalizingNmat) and r.rand() < 0.3:
            b = np.asarray(b)
        return a + b
    if k == "prior":
        return utils.KernelMatrix(o["n"] if o["form"] == "size" else o["v"].copy())
    p, ix = objs[o["i"] - 1], [x - 1 for x in o["idx"]]
    if o["way"] == "slice":
        ix = slice(ix[0], ix[-1] + 1)
    elif o["way"] == "array":
        ix = np.array(ix)
    if o["form"] == "num":
        return p.set(o["v"], int(ix[0])) if p.ndim == 1 else p.set(np.array([o["v"]]), ix)
    return (p.add if o["how"] == "add" else p.set)(o["v"], ix)


def methods(ops):
    out = []
    for o in ops:
        k = o["op"]
        out.append(o["method"] if k == "kernel" else out[o["i"] - 1] if k in ("zero", "put") else
                   next((m for m in (out[o["i"] - 1], out[o["k"] - 1]) if m != "none"), "none") if k == "sum" else "none")
    return out


def run(sc, r):
    """The values given and what the objects answer."""
    n, ops = instantiate(sc, r)
    ms, types, objs, ev = methods(ops), sc["types"], [], []
    x, z = r.normal(size=n), r.normal(size=n)
    X, Z = r.normal(size=(n, 2)), r.normal(size=(n, 3))
    asks = list(sc["asks"])

    def answer(a):
        o, m = objs[a["i"] - 1], ms[a["i"] - 1]
        if types[a["i"] - 1] == "p":
            d = lambda q: mat(np.diag(np.asarray(q)) if np.ndim(q) == 1 else np.asarray(q))
            with np.errstate(all="ignore"):
                i2 = attempt(lambda: o.inv(logdet=True), lambda q: {"k": "ok", "m": d(q[0]), "ld": num(q[1])})
                obs = {"k": "ok", "entries": d(o), "inv": attempt(o.inv, d), "inv2": i2.get("m", i2), "ld": i2.get("ld", i2)}
            ev.append({"op": "priormat", "at": a["at"], "i": a["i"], "obs": obs})
            return
        right = x if a["right"] == "vec" else X
        left = {"none": None, "same": right, "vec": z, "mat": Z}[a["left"]]
        ld = a["ld"] and (types[a["i"] - 1] != "mn" or (a["right"] == "vec" and a["left"] == "same"))
        form = lambda q: num(q) if np.ndim(q) == 0 else vec(np.asarray(q)) if np.ndim(q) == 1 else mat(np.asarray(q))

        def ask():
            kw = {} if left is None else {"left_array": left}
            if ld:
                v, l = o.solve(right, logdet=True, **kw)
                return {"k": "ok", "r": form(v), "ld": num(l)}
            return {"k": "ok", "r": form(o.solve(right, **kw)), "ld": {"k": "none"}}
        ev.append({"op": "kern", "at": a["at"], "i": a["i"], "method": m, "right": {"k": a["right"], "v": right}, "ld": bool(ld),
                   "left": {"k": a["left"], "v": left} if a["left"] in ("vec", "mat") else {"k": a["left"]}, "obs": attempt(ask, lambda q: q)})
    for t, o in enumerate(ops, 1):
        objs.append(make(objs, o, r))
        for a in [a for a in asks if a["at"] == t]:
            answer(a)
    return ops, ev
