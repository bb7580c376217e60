"""Epochs, interpolation and stabilised design matrices (scenarios of spec/QuantGen.tla)."""
import numpy as np
from enterprise.signals import utils

from engine import attempt, mat
from fns import exact


def place(x, r):
    """Times on a grid, or anywhere, far from or near zero."""
    unit = float(r.choice([1.0, 0.5, 86400.0, 3.0]))
    base = float(r.choice([0.0, 53000 * 86400.0, -1000.0]))
    t = np.array(x["t"], float) * unit + base
    dt = x["dt"] * unit
    if base == 0.0 and unit == 1.0 and r.rand() < 0.3:
        return t.astype(int), int(dt)
    return t, dt


def scattered(r):
    n = int(r.randint(5, 25))
    t = r.uniform(0, 40, n)
    t[r.rand(n) < 0.3] = float(r.uniform(0, 40))
    if r.rand() < 0.5:
        t = np.sort(t)
    return t * 3600.0 + 5.3e9, float(r.choice([600.0, 3600.0, 9000.0]))


def index(s):
    whole = utils.indices_from_slice(s)
    return {"slice": isinstance(s, slice), "idx": [int(k) for k in (np.arange(200)[s] if isinstance(s, slice) else s)], "full": [int(k) for k in whole]}


def groups(t, dt, nmin, default=False):
    before = np.array(t)
    def q():
        U, w = utils.create_quantization_matrix(t) if default else utils.create_quantization_matrix(t, dt=dt, nmin=nmin)
        return {"k": "groups", "U": mat(U), "w": [float(x) for x in w], "inds": [index(s) for s in utils.quant2ind(U)],
                "slices": [index(s) for s in utils.quant2ind(U, as_slice=True)]}
    def lin():
        M, x = utils.linear_interp_basis(t, dt=dt)
        return {"k": "lin", "M": mat(M), "x": [float(v) for v in x]}
    e = {"op": "groups", "t": exact(np.asarray(t, float)), "dt": exact(float(1 if default else dt)), "nmin": 2 if default else nmin, "obs": attempt(q)}
    e["lin"] = attempt(lin) if np.ptp(t) > 0 and not default else {"k": "skip"}
    e["changed"] = not np.array_equal(before, t)
    return e


def stable(r):
    n, k = int(r.randint(3, 12)), int(r.randint(1, 4))
    M = r.normal(size=(n, k)) * 10.0 ** r.uniform(-2, 2, k)
    if r.rand() < 0.3:
        M = np.asfortranarray(M)
    before = M.copy()
    f = utils.create_stabletimingdesignmatrix
    return {"op": "stable", "M": exact(before), "fast": attempt(lambda: f(M), mat), "svd": attempt(lambda: f(M, fastDesign=False), mat),
            "changed": not np.array_equal(M, before), "obs": {"k": "ok"}}
