"""Directions, sources and skies (scenarios of spec/GeoGen.tla)."""
import numpy as np
from enterprise.signals import anis_coefficients as ac
from enterprise.signals import utils

import engine
from engine import attempt, mat, num, vec
from fns import exact, lit


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


def place(kind, r):
    if kind == "axis":
        v = np.zeros(3)
        v[r.randint(2)] = r.choice([-1.0, 1.0])
        return v
    if kind == "pole":
        return np.array([0.0, 0.0, 1.0])
    if kind == "southpole":
        return np.array([0.0, 0.0, -1.0])
    if kind == "equator":
        a = r.uniform(0, 2 * np.pi)
        return np.array([np.cos(a), np.sin(a), 0.0])
    return unit(r.normal(size=3))


def other(p, rel, r):
    if rel == "same":
        return p.copy()
    if rel == "opposite":
        return -p
    o = unit(np.cross(p, r.normal(size=3)))
    if rel == "orthogonal":
        return o
    if rel == "generic":
        return unit(r.normal(size=3))
    if rel == "nearopposite":
        return -unit(p + 1e-3 * o)
    return unit(p + 10.0 ** -int(rel[4:]) * o)


def events(c, r):
    return {"orf": orf, "anis": anis, "antenna": antenna, "sphere": sphere}[c["kind"]](c, r)


def orf(c, r):
    out = []
    for _ in range(2):
        p = place(c["place"], r)
        q = other(p, c["rel"], r)
        if r.rand() < 0.3 and c["rel"] != "same":
            p, q = q, p
        f = engine.ORFS[c["f"]]
        out.append({"op": "orf", "fs": {"f": c["f"], "kw": {}}, "p": exact(p), "q": exact(q), "obs": attempt(lambda: f(p, q), num),
                    "swap": attempt(lambda: f(q, p), num)})
    return out


def anis(c, r):
    n = r.randint(2, 5)
    pos = [place(c["place"], r)] + [unit(r.normal(size=3)) for _ in range(n - 1)]
    i = 0
    j = 0 if c["rel"] == "same" else 1
    if c["rel"] == "opposite":
        pos[1] = -pos[0]
    for y in range(1, n):       # the same coordinates except for one sign
        if r.rand() < 0.4:
            m = pos[0].copy()
            m[r.randint(3)] *= -1
            if not any(np.array_equal(m, q) for q in pos):
                pos[y] = m
    k = r.permutation(n)
    pos = [pos[x] for x in k]
    i, j = list(k).index(i), list(k).index(j)
    nb = (c["lmax"] + 1) ** 2
    basis = r.normal(size=(nb + r.choice([0, 7]), n, n))
    basis = basis + basis.transpose(0, 2, 1)
    par = r.uniform(-2, 2, nb - 1)
    given = par if c["given"] == "array" else par.tolist()
    where = np.array(pos) if c["given"] == "array" else pos
    if c["lmax"] == 0 and r.rand() < 0.5:
        given = 0.0
    f = utils.anis_orf
    kw = dict(anis_basis=basis, psrs_pos=where, lmax=c["lmax"])
    fs = {"f": "anis", "lmax": c["lmax"], "basis": basis.tolist(), "pos": exact(np.array(pos)), "kw": {"params": lit(par.tolist() or [0.0])}}
    return [{"op": "orf", "fs": fs, "p": exact(pos[i]), "q": exact(pos[j]), "obs": attempt(lambda: f(pos[i], pos[j], given, **kw), num),
             "swap": attempt(lambda: f(pos[j], pos[i], params=given, **kw), num)}]


def antenna(c, r):
    out = []
    for _ in range(4):
        p = place(c["place"], r)
        s = other(p, c["rel"], r)
        th, ph = float(np.arccos(np.clip(s[2], -1, 1))), float(np.arctan2(s[1], s[0])) + float(r.choice([0, 2 * np.pi]))
        out.append({"op": "antenna", "pos": exact(p), "theta": exact(th), "phi": exact(ph),
                    "obs": attempt(lambda: utils.create_gw_antenna_pattern(p, th, ph),
                                   lambda o: {"k": "ant", "plus": float(o[0]), "cross": float(o[1]), "cosmu": float(o[2])})})
    return out


def arr(x):
    return {"k": "arr", "v": np.asarray(x, float)}


def sphere(c, r):
    import healpy as hp
    lmax, ns = c["lmax"], c["nside"]
    nb = (lmax + 1) ** 2
    pix = hp.pix2ang(ns, np.arange(hp.nside2npix(ns)))
    locs = np.array([[r.uniform(0, 2 * np.pi), np.arccos(r.uniform(-0.95, 0.95))] for _ in range(c["psr"])])
    clm = r.uniform(-1, 1, nb)
    h = r.uniform(0, 2, len(pix[0]))
    obs = []
    for q in range(3):
        l = int(r.randint(lmax + 1))
        m = int(r.randint(-l, l + 1))
        obs.append(attempt(lambda: ac.real_sph_harm(m, l, pix[1], pix[0]), vec, what="harmonic", l=l, m=m))
    for how, f in (("slow", ac.mapFromClm), ("fast", ac.mapFromClm_fast)):
        obs.append(attempt(lambda: f(clm.copy(), ns), vec, what="map", how=how, clm=clm, lmax=lmax))
    obs.append(attempt(lambda: ac.clmFromMap(h.copy(), lmax), vec, what="clm", h=h, lmax=lmax))
    obs.append(attempt(lambda: ac.clmFromAlm(ac.almFromClm(clm.copy())), vec, what="exact", how="through complex ones", clm=clm, tol="1e-14"))
    if ns >= 2 and lmax < ns:
        obs.append(attempt(lambda: ac.clmFromMap_fast(ac.mapFromClm(clm, 4 * ns), lmax), vec, what="exact", how="of their map", clm=clm, tol="1e-3"))
    obs.append(attempt(lambda: ac.orfFromMap_fast(locs, h.copy()), mat, what="maporf", how="of positions", h=h))
    obs.append(attempt(lambda: ac.orfFromMap_fast(locs, h, response=ac.signalResponse_fast(locs[:, 1], locs[:, 0], *pix)), mat,
                       what="maporf", how="of a response", h=h))
    obs.append(attempt(lambda: ac.anis_basis(locs.copy(), lmax, ns), arr, what="basis", lmax=lmax))
    obs.append(attempt(lambda: 2 * np.sqrt(np.pi) * ac.anis_basis(locs, 0)[0], mat, what="isotropic", tol="2e-3"))
    return [{"op": "sphere", "locs": [{"phi": exact(float(a)), "theta": exact(float(b))} for a, b in locs],
             "pix": [{"theta": exact(float(a)), "phi": exact(float(b))} for a, b in zip(*pix)], "obs": obs}]
