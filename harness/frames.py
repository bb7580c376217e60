"""Rotations of positions and ephemeris errors (scenarios of spec/FrameGen.tla)."""
import numpy as np
from enterprise.signals import utils

import concrete
from engine import attempt, mat, vec
from fns import exact
from geo import arr, unit

NAMES = ["frame_drift_rate", "d_jupiter_mass", "d_saturn_mass", "d_uranus_mass", "d_neptune_mass", "jup_orb_elements", "sat_orb_elements"]
FAR = [190, 360, 500, 760, 2600, 4770, 9600, 15000, 19000]     # light-seconds
NEED = [2, 4, 5, 6, 7]      # Earth, Jupiter, Saturn, Uranus, Neptune


def events(c, r):
    return [{"frame": frame, "euler": euler, "rotate": rotate, "delay": delay, "design": design}[c["kind"]](c, r)]


def ask(what, fn, x, arrays, conv):
    """Calls fn with arrays as arguments, which must come out as they went in."""
    before = {k: np.array(v) for k, v in arrays.items()}
    o = attempt(fn, conv)
    return {"op": "frame", "what": what, "x": x, "obs": o, "changed": [k for k in arrays if not np.array_equal(before[k], arrays[k])]}


def positions(n, r):
    return r.normal(size=(n, 3)) * r.choice([1.0, 500.0, 15000.0])


def frame(c, r):
    v = positions(c["n"], r)
    f = {"ecl2eq": utils.ecl2eq_vec, "eq2ecl": utils.eq2ecl_vec}[c["f"]]
    return ask("frame", lambda: f(v), {"f": c["f"], "v": exact(v)}, {"v": v}, mat)


def angle(how, n, r):
    return 0.0 if how == "zero" else float(r.uniform(-4, 4)) if how == "number" else r.uniform(-4, 4, n)


def euler(c, r):
    a = {k: angle(c[k], c["n"], r) for k in "zyx"}
    x = {k: exact(v) for k, v in a.items()}
    x.update(n=c["n"], many={k: c[k] == "array" for k in a})
    return ask("euler", lambda: utils.euler_vec(a["z"], a["y"], a["x"], c["n"]), x, {k: v for k, v in a.items() if c[k] == "array"}, arr)


def rotate(c, r):
    n = c["n"]
    v, mjd = positions(n, r), r.uniform(50000, 60000, n)
    a = {k: angle(c[k], n, r) for k in "zyx"}
    dz = 0.0 if c["rate"] == "zero" else float(r.uniform(-0.2, 0.2))
    x = dict({k: exact(w) for k, w in a.items()}, v=exact(v), mjd=exact(mjd), dz=exact(dz), eq=c["eq"] == "true")
    kw, given = {}, {"planet": v, "mjd": mjd}
    if c["off"] != "none":
        o = positions(1, r)[0]
        x["off"] = exact(o)
        kw["offset"] = o if c["off"] == "array" else o.tolist()
        if c["off"] == "array":
            given["offset"] = o
    if c["eq"] != "out":
        kw["equatorial"] = c["eq"] == "true"
    return ask("rotate", lambda: utils.ss_framerotate(mjd, v, a["x"], a["y"], a["z"], dz, **kw), x, given, mat)


def system(r, n, model, cols=3):
    t = np.sort(r.uniform(50500, 58500, n)) * 86400.0
    if r.rand() < 0.5:
        t = t[r.permutation(n)]
    ssb = np.array([[unit(r.normal(size=3)) * d * r.uniform(0.9, 1.1) for d in FAR] for _ in range(n)])
    if cols == 6:
        ssb = np.concatenate([ssb, r.normal(size=ssb.shape)], axis=2)
    q = unit(r.normal(size=3))
    post = q + 1e-4 * r.normal(size=(n, 3))
    x = {"toas": exact(t), "planets": exact(ssb[:, NEED, :3]), "post": exact(post), "orb": concrete.Concrete.orbital(model, t / 86400)}
    return t, ssb, post, x


def delay(c, r):
    n = int(r.choice([1, 3, 4]))
    model = r.choice(["setIII", "orbel", "orbel-v2", "setIII_1980"])
    t, ssb, post, x = system(r, n, model, c["cols"])
    kw = {k: r.uniform(-0.05, 0.05, 6) if k.endswith("elements") else float(r.uniform(-1e-2, 1e-2)) for k in NAMES if k in c["given"]}
    for k in kw:
        if k.endswith("elements") and r.rand() < 0.3:
            kw[k] = np.where(np.arange(6) == r.randint(6), kw[k], 0)
    x.update(kw={k: exact(v) for k, v in kw.items()}, eq=c["eq"] != "false")
    given = {"toas": t, "planetssb": ssb, "pos_t": post, **{k: v for k, v in kw.items() if k.endswith("elements")}}
    if any(k.endswith("elements") for k in kw) or r.rand() < 0.5:
        kw.update(zip(("times", "jup_orbit", "sat_orbit"), utils.get_planet_orbital_elements(model)))
    if c["eq"] != "out":
        kw["equatorial"] = c["eq"] == "true"
    return ask("delay", lambda: utils.physical_ephem_delay(t, ssb, post, **kw), x, given, vec)


DEFAULT = dict(zip(NAMES, [1e-9, 1.54976690e-11, 8.17306184e-12, 5.71923361e-11, 7.96103855e-11, 0.05, 0.5]))


def design(c, r):
    t, ssb, post, x = system(r, int(r.choice([2, 4])), c["model"])
    sig = {k: float(v * r.uniform(0.5, 2)) if r.rand() < 0.6 else None for k, v in DEFAULT.items() if k not in c["without"]}
    kw = {k: v for k, v in sig.items() if v is not None}
    kw.update({k: None if c["how"] == "none" else 0 for k in c["without"]})
    if c["model"] != "setIII" or r.rand() < 0.5:
        kw["model"] = c["model"]
    x["sig"] = {k: exact(DEFAULT[k] if v is None else v) for k, v in sig.items()}
    return ask("design", lambda: utils.createfourierdesignmatrix_physicalephem(t, ssb, post, **kw), x, {"toas": t, "planetssb": ssb, "pos_t": post},
               lambda o: {"k": "design", "F": mat(o[0]), "f": vec(o[1])})
