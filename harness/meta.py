"""Pulsars described by stand-ins for the timing packages (scenarios of spec/MetaGen.tla)."""
import json
import os
import pickle
import tempfile

import astropy.units as u
import numpy as np

import engine
import psrdata
from engine import attempt
from enterprise import pulsar
from fns import exact

DAY = 86400.0


def describe(sc, r):
    """The description of the specification, with values."""
    n = 4
    lon, lat = float(r.uniform(0.1, 2 * np.pi - 0.1)), float(r.uniform(-1.4, 1.4))
    names = {"eq": ("RAJ", "DECJ"), "ecl": ("ELONG", "ELAT")}[sc["coords"]]
    fit = ["F0"] + (list(names) if sc["astrofit"] else []) + (["DM"] if sc["dm"] == "fit" else [])
    other = ["F1", "PX"][:r.randint(3)] + ([] if sc["astrofit"] else list(names)) + (["DM"] if sc["dm"] == "set" else [])
    pars = {"DM": (float(r.uniform(2, 200)), 0.0)}
    dmx = []
    for k in range({"none": 0, "one": 1, "three": 3}[sc["dmx"]]):
        p = ["DMX_0001", "DMX_0002", "DMX_0010"][k]
        pars[p] = (float(r.normal() * 1e-3), float(r.uniform(1e-5, 1e-3)))
        pars["DMXR1" + p[3:]] = (53000.0 + 10 * k, 0.0)
        pars["DMXR2" + p[3:]] = (53009.5 + 10 * k, 0.0)
        free = not (sc["frozen"] and k == 1)
        (fit if free else other).append(p)
        other += ["DMXR1" + p[3:], "DMXR2" + p[3:]]
        dmx.append(dict(par=p, fit=free, v=pars[p][0], e=pars[p][1], lo=pars["DMXR1" + p[3:]][0], hi=pars["DMXR2" + p[3:]][0]))
    t = 53000.0 + np.sort(np.round(r.uniform(0, 1000, n), 3))
    x = dict(prefix=sc["nm"]["prefix"], body=sc["nm"]["body"], coords=sc["coords"], pkg=sc["pkg"], planets=sc["planets"], hasplanets=sc["hasplanets"],
             keep=sc["keep"], rel=sc["rel"], fit=[fit[k] for k in r.permutation(len(fit))], dm=sc["dm"] != "none", dmval=pars["DM"][0], dmx=dmx)
    every = fit + other
    x["set"] = [every[k] for k in r.permutation(len(every))]
    one = lambda kinds: kinds[r.randint(len(kinds))] if sc["pkg"] == "pint" else kinds[0]
    q = lambda v, unit: dict(v=v, u=unit)
    x["lon"] = q(lon, "rad")
    x["lat"] = q(lat, "rad")
    if sc["pkg"] == "pint":
        x["lon"] = q(lon * 12 / np.pi, "hourangle") if sc["coords"] == "eq" else q(lon * 180 / np.pi, "deg")
        x["lat"] = q(lat * 180 / np.pi, "deg")
    x["toas"] = q(t, "d")
    x["stoas"] = q(t + np.round(r.uniform(-0.005, 0.005, n), 6), "d")
    x["res"] = q(r.normal(size=n), one(["s", "us", "ms"]))
    x["errs"] = q(r.uniform(0.1, 3, n), one(["us", "s", "ms"]))
    x["freqs"] = q(r.uniform(300, 3000, n) * (1e6 if sc["pkg"] == "t2" else 1), "Hz" if sc["pkg"] == "t2" else "MHz")
    far = 500.0 * (1 if sc["pkg"] == "t2" else 299792.458)
    unit = one(["lts", "lts"]) if sc["pkg"] == "t2" else ["km", "m"][r.randint(2)]
    far *= 1000 if unit == "m" else 1
    x["post"] = r.normal(size=(n, 3))
    x["bodies"] = [dict(b=b, v=r.normal(size=(n, 3)) * far, u=unit) for b in (psrdata.PLANETS if sc["pkg"] == "t2" else psrdata.BODIES) + ["sun"]]
    for b in x["bodies"]:
        b["vel"] = r.normal(size=(n, 3))
    x["obs"] = dict(v=r.normal(size=(n, 3)) * far if sc["pkg"] == "pint" else np.zeros((n, 3)), u=unit)
    with open(os.path.join(os.path.dirname(pulsar.__file__), "datafiles", "pulsar_distances.json")) as f:
        x["cat"] = [dict(name=k, d=v[0], e=v[1]) for k, v in json.load(f).items() if k.endswith(x["body"])]
    kinds = [["f"], ["f", "B"], ["fe", "be", "f"], []][r.randint(4)]
    words = ["A", "", "Rcvr1_2_GUPPI", "Rcvr1_2_PUPPI_of_the_second_kind", "Rcvr1_2_PUPPI_of_the_second_sort", "long-names-of-receivers-in-which-only-the-end-differs-1",
             "long-names-of-receivers-in-which-only-the-end-differs-2"]
    some = lambda: [k for k in kinds if sc["pkg"] == "t2" or r.rand() < 0.7]
    x["flags"] = [[dict(f=k, v=words[r.randint(len(words))]) for k in some()] for _ in range(n)]
    x["tel"] = [["gbt", "arecibo", "y", "a_telescope_with_a_long_name"][r.randint(4)] for _ in range(n)]
    return x, pars


def flagcols(x):
    names = []
    for row in x["flags"]:
        names += [c["f"] for c in row if c["f"] not in names]
    return {k: [next((c["v"] for c in row if c["f"] == k), "") for row in x["flags"]] for k in names}


def t2(x, pars):
    n = len(x["toas"]["v"])
    raw = dict(name=x["prefix"] + x["body"], toas=[0.0] * n, errs=[1.0] * n, res=x["res"]["v"], freqs=[1.0] * n, flags=flagcols(x), tel=x["tel"],
               M=np.ones((n, len(x["fit"]) + 1)), pos=[1.0, 0.0, 0.0], post=x["post"], fit=x["fit"], set=x["set"])
    T = engine.T2(raw)
    T._t, T.stoas, T.toaerrs, T._f = x["toas"]["v"], x["stoas"]["v"], x["errs"]["v"], x["freqs"]["v"]
    T._d = {"F0": engine.Par(100.0), **{k: engine.Par(*v) for k, v in pars.items()}}
    for k in range(1, 10):
        T._d["DMASSPLANET%d" % k] = engine.Par(0.0)
    lon, lat = ("RAJ", "DECJ") if x["coords"] == "eq" else ("ELONG", "ELAT")
    T._d[lon], T._d[lat] = engine.Par(x["lon"]["v"]), engine.Par(x["lat"]["v"])
    for b in x["bodies"]:
        setattr(T, b["b"] + "_ssb", np.concatenate([b["v"], b["vel"]], axis=1))
    return T


class Toas:
    def __init__(self, x):
        from astropy.table import QTable
        self.x, self.ntoas = x, len(x["toas"]["v"])
        cols = {"ssb_obs_pos": x["obs"]["v"] * u.Unit(x["obs"]["u"])}
        for b in x["bodies"]:
            if x["hasplanets"]:
                cols["obs_%s_pos" % b["b"]] = (b["v"] - x["obs"]["v"]) * u.Unit(b["u"])
        self.table = QTable(cols)

    def get_mjds(self):
        return self.x["stoas"]["v"] * u.day

    def get_errors(self):
        return self.x["errs"]["v"] * u.Unit(self.x["errs"]["u"])

    def get_obss(self):
        return list(self.x["tel"])

    def get_flags(self):
        return [{c["f"]: c["v"] for c in row} for row in self.x["flags"]]

    def write_TOA_file(self, f):
        f.write("FORMAT 1\n")


class Param:
    def __init__(self, v, err, frozen):
        self.value, self.uncertainty_value, self.frozen = v, err, frozen


class Astrometry:
    def __init__(self, x):
        self.x = x

    def ssb_to_psb_xyz_ICRS(self, t):
        """The direction at each of the times asked for."""
        k = [int(np.argmin(np.abs(self.x["toas"]["v"] - m))) if np.min(np.abs(self.x["toas"]["v"] - m)) < 1e-6 else -1 for m in np.atleast_1d(t.mjd)]
        return np.array([self.x["post"][i] if i >= 0 else [0.0, 0.0, 0.0] for i in k]) * u.one


class Model:
    def __init__(self, x, pars):
        self.x, self.params = x, ["PSR"] + x["set"]
        self.PSR = Param(x["prefix"] + x["body"], None, True)
        for p in x["set"]:
            v = pars.get(p, (1.0, 0.0))
            setattr(self, p, Param(v[0], v[1] if v[1] else None, p not in x["fit"]))
        lon, lat = ("RAJ", "DECJ") if x["coords"] == "eq" else ("ELONG", "ELAT")
        getattr(self, lon).quantity = x["lon"]["v"] * u.Unit(x["lon"]["u"])
        getattr(self, lat).quantity = x["lat"]["v"] * u.Unit(x["lat"]["u"])
        self.components = {"AstrometryEquatorial" if x["coords"] == "eq" else "AstrometryEcliptic": Astrometry(x)}

    def __getitem__(self, k):
        return getattr(self, k)

    def as_parfile(self):
        return "PSR " + self.PSR.value

    def get_barycentric_toas(self, toas):
        return self.x["toas"]["v"] * u.day

    def designmatrix(self, toas):
        f = ["Offset"] + list(self.x["fit"])
        return np.ones((toas.ntoas, len(f))), f, [""] * len(f)

    def barycentric_radio_freq(self, toas):
        return self.x["freqs"]["v"] * u.Unit(self.x["freqs"]["u"])


class Residuals:
    def __init__(self, toas, model):
        self.time_resids = toas.x["res"]["v"] * u.Unit(toas.x["res"]["u"])


def shows(psr, x):
    def get(f):
        try:
            v = getattr(psr, f)
        except AttributeError:
            return {"k": "none"}
        return {"k": "none"} if v is None else v
    dm, dmx = get("dm"), get("dmx")
    pl, sun = psr.planetssb, psr.sunssb
    idx = [psrdata.PLANETS.index(b["b"]) for b in x["bodies"] if b["b"] != "sun"]
    return {"k": "meta", "name": str(psr.name), "fitpars": [str(p) for p in psr.fitpars], "setpars": [str(p) for p in psr.setpars],
            "pdist": exact([float(v) for v in psr.pdist]), "dm": {"k": "num", "v": dm} if not isinstance(dm, dict) else dm,
            "dmx": {"k": "dmx", "v": [dict(par=p, fit=bool(d["fit"]), v=float(d["DMX"]), e=float(d["DMXerr"]), lo=float(d["DMXR1"]), hi=float(d["DMXR2"]))
                                      for p, d in sorted(dmx.items())]} if "k" not in dmx else dmx,
            "pos": exact(psr.pos), "theta": exact(float(psr.theta)), "phi": exact(float(psr.phi)), "toas": exact(psr.toas), "stoas": exact(psr.stoas),
            "res": exact(psr.residuals), "errs": exact(psr.toaerrs), "freqs": exact(psr.freqs), "post": exact(psr.pos_t),
            "planets": [] if pl is None else [exact(pl[:, k, :3]) for k in idx], "sun": [] if sun is None else [exact(sun[:, :3])],
            "speeds": [] if pl is None else [exact(pl[:, k, 3:]) for k in idx] if x["pkg"] == "t2" else [], "sunspeed": [] if sun is None else exact(sun[:, 3:]),
            "tel": [str(t) for t in psr.telescope], "flags": [dict(f=str(k), v=[str(a) for a in v]) for k, v in sorted(psr.flags.items())],
            "kept": sorted(a for a in ("t2pulsar", "model", "pint_toas", "parfile", "timfile") if hasattr(psr, a))}


def released(psr, x):
    """What the pulsar shows, and what it shows after each of the releases."""
    o = shows(psr, x)
    plain = lambda p: {k: v for k, v in shows(p, x).items() if k != "kept"}
    first, o["rel"] = plain(psr), []
    for op in x["rel"]:
        try:
            w = {"k": "rel", "back": True, "backkept": []}
            if op == "drop":
                (psr.drop_tempopsr if x["pkg"] == "t2" else psr.drop_pintpsr)()
            else:
                with tempfile.TemporaryDirectory() as d:
                    psr.to_pickle(d)
                    with open(os.path.join(d, psr.name + ".pkl"), "rb") as f:
                        b = pickle.load(f)
                w["back"], w["backkept"] = bool(plain(b) == first), shows(b, x)["kept"]
            w["same"], w["kept"] = bool(plain(psr) == first), shows(psr, x)["kept"]
        except Exception as e:
            w = engine.exc(e)
        o["rel"].append(w)
    return o


def event(sc, r):
    x, pars = describe(sc, r)
    pulsar.resids = Residuals
    from astropy.units import quantity      # noqa: F401    as PINT's import of units leaves it
    if sc["pkg"] == "t2":
        make = lambda: pulsar.Tempo2Pulsar(t2(x, pars), drop_t2pulsar=not sc["keep"], planets=sc["planets"])
    else:
        make = lambda: pulsar.PintPulsar(Toas(x), Model(x, pars), drop_pintpsr=not sc["keep"], planets=sc["planets"])
    obs = attempt(make, lambda p: released(p, x))
    src = dict(x)
    for k in ("toas", "stoas", "res", "errs", "freqs", "lon", "lat", "obs"):
        src[k] = dict(v=exact(x[k]["v"]), u=x[k]["u"])
    src["post"] = exact(x["post"])
    src["bodies"] = [dict(b=b["b"], u=b["u"], v=exact(b["v"]), vel=exact(b["vel"])) for b in x["bodies"]]
    return {"op": "meta", "src": src, "obs": obs}
