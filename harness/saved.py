"""Real pulsars saved to feather and pickle files and loaded back."""
import contextlib
import io
import json
import os
import pickle
import shutil

import numpy as np

import engine
import psrdata
from enterprise.pulsar import Pulsar
from enterprise.signals import gp_signals, parameter, signal_base, utils, white_signals, gp_priors, gp_bases, deterministic_signals
from enterprise.signals.selections import Selection, by_backend

NAMES = ["J1909-3744", "B1855+09", "J0030+0451"]
NOISE = {"vector": np.array([0.5, -1.25]), "integer": np.int64(7)}


def value(s):
    return NOISE[s] if s in NOISE else float(s)


def label(v):
    for k, x in NOISE.items():
        if np.shape(v) == np.shape(x) and np.all(np.asarray(v) == x):
            return k
    return repr(float(v)) if np.ndim(v) == 0 else str(v)


def typed(x):
    x = x.item() if hasattr(x, "item") else x
    return "{}:{}".format({str: "s", np.str_: "s", bool: "b", float: "f", int: "i"}.get(type(x), type(x).__name__), x)


def exact(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return repr(float(a))
    return [exact(x) for x in a]


def view(psr):
    """Everything a user reads off a pulsar."""
    d = {"name": str(psr.name)}
    for f in ("toas", "stoas", "residuals", "toaerrs", "freqs", "Mmat", "pos_t", "pos", "phi", "theta", "pdist"):
        d[f] = attempt(lambda: exact(getattr(psr, f)))
    for f in ("planetssb", "sunssb"):
        d[f] = attempt(lambda: "none" if getattr(psr, f) is None else exact(getattr(psr, f)))
    for f in ("telescope", "backend_flags"):
        d[f] = attempt(lambda: [str(x) for x in getattr(psr, f)])
    for f in ("fitpars", "setpars"):
        d[f] = attempt(lambda: [str(x) for x in getattr(psr, f)])
    d["dm"] = "none" if getattr(psr, "dm", None) is None else repr(float(psr.dm))
    dmx = getattr(psr, "dmx", None)
    d["dmx"] = "none" if dmx is None else {str(k): {a: json.dumps(b) for a, b in v.items()} for k, v in dmx.items()}
    fl = attempt(lambda: {"_" + str(k): [typed(x) for x in v] for k, v in psr.flags.items()})
    d["flags"] = fl
    d["noise"] = {str(k): label(v) for k, v in (getattr(psr, "noisedict", None) or {}).items()}
    return d


def shown(psr):
    return {k: v if k == "noise" or isinstance(v, str) else json.dumps(v, sort_keys=True) for k, v in view(psr).items()}


def attempt(fn):
    try:
        return fn()
    except Exception as e:
        return "{}: {}".format(type(e).__name__, str(e)[:120])


def pulsars(scn, r):
    out = []
    for p in range(scn["npsr"]):
        n = int(r.randint(4, 8))
        kind = ["t2", "pint"][r.randint(2)]
        pool = [{"f": "A"}, {"f": "Bb", "fe": "R1", "be": "X"}, {"": "e", "f": "A"}, {"toas": "1", "Mmat_0": "x", "planetssb_0_0": "y"}, {"_x": "u", "g": "g g"},
                {"f": "A", "pn": "3"}]
        if kind == "t2":                 # record arrays have named fields only
            pool = [{k: v for k, v in f.items() if k} for f in pool]
        nc = int(r.choice([2, 3, 12]))
        tab = [dict(t=int(r.randint(1, 9)), f=pool[r.randint(len(pool))], nz=[True] + [bool(r.rand() < .8) for _ in range(nc - 1)]) for k in range(n)]
        rows, fit = psrdata.table({"tab": tab}, r)
        kw = {}
        if kind == "t2":
            u = r.rand()
            if u < 0.6:
                par = {"DM": (float(np.round(r.uniform(3, 40), 5)), 0.001)}
                st = ["RAJ", "DECJ", "F0", "DM"]
                if u < 0.4:
                    for k in (1, 2):
                        par["DMX_000%d" % k] = (r.randn() * 1e-3, 1e-4)
                        par["DMXR1_000%d" % k] = (52999.0 + k, 0.0)
                        par["DMXR2_000%d" % k] = (53000.0 + k, 0.0)
                        st.append("DMX_000%d" % k)
                kw = dict(pars=par, set=st)
            kw["planets"] = bool(r.rand() < 0.85)
        v = r.randn(3)
        psr = psrdata.make(kind, NAMES[p], rows, fit, v / np.linalg.norm(v), bool(r.rand() < 0.7), **kw)
        if kind == "pint":
            for name, vals in (("w", np.round(r.randn(n), 3)), ("k", r.randint(0, 9, n)), ("cut", r.rand(n) < 0.5)):
                if r.rand() < 0.5:
                    psr.set_flags(name, vals)
        out.append(psr)
    return out


def models(psr):
    """Likelihoods of a few models on a pulsar, without free parameters."""
    C = parameter.Constant
    out = {}

    def ask(name, make):
        def go():
            pta = signal_base.PTA([make()(psr)])
            return pta.get_lnlikelihood({})
        out[name] = engine.attempt(go, engine.num)
        if out[name]["k"] == "exc":
            out[name] = {"k": "exc"}
    wn = lambda: white_signals.MeasurementNoise(efac=C(1.1), selection=Selection(by_backend))
    ask("white and ECORR", lambda: wn() + white_signals.EcorrKernelNoise(log10_ecorr=C(-6.5), selection=Selection(by_backend)))
    ask("timing model", lambda: wn() + gp_signals.TimingModel(use_svd=True))
    ask("red noise", lambda: wn() + gp_signals.FourierBasisGP(spectrum=gp_priors.powerlaw(log10_A=C(-13.0), gamma=C(3.0)), components=2, Tspan=1e7))
    ask("correlated", lambda: wn() + gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=C(-13.0), gamma=C(3.0)), utils.hd_orf(), components=2, Tspan=1e7))
    ask("memory", lambda: wn() + deterministic_signals.Deterministic(utils.bwm_delay(log10_h=C(-12.0), cos_gwtheta=C(0.1), gwphi=C(1.0), gwpol=C(0.3), t0=C(53000.2))))
    ask("ephemeris", lambda: wn() + deterministic_signals.PhysicalEphemerisSignal(
        frame_drift_rate=C(1e-10), d_jupiter_mass=C(1e-10), d_saturn_mass=C(1e-11), d_uranus_mass=C(0.0), d_neptune_mass=C(0.0), inc_jupiter_orb=False, inc_saturn_orb=False))
    return out


def history(scn, r, path):
    objs = pulsars(scn, r)
    data = [{k: v for k, v in shown(o).items() if k != "noise"} for o in objs]
    lnl = [models(o) for o in objs]
    ev = []
    for a in scn["ops"]:
        e, err = dict(a), ""
        nd = {k: value(v) for k, v in (a.get("noise") or {}).items()} if "noise" in a else None
        if "noise" in a:
            e["noise"] = a["noise"] or {}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if a["op"] == "save":
                    o, f = objs[a["o"] - 1], os.path.join(path, a["file"])
                    if hasattr(o, "to_feather"):
                        o.to_feather(f, **({} if nd is None else {"noisedict": nd}))
                    else:
                        o.save_feather(f, **({} if nd is None else {"noisedict": nd}))
                elif a["op"] == "pickle":
                    o = objs[a["o"] - 1]
                    if hasattr(o, "to_pickle"):
                        d = os.path.join(path, "pk", "deep")
                        o.to_pickle(d)
                        shutil.copy(os.path.join(d, o.name + ".pkl"), os.path.join(path, a["file"]))     # later ones go to the same place
                    else:
                        with open(os.path.join(path, a["file"]), "wb") as f:
                            pickle.dump(o, f)
                elif a["op"] == "noise":
                    objs[a["o"] - 1].noisedict = nd
                elif a["op"] == "load":
                    f = os.path.join(path, a["file"])
                    if a["file"].endswith("pkl"):
                        with open(f, "rb") as fl:
                            objs.append(pickle.load(fl))
                    else:
                        objs.append(Pulsar(f) if r.rand() < .5 else Pulsar(filepath=f))
                elif a["op"] == "model":
                    e["lnl"] = models(objs[a["o"] - 1])
        except Exception as x:
            err = "{}: {}".format(type(x).__name__, str(x)[:200])
        e["err"], e["views"] = err, [shown(o) for o in objs]
        ev.append(e)
    return {"names": NAMES[:scn["npsr"]], "npsr": scn["npsr"], "data": data, "lnl": lnl, "ops": scn["ops"], "ev": ev}
