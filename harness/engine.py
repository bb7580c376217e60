"""Builds real enterprise models from the model records of the specification,
drives them, and records what they answer (the events of spec/Trace.tla)."""
import contextlib
import decimal
import io
import json
import logging
import os
import signal
import sys
import tempfile
import warnings
import zlib

import numpy as np

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)

from enterprise.pulsar import Tempo2Pulsar                                    # noqa: E402
from enterprise.signals import deterministic_signals, gp_bases, gp_priors     # noqa: E402
from enterprise.signals import gp_signals, parameter, selections              # noqa: E402
from enterprise.signals import signal_base, utils, white_signals              # noqa: E402
from enterprise.signals.parameter import function                             # noqa: E402
from enterprise.signals.selections import Selection                           # noqa: E402

DAY = 86400.0


# ---- JSON --------------------------------------------------------------------
def enc(x):
    """Numbers as strings (exact), integers and booleans as they are, no nulls."""
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (float, np.floating)):
        return repr(float(x))
    if isinstance(x, (int, np.integer)):
        return int(x) if abs(int(x)) < 2 ** 31 else str(int(x))
    if isinstance(x, (str, np.str_)):
        return str(x)
    if isinstance(x, bytes):
        return x.decode()
    if isinstance(x, dict):
        times = ("toas", "stoas") if "bf" in x and "fit" in x else ()      # of a pulsar: phases magnify the smallest rounding
        return {str(k): [str(decimal.Decimal(float(t))) for t in v] if k in times else enc(v) for k, v in x.items() if v is not None}
    if isinstance(x, np.ndarray):
        return enc(x.tolist())
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    raise TypeError("cannot record {!r}".format(type(x)))


class Timeout(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    def onalarm(*_):
        raise Timeout("no answer within {} s".format(seconds))
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(seconds))
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def exc(e):
    return {"k": "exc", "v": "{}: {}".format(type(e).__name__, str(e)[:200])}


def num(x):
    if isinstance(x, np.ndarray) and x.size != 1:
        return {"k": "array of shape {}".format(x.shape)}
    try:
        return {"k": "num", "v": float(np.asarray(x).reshape(()))}
    except Exception as e:
        return exc(e)


def dense(x):
    return np.asarray(x.todense()) if hasattr(x, "todense") else np.asarray(x)


def vec(x):
    x = dense(x)
    if x.ndim != 1:
        return {"k": "array of shape {}".format(x.shape)}
    return {"k": "vec", "v": x.astype(float)}


def mat(x):
    x = dense(x)
    if x.ndim != 2:
        return {"k": "array of shape {}".format(x.shape)}
    return {"k": "mat", "v": x.astype(float)}


def attempt(fn, conv=lambda x: x, **extra):
    """Observation of a call: its converted result, or the exception."""
    try:
        o = conv(fn())
    except Timeout:
        raise
    except NotImplementedError as e:
        o = {"k": "unsupported", "v": str(e)[:200]}
    except Exception as e:
        o = exc(e)
    return dict(o, **extra)


# ---- pulsars -------------------------------------------------------------------
class Par:
    def __init__(self, val, err=0.0):
        self.val, self.err = val, err


class T2:
    """Stand-in for a libstempo.tempopulsar, with the attributes enterprise reads."""

    def __init__(self, raw):
        n = len(raw["toas"])
        r = np.random.RandomState(raw.get("seed", 0))
        self.name = raw["name"]
        self._t = np.asarray(raw["toas"], float) / DAY
        self.stoas = np.asarray(raw.get("stoas", raw["toas"]), float) / DAY
        self._r = np.asarray(raw["res"], float)
        self.toaerrs = np.asarray(raw["errs"], float) * 1e6
        self._M = np.asarray(raw["M"], float)
        self._f = np.asarray(raw["freqs"], float) * 1e6
        self._fl = {k: np.array(v) for k, v in raw["flags"].items()}
        self._tel = np.array([t.encode() for t in raw.get("tel", ["GBT"] * n)])
        pos = np.asarray(raw["pos"], float)
        self.psrPos = np.asarray(raw.get("post", np.tile(pos, (n, 1))), float)
        for p in "mercury venus earth mars jupiter saturn uranus neptune pluto".split():
            setattr(self, p + "_ssb", r.randn(n, 6))
        self.sun_ssb = r.randn(n, 6)
        if "planets" in raw:
            for b, p in enumerate("earth jupiter saturn uranus neptune".split()):
                getattr(self, p + "_ssb")[:, :3] = np.asarray(raw["planets"], float)[:, b]
        self._fit = list(raw.get("fit", ["P%d" % i for i in range(1, self._M.shape[1])]))
        self._set = list(raw.get("set", ["RAJ", "DECJ"]))
        self._d = {"RAJ": Par(np.arctan2(pos[1], pos[0])), "DECJ": Par(np.arcsin(pos[2])), "F0": Par(1.0)}
        for i in range(1, 10):
            self._d["DMASSPLANET%d" % i] = Par(0.0)
        for k, v in raw.get("pars", {}).items():
            self._d[k] = Par(*v)

    def toas(self):
        return self._t

    def residuals(self):
        return self._r

    def designmatrix(self):
        return self._M

    def ssbfreqs(self):
        return self._f

    def telescope(self):
        return self._tel

    def pars(self, which="fit"):
        return list(self._fit if which == "fit" else self._set)

    def flags(self):
        return list(self._fl)

    def flagvals(self, k):
        return self._fl[k]

    def __getitem__(self, k):
        return self._d[k]

    def formbats(self):
        pass


def make_psr(raw, **kw):
    psr = Tempo2Pulsar(T2(raw), **dict({"planets": True}, **kw))
    return psr


def record(psr, ephem=False, orb=None):
    """The pulsar as the specification sees it, from its public properties."""
    d = dict(
        name=psr.name, toas=psr.toas, errs=psr.toaerrs, res=psr.residuals, freqs=psr.freqs,
        bf=psr.backend_flags, tel=psr.telescope, flags={k: psr.flags[k] for k in psr.flags},
        M=psr.Mmat, pos=psr.pos, fit=list(psr.fitpars))
    if ephem:
        d["planets"] = psr.planetssb[:, [2, 4, 5, 6, 7], :3]
        d["post"] = psr.pos_t
        if orb is not None:
            d["orb"] = orb
    # plain Python values from here on
    return json.loads(json.dumps(d, default=lambda x: x.tolist() if hasattr(x, "tolist") else x.decode()))


def restore(psr):
    """The pulsar as read back from a file, which hands out its own arrays and no copies of them."""
    from enterprise.pulsar import FeatherPulsar
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "p.feather")
        with contextlib.redirect_stdout(io.StringIO()):
            FeatherPulsar.save_feather(psr, f)
            return FeatherPulsar.read_feather(f)


# ---- functions used in models ----------------------------------------------------
@function
def lin(a=0, b=0):
    return a + 2 * b


@function
def scale(f, s=1):
    return f * s ** 2


@function
def dense_prior(f, s=1, rho=0):
    f = np.asarray(f)
    phi = rho * np.ones((len(f), len(f)))
    np.fill_diagonal(phi, 1)
    return s ** 2 * np.sqrt(np.outer(f, f)) * phi


@function
def ramp(toas, a=0, b=0, t0=53000):
    return a + b * (toas - t0 * 86400) / 31557600


@function
def taylor(toas, a=(0.0,), t0=53000):
    y = (toas - t0 * 86400) / 31557600
    return sum(a[k] * y**k for k in range(len(a)))


@function
def drift(toas, a=0):
    return a * (toas - toas.min(initial=np.inf)) / 31557600


@function
def disp(freqs, a=0):
    return a * (1400 / freqs) ** 2


@function
def mix_orf(pos1, pos2, w=1):
    if np.all(pos1 == pos2):
        return 1.0
    x = (1 - np.dot(pos1, pos2)) / 2
    return w * (1.5 * x * np.log(x) - 0.25 * x + 0.5)


SPECTRA = dict(powerlaw=gp_priors.powerlaw, genmodes=gp_priors.powerlaw_genmodes, turnover=gp_priors.turnover,
               turnover_knee=gp_priors.turnover_knee, broken=gp_priors.broken_powerlaw, free=gp_priors.free_spectrum,
               tproc=gp_priors.t_process, tproc_adapt=gp_priors.t_process_adapt, infinite=gp_priors.infinitepower,
               tmprior=utils.tm_prior, ecorr=gp_signals.ecorr_basis_prior, sigma2=utils.physicalephem_spectrum,
               scale=scale, dense=dense_prior)
BASES = dict(red=gp_bases.createfourierdesignmatrix_red, dm=gp_bases.createfourierdesignmatrix_dm,
             dm_tn=gp_bases.createfourierdesignmatrix_dm_tn, chrom=gp_bases.createfourierdesignmatrix_chromatic,
             env=gp_bases.createfourierdesignmatrix_env, ephem=gp_bases.createfourierdesignmatrix_ephem,
             general=gp_bases.createfourierdesignmatrix_general, lininterp=function(utils.linear_interp_basis),
             quant=utils.create_quantization_matrix)
def pattern(pos, gwtheta, gwphi):
    """An antenna pattern other than the default."""
    return pos[0] * np.cos(gwtheta) + 0.1 * gwphi, pos[1] * np.sin(gwtheta) - pos[2] * 0.2


WAVES = dict(bwm=utils.bwm_delay, bwmfn=lambda **kw: utils.bwm_delay(antenna_pattern_fn=pattern, **kw), ramp=ramp, disp=disp, taylor=taylor, drift=drift)
ORFS = dict(hd=utils.hd_orf, dipole=utils.dipole_orf, monopole=utils.monopole_orf, mix=mix_orf)


def make_poly(cols, labels, kw):
    cols, labels = np.array(cols, float).reshape(len(labels), -1), np.array(labels, float)

    @function
    def poly(index_, c=1):
        return c * cols[:, index_].T, labels.copy()
    return poly(**kw)


SELS = {}


def make_selection(s):
    """One selection class per description, used for every signal and pulsar of the process."""
    key = json.dumps(s, sort_keys=True)
    if key not in SELS:
        SELS[key] = new_selection(s)
    return SELS[key]


def new_selection(s):
    k = s["s"]
    if s.get("via") == "dict":       # the same by way of custom_backends_dict
        names = s.get("names")
        return Selection(selections.custom_backends_dict(names[0] if names and len(names) == 1 else list(names) if names else None))
    fn = dict(none=selections.no_selection, backend=selections.by_backend, nanograv=selections.nanograv_backends,
              telescope=selections.by_telescope, band=selections.by_band, frontend=selections.by_frontend,
              half=selections.cut_half).get(k)
    if fn is None:
        if k == "custom":
            fn = selections.custom_backends(s["names"][0] if s.get("bare") else list(s["names"]))
        elif k == "customall":
            fn = selections.custom_backends(None)
        elif k == "dict":
            d = s["dict"]
            fn = selections.custom_backends_dict({f: (None if d[f]["all"] else d[f]["names"][0] if d[f].get("bare") else list(d[f]["names"]))
                                                  for f in sorted(d, key=lambda f: d[f]["pos"])})
        elif k == "freq":
            fn = selections.by_freq_band({b: list(v) for b, v in s["bands"].items()} if "bands" in s else None)
        elif k == "index":
            fn = selections.by_index(s["name"], list(s["idx"]))
    return Selection(backwards(fn) if s.get("rev") else fn)


def backwards(fn):
    """The same groups, found in another order."""
    def groups(psr):
        m = Selection(fn)(psr).masks
        return {k: m[k] for k in sorted(m, reverse=True)}
    return groups


def exp_pdf(value, lam=1):
    return np.where(np.asarray(value) >= 0, lam * np.exp(-lam * np.asarray(value)), 0.0)[()]


def exp_logpdf(value, lam=1):
    return np.where(np.asarray(value) >= 0, np.log(lam) - lam * np.asarray(value), -np.inf)[()]


def exp_sampler(lam=1, size=None):
    return np.random.exponential(1.0 / np.asarray(lam, float), size)


def exp_ppf(value, lam=1):
    return -np.log1p(-np.asarray(value)) / lam


def user_prior(log):
    def make(lam=1, size=None):
        kw = {"logprior": parameter.Function(exp_logpdf, lam=lam)} if log else {"prior": parameter.Function(exp_pdf, lam=lam)}
        return parameter.UserParameter(sampler=exp_sampler, ppf=parameter.Function(exp_ppf, lam=lam), size=size, **kw)
    return make


PRIORS = dict(UE=user_prior(False), UL=user_prior(True), U=parameter.Uniform, N=parameter.Normal, LE=parameter.LinearExp, TN=parameter.TruncNormal,
              IG=gp_priors.InvGamma)


class Model:
    """Real enterprise objects for a model record; psrs: the pulsar objects."""

    def __init__(self, m, psrs, build=True, lnlikelihood=None):
        self.m, self.psrs = m, psrs
        for p in psrs:
            p.index_ = np.arange(len(p.toas))
        self.inst = {}
        self.cls = [None] * len(m["sigs"])
        for k in range(len(m["sigs"])):
            self.cls[k] = self.sig(m["sigs"][k])
        self.pta = None
        if build:
            self.pta = self.array(lnlikelihood)

    @classmethod
    def over(cls, M, pta, arr):
        """The same definitions and pulsars, another array of instances."""
        new = cls.__new__(cls)
        new.m, new.psrs, new.inst, new.cls = dict(M.m, arr=arr), M.psrs, M.inst, M.cls
        new.pta, new.scs = pta, list(pta.pulsarmodels)
        return new

    # points, as enterprise takes them: every time new objects or, as samplers do, one object changed in place
    def inplace(self):
        if "_inplace" not in self.__dict__:
            self._inplace = zlib.crc32(json.dumps(self.m["sigs"], default=str).encode()) % 2 == 1
            self._point, self._vectors = {}, {}
        return self._inplace

    def params(self, par):
        p = pyparams(par)
        if not self.inplace():
            return p
        live = self._point
        for k in set(live) - set(p):
            del live[k]
        for k, v in p.items():
            if isinstance(v, np.ndarray) and isinstance(live.get(k), np.ndarray) and live[k].shape == v.shape:
                live[k][...] = v
            else:
                live[k] = v
        return live

    def vector(self, free, par):
        xs = flat(free, par)
        if not self.inplace():
            return xs
        live = self._vectors.setdefault(len(xs), np.array(xs))
        live[...] = xs
        return live

    def array(self, lnlikelihood=None):
        kw = {} if lnlikelihood is None else {"lnlikelihood": lnlikelihood}
        self.scs = [self.collection(a) for a in range(len(self.m["arr"]))]
        return signal_base.PTA(self.scs, **kw)

    def collection(self, a):
        e = self.m["arr"][a]
        tot = signal_base.SignalCollection([self.cls[e["s"][0] - 1]])
        for k in e["s"][1:]:
            tot = tot + self.cls[k - 1]
        return tot(self.psrs[e["p"] - 1])

    # parameters
    def par(self, ps):
        t = ps["t"]
        if t == "lit":
            return self.lit(ps["v"])
        if t == "none":
            return None
        if t == "fn":
            return lin(**{k: self.par(v) for k, v in ps["kw"].items()})
        if "name" in ps and ps["name"] in self.inst:
            return self.inst[ps["name"]]
        if t == "const":
            c = parameter.Constant(ps["v"]) if "v" in ps else parameter.Constant()
        else:
            kw = {k: self.par(v) for k, v in ps["pr"]["kw"].items()}
            if ps.get("size"):
                kw["size"] = ps["size"]
            c = PRIORS[ps["pr"]["d"]](**kw)
        if "name" in ps:
            c = self.inst[ps["name"]] = c(ps["name"])
        return c

    @staticmethod
    def lit(v):
        return np.array(v, float) if isinstance(v, list) and v and not isinstance(v[0], str) else v

    def kw(self, fs):
        return {k: self.par(v) for k, v in fs["kw"].items() if v["t"] != "none"}

    def prior(self, fs):
        return SPECTRA[fs["f"]](**self.kw(fs))

    def basis(self, fs):
        if fs["f"] == "poly":
            return make_poly(fs["cols"], fs["labels"], self.kw(fs))
        if fs["f"] == "tm":
            ex = fs.get("exclude") or None
            return gp_signals.get_timing_model_basis(use_svd=fs["tm"] == "svd", normed=self.normed(fs), idx_exclude=ex)
        return BASES[fs["f"]](**self.kw(fs))

    @staticmethod
    def normed(fs):
        return {"raw": False, "normed": True, "svd": True}.get(fs["tm"], np.array(fs.get("norms", []), float))

    def orf(self, fs):
        if fs["f"] == "anis":
            return anis(fs, self)
        return ORFS[fs["f"]](**self.kw(fs))

    def sig(self, s):
        k = s["k"]
        name = s.get("name", "")
        sel = make_selection(s.get("sel", {"s": "none"}))
        coef = bool(s.get("coef", False))
        if "coefname" in s:       # a common process with coefficients given as a parameter
            coef = self.par({"t": "par", "name": s["coefname"], "pr": s["coefpr"], "size": s["coefsize"]})
        opt = {}
        if "combine" in s:
            opt["combine"] = s["combine"]
        via = s.get("via", "")
        if k == "mn":
            return white_signals.MeasurementNoise(efac=self.par(s["efac"]), log10_t2equad=self.par(s["eq"]) if "eq" in s else None,
                                                  selection=sel, name=name)
        if k == "tneq":
            return white_signals.TNEquadNoise(log10_tnequad=self.par(s["eq"]), selection=sel, name=name)
        if k == "eck":
            return white_signals.EcorrKernelNoise(log10_ecorr=self.par(s["ec"]), selection=sel, method=s["method"], name=name)
        if k == "gp":
            b = s["basis"]
            if b["f"] == "tm":
                return gp_signals.TimingModel(coefficients=coef, name=name, use_svd=b["tm"] == "svd", normed=self.normed(b),
                                              idx_exclude=b.get("exclude") or None)
            if via == "fourier":
                kw = self.kw(b)
                kw["components"] = kw.pop("nmodes", 30)
                return gp_signals.FourierBasisGP(self.prior(s["prior"]), coefficients=coef, selection=sel, name=name, **kw, **opt)
            if via == "ecorr":
                return gp_signals.EcorrBasisModel(log10_ecorr=self.par(s["prior"]["kw"]["log10_ecorr"]), coefficients=coef,
                                                  selection=sel, name=name)
            return gp_signals.BasisGP(self.prior(s["prior"]), self.basis(b), coefficients=coef, selection=sel, name=name, **opt)
        if k == "mtm":
            b = s["basis"]
            return gp_signals.MarginalizingTimingModel(name=name, use_svd=b["tm"] == "svd", normed=self.normed(b))
        if k == "cgp":
            b = s["basis"]
            if b["f"] == "physeph":
                opt.pop("combine", None)
                full = ["frame_drift_rate", "d_jupiter_mass", "d_saturn_mass", "d_uranus_mass", "d_neptune_mass",
                        "jup_orb_elements", "sat_orb_elements"]
                return gp_signals.FourierBasisCommonGP_physicalephem(name=name, coefficients=coef,
                                                                     model=b.get("model", "setIII"), **{x: b["sig"].get(x) for x in full})
            if via == "ephem":
                kw = self.kw(b)
                return gp_signals.FourierBasisCommonGP_ephem(self.prior(s["prior"]), kw["nmodes"], kw["Tspan"], name=name)
            if via == "fourier" or s.get("autospan"):
                kw = self.kw(b)
                kw["components"] = kw.pop("nmodes", 30)
                return gp_signals.FourierBasisCommonGP(self.prior(s["prior"]), self.orf(s["orf"]), coefficients=coef, name=name,
                                                       **kw, **opt)
            return gp_signals.BasisCommonGP(self.prior(s["prior"]), self.basis(b), self.orf(s["orf"]), coefficients=coef,
                                            name=name, **opt)
        if k == "det":
            return deterministic_signals.Deterministic(WAVES[s["wf"]["f"]](**self.kw(s["wf"])), selection=sel, name=name)
        if k == "eph":
            full = ["frame_drift_rate", "d_jupiter_mass", "d_saturn_mass", "d_uranus_mass", "d_neptune_mass",
                    "jup_orb_elements", "sat_orb_elements"]
            kw = {x: self.par(s["wf"]["kw"][x]) if x in s["wf"]["kw"] else False for x in full}
            kw = {x: (True if s.get("defaults") and x in s["wf"]["kw"] else v) for x, v in kw.items()}
            return deterministic_signals.PhysicalEphemerisSignal(use_epoch_toas=s["epochs"], name=name,
                                                                 model=s.get("model", "setIII"), **kw)
        if k == "wtm":
            return gp_signals.WidebandTimingModel(
                dmefac=self.par(s["dmefac"]), log10_dmequad=self.par(s["dmequad"]) if "dmequad" in s else None,
                dmjump=self.par(s["dmjump"]) if "dmjump" in s else None, selection=sel,
                dmjump_selection=make_selection(s.get("jsel", {"s": "none"})), dmjump_ref=s.get("ref"), name=name)
        raise ValueError(k)

    def signal(self, a, j):
        """The j-th signal (0-based) of pulsar a's model."""
        return self.pta.pulsarmodels[a].signals[j]


def anis(fs, model):
    kw = dict(anis_basis=np.array(fs["basis"], float), psrs_pos=[np.array(p, float) for p in fs["pos"]], lmax=fs["lmax"])
    kw["params"] = model.par(fs["kw"]["params"]) if "params" in fs["kw"] else 0.0
    return utils.anis_orf(**kw)


def flat(free, par):
    """A point as one vector, in the order of the parameters."""
    return np.concatenate([np.atleast_1d(np.array(par[p["name"]], float)) for p in free] or [np.zeros(0)])


def pyparams(par):
    """A point as enterprise takes it."""
    return {k: (np.array(v, float) if isinstance(v, list) else float(v)) for k, v in par.items()}
