"""Requests that are supported or not (scenarios of spec/RefuseGen.tla)."""
import numpy as np
from enterprise.signals import gp_bases, gp_priors, gp_signals, parameter, signal_base, utils, white_signals
from enterprise.signals.parameter import Function

import drive
import engine
import fns
from engine import attempt
from fns import exact


def answered(o):
    return {"k": "ok"}


def events(c, r):
    return [KINDS[c["kind"]](c, r)]


def out(c, obs, **facts):
    return {"op": "refuse", "x": dict(c, **facts), "obs": obs}


def simple(r):
    """A parameter point and models of two pulsars: separate processes, or one common process."""
    psrs = [fns.pulsar(r), fns.pulsar(r)]
    for i, p in enumerate(psrs):
        p.name = "J000%d" % i
    return psrs


def pta(r, common=False, extra=None):
    psrs = simple(r)
    pl = utils.powerlaw(log10_A=parameter.Uniform(-15, -12), gamma=parameter.Uniform(1, 6))
    s = white_signals.MeasurementNoise(efac=parameter.Uniform(0.5, 2)) + gp_signals.FourierBasisGP(pl, components=3, name="red")
    if common:
        s += gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), components=2, Tspan=float(3e8), name="gw", combine=False)
    if extra:
        s += extra
    return psrs, signal_base.PTA([s(p) for p in psrs])


def point(pta, r):
    return {p.name: float(r.uniform(-14, -13)) if "log10" in p.name else float(r.uniform(1, 2)) for p in pta.params}


def number(f):
    try:
        return {"k": "num", "v": repr(float(f()))}
    except Exception as e:
        return {"k": "exc", "v": type(e).__name__}


def around(ev, f, ask):
    """The request, and an answer of the model before and after it."""
    b = number(f)
    ev["obs"] = ask()
    return dict(ev, before=b, after=number(f))


def svd(c, r):
    psr = fns.pulsar(r)
    n = len(psr.toas)
    psr._designmatrix = r.normal(size=(n, 2))
    normed = {"true": True, "false": False, "array": r.uniform(1, 2, 2)}[c["normed"]]
    f = getattr(gp_signals, c["class"])
    def use():
        s = f(use_svd=c["svd"], normed=normed)(psr)
        return s.get_basis({}) if c["class"] == "TimingModel" else s.get_ndiag({})
    return out(c, [attempt(use, answered, how=c["class"])])


def ecorr(c, r):
    psr = fns.pulsar(r)
    def use():
        s = white_signals.EcorrKernelNoise(log10_ecorr=parameter.Constant(-6.5), method=c["method"])(psr)
        return s.get_ndiag({})
    return out(c, [attempt(use, answered, how="EcorrKernelNoise with method " + c["method"])])


def linexp(c, r):
    n = 3 if "vector" in (c["lo"], c["hi"]) else int(r.choice([0, 2]))
    lo = r.uniform(-6, -4, n) if c["lo"] == "vector" else float(r.uniform(-6, -4))
    gap = float(r.uniform(0.5, 2))
    one = np.arange(3) == r.randint(3)
    def far(a):     # a bound that is below, equal to, or above the lower one in all or some components
        big, k = np.max(a) + gap, c["rel"].replace("some ", "")
        bad = {"below": big, "equal": None, "above": np.min(a) - gap}[k]
        if c["hi"] != "vector":
            if c["rel"].startswith("some"):     # the lower bound is a vector
                return float(np.max(a)) if k == "equal" else float((np.max(a) + np.sort(a)[-2]) / 2)
            return float(np.max(a) if bad is None else bad)
        full = np.asarray(a, float) * np.ones(3) if bad is None else bad * np.ones(3)
        return np.where(one, full, big) if c["rel"].startswith("some") else full
    hi = far(lo)
    if c["rel"] == "equal" and c["lo"] == "vector" and c["hi"] != "vector":
        lo = np.full(3, hi)
    vals, par = {}, lambda k, v: v
    def given(k, v, how):
        if how != "parameter":
            return v
        vals[k] = v
        return parameter.Uniform(-20, 20)(k)
    p = parameter.LinearExp(given("lo", lo, c["lo"]), given("hi", hi, c["hi"]), size=n or None)("x")
    v = (np.full(n, -4.5) if n else -4.5)
    def use():
        if c["ask"] == "sample":
            np.random.seed(r.randint(1 << 31))
            return p.sample(params=vals)
        if c["ask"] == "model":
            psr = fns.pulsar(r)
            noise = white_signals.MeasurementNoise(efac=parameter.Constant(1.0), **({} if n else {"log10_t2equad": p}))
            rho = p if n else parameter.Uniform(-9, -4, size=3)("rho")
            sig = noise + gp_signals.FourierBasisGP(gp_priors.free_spectrum(log10_rho=rho), components=max(n, 3))
            m = signal_base.PTA([sig(psr)])
            if not n:
                vals["rho"] = np.full(3, -6.0)
            return m.get_lnprior(dict(vals, x=v))
        return {"pdf": p.get_pdf, "logpdf": p.get_logpdf}[c["ask"]](v, params=vals)
    f = lambda a: {"many": np.ndim(a) > 0, "v": exact(a)}
    with np.errstate(all="ignore"):
        return out(c, [attempt(use, answered, how="LinearExp between {} and {}, {}".format(lo, hi, c["ask"]))], n=max(n, 1), pmin=f(lo), pmax=f(hi))


def flat(value, a=0, b=1):
    return (value > a) * (value < b) / (b - a)


def logflat(value, a=0, b=1):
    return np.log(flat(value, a, b))


def draw(a, b, size=None):
    return np.random.uniform(a, b, size)


def quantile(value, a, b):
    return a + value * (b - a)


def unnamed(c, r):
    d = {"Uniform": lambda: parameter.Uniform(-1, 2), "Normal": lambda: parameter.Normal(0, 1), "TruncNormal": lambda: parameter.TruncNormal(0, 1, -2, 2),
         "LinearExp": lambda: parameter.LinearExp(-1, 2), "User": lambda: parameter.UserParameter(prior=Function(flat, a=-1, b=2), sampler=draw)}[c["d"]]()
    if c["named"]:
        d = d("x")
    np.random.seed(r.randint(1 << 31))
    use = {"pdf": lambda: d.get_pdf(0.3), "logpdf": lambda: d.get_logpdf(0.3), "sample": lambda: d.sample() if c["named"] else d.sample(d)}[c["ask"]]
    return out(c, [attempt(use, answered, how="{} of {}".format(c["ask"], c["d"]))])


def user(c, r):
    kw = {}
    for k, f in (("prior", flat), ("logprior", logflat), ("ppf", quantile)):
        if c[k]:
            kw[k] = Function(f, a=0.0, b=float(r.uniform(1, 3)))
    if c["sampler"]:
        kw["sampler"] = draw
    cls = parameter.UserParameter(**kw)
    np.random.seed(r.randint(1 << 31))
    use = {"name": lambda: cls("x"), "pdf": lambda: cls("x").get_pdf(0.3), "sample": lambda: cls("x").sample(), "ppf": lambda: cls("x").get_ppf(0.3)}[c["ask"]]
    return out(c, [attempt(use, answered, how="UserParameter with {}: {}".format(sorted(kw), c["ask"]))])


def normal(c, r):
    A = r.normal(size=(3, 3))
    s, n = {"number": (0.5, None), "vector": (r.uniform(0.5, 2, 3), 3), "matrix": (A @ A.T + np.eye(3), 3)}[c["sigma"]]
    p = parameter.Normal(np.zeros(3) if n else 0.0, s, size=n)("x")
    v = np.full(3, 0.3) if n else 0.3
    np.random.seed(r.randint(1 << 31))
    return out(c, [attempt({"pdf": lambda: p.get_pdf(v), "sample": p.sample, "ppf": lambda: p.get_ppf(v)}[c["ask"]], answered, how="Normal, sigma a " + c["sigma"])])


def method(c, r):
    _, m = pta(r, c["common"])
    p = point(m, r)
    use = {"phiinv": lambda: m.get_phiinv(p, logdet=c["logdet"], method=c["method"]), "lnlikelihood": lambda: m.get_lnlikelihood(p, phiinv_method=c["method"]),
           "call": lambda: utils.ConditionalGP(m, phiinv_method=c["method"]).get_mean_coefficients(p)}[c["ask"]]
    return around(out(c, []), lambda: m.get_lnlikelihood(p), lambda: [attempt(use, answered, how="method " + c["method"])])


def span(c, r):
    psrs = simple(r)
    pl = utils.powerlaw(log10_A=parameter.Uniform(-15, -12), gamma=parameter.Uniform(1, 6))
    kw = {"Tspan": 3e8} if c["given"] else {}
    def use():
        s = gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), coefficients=c["coef"], components=2, **kw)
        m = signal_base.PTA([(s + white_signals.MeasurementNoise(efac=1.0))(q) for q in psrs])
        return m.get_phi(point(m, r)) if not c["coef"] else m.params
    return out(c, [attempt(use, answered, how="FourierBasisCommonGP")])


def local(c, r):
    _, m = pta(r, True)
    p = point(m, r)
    s = [x for x in m[0].signals if x.signal_type == ("common basis" if c["common"] else "basis")][0]
    return around(out(c, []), lambda: m.get_lnlikelihood(p), lambda: [attempt(lambda: s.get_phiinv(p), answered, how="get_phiinv of " + s.name) for _ in range(1 + c["again"])])


def twice(c, r):
    n = 6
    m = gp_signals.MarginalizingNmat(np.linalg.qr(r.normal(size=(n, 2)))[0])
    k = signal_base.ndarray_alt(r.uniform(1, 2, n))
    o = {"array": lambda: r.uniform(1, 2, n), "kernel": lambda: k, "zero": lambda: 0, "marginal": lambda: gp_signals.MarginalizingNmat(np.linalg.qr(r.normal(size=(n, 1)))[0], k),
         "number": lambda: [1, 2.5][r.randint(2)], "text": lambda: "noise"}[c["other"]]()
    return out(c, [attempt(lambda: m + o if c["side"] == "left" else o + m, answered, how="sum of a marginalizing matrix and a " + c["other"])])


def removed(c, r):
    f = {"EquadNoise": lambda: white_signals.EquadNoise(log10_equad=parameter.Uniform(-8, -5)),
         "createfourierdesignmatrix_eph": lambda: gp_bases.createfourierdesignmatrix_eph(np.arange(5.0), 3, 0.1, 0.2)}[c["f"]]
    return out(c, [attempt(f, answered, how=c["f"])])


def columns(c, r):
    psrs = simple(r)
    for p in psrs:
        p._designmatrix = r.normal(size=(len(p.toas), 2))
        p.fitpars = ["F0", "F1"]
    s = white_signals.MeasurementNoise(efac=parameter.Uniform(0.5, 2)) + gp_signals.TimingModel(use_svd=False, normed=True)
    m = signal_base.PTA([s(psrs[0])])
    p = point(m, r)
    C = utils.ConditionalGP(m, tm_params=["F1"], **({"psr": psrs[0]} if c["named"] else {}))
    np.random.seed(r.randint(1 << 31))
    use = {"mean": C.get_mean_coefficients, "processes": C.get_mean_processes, "sample": C.sample_coefficients}[c["ask"]]
    return around(out(c, []), lambda: m.get_lnlikelihood(p), lambda: [attempt(lambda: use(p), answered, how="coefficients of F1")])


KINDS = {"svd": svd, "ecorr": ecorr, "linexp": linexp, "unnamed": unnamed, "user": user, "normal": normal, "method": method, "span": span, "local": local,
         "twice": twice, "removed": removed, "columns": columns}


def shared(M, par, r):
    """Coefficients of a model whose processes may share columns, by every interface."""
    p = M.params(par)
    T = M.pta.get_basis(p)
    kept = [0 if t is None else t.shape[1] for t in T]
    ev = {"op": "refuse", "par": par, "x": {"kind": "shared", "kept": kept}, "obs": []}
    if not any(kept):
        return None
    n, g = int(r.choice([1, 3])), bool(r.rand() < 0.5)
    np.random.seed(r.randint(1 << 31))
    C = utils.ConditionalGP(M.pta)
    def ask():
        return [attempt(lambda: utils.get_coefficients(M.pta, p, n=n, common_sparse=g), answered, how="get_coefficients"),
                attempt(lambda: utils.get_coefficients(M.pta, p, variance=False), answered, how="mean of get_coefficients"),
                attempt(lambda: C.get_mean_coefficients(p), answered, how="mean coefficients"),
                attempt(lambda: C.sample_processes(p, n), answered, how="processes")]
    return around(ev, lambda: M.pta.get_lnlikelihood(p), ask)
