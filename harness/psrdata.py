"""Real pulsars built from the tables of spec/PulsarData.tla, through the readers of the timing packages."""
import numpy as np

import engine
from enterprise import pulsar

DAY = 86400.0
MJD0 = 53000.0
TICK = 0.125
PLANETS = "mercury venus earth mars jupiter saturn uranus neptune pluto".split()
BODIES = ["earth", "jupiter", "saturn", "uranus", "neptune"]


def mjd(t):
    return MJD0 + TICK * t


def table(scn, r, ncol=None):
    """Fills in the numbers of a scenario's table."""
    rows = []
    fit = ["Offset"] + ["P%d" % k for k in range(1, len(scn["tab"][0]["nz"]))]
    sign = 1
    for x in scn["tab"]:
        x = dict(x, f=x["f"] or {})
        # small integers of both signs, so that columns may cancel
        M = [0.0 if not z else 1.0 if k == 0 else float(sign * k) for k, z in enumerate(x["nz"])]
        sign = -sign
        rows.append(dict(x, toa=mjd(x["t"]) * DAY, stoa=mjd(x["t"]) * DAY - 100.0 + float(np.round(r.uniform(-500, 500))),
                         res=r.randn() * 1e-6, err=r.uniform(1e-7, 1e-6), freq=float(np.round(r.uniform(400, 3000), 3)),
                         tel=["GBT", "AO", "PKS64", "ao"][r.randint(4)], post=r.randn(3), pl=r.randn(27), vel=r.randn(27), sun=r.randn(6), M=M))
    return rows, fit


class Q:
    """A quantity with a value."""

    def __init__(self, v):
        self.value = v

    def to(self, unit):
        return self.value


class PintToas:
    def __init__(self, rows):
        import astropy.constants as const
        import astropy.units as u
        from astropy.table import QTable
        self.rows = rows
        self.ntoas = len(rows)
        c = const.c.to("km/s").value
        obs = np.array([[1.0, 2.0, 3.0]] * len(rows))
        cols = {"ssb_obs_pos": obs * u.km}
        for b in ["earth", "jupiter", "saturn", "uranus", "neptune"]:
            k = PLANETS.index(b)
            pos = np.array([x["pl"][3 * k:3 * k + 3] for x in rows])
            cols["obs_%s_pos" % b] = (pos * c - obs) * u.km
        cols["obs_sun_pos"] = (np.array([x["sun"][:3] for x in rows]) * c - obs) * u.km
        self.table = QTable(cols)

    def get_mjds(self):
        return Q(np.array([x["stoa"] for x in self.rows]) / DAY)

    def get_errors(self):
        return Q(np.array([x["err"] for x in self.rows]))

    def get_obss(self):
        return [x["tel"] for x in self.rows]

    def get_flags(self):
        return [dict(x["f"]) for x in self.rows]


class PintModel:
    class Component:
        def __init__(self, rows):
            self.rows = rows

        def ssb_to_psb_xyz_ICRS(self, t):
            return Q(np.array([x["post"] for x in self.rows]))

    class Param:
        frozen = True

        def __init__(self, v):
            self.value = v

    def __init__(self, name, rows, fit, pos):
        self.PSR, self.rows, self.fit = self.Param(name), rows, fit
        self.params = ["PSR", "RAJ", "DECJ", "F0", "DM"] + fit[1:]
        self.components = {"AstrometryEquatorial": self.Component(rows)}
        self.RAJ, self.DECJ = self.angle(np.arctan2(pos[1], pos[0])), self.angle(np.arcsin(pos[2]))
        self.F0 = self.Param(100.0)
        self.DM = self.Param(15.5)
        for f in fit[1:]:
            setattr(self, f, self.Param(0.0))

    def angle(self, x):
        import astropy.units as u
        p = self.Param(x)
        p.quantity = x * u.rad
        return p

    def __getitem__(self, k):
        return getattr(self, k)

    def as_parfile(self):
        return "PSR " + self.PSR.value

    def get_barycentric_toas(self, toas):
        import astropy.units as u
        return np.array([mjd(x["t"]) for x in self.rows]) * u.day

    def designmatrix(self, toas):
        return np.array([x["M"] for x in self.rows], float), list(self.fit), [""] * len(self.fit)

    def barycentric_radio_freq(self, toas):
        return np.array([x["freq"] for x in self.rows])


class Residuals:
    def __init__(self, toas, model):
        self.time_resids = Q(np.array([x["res"] for x in toas.rows]))


def t2(name, rows, fit, pos, ecl, **kw):
    names = []
    for x in rows:
        names += [k for k in x["f"] if k not in names]
    raw = dict(name=name, toas=[0.0] * len(rows), errs=[x["err"] for x in rows], res=[x["res"] for x in rows], freqs=[x["freq"] for x in rows],
               stoas=[x["stoa"] for x in rows], tel=[x["tel"] for x in rows], M=[x["M"] for x in rows], pos=pos,
               post=[x["post"] for x in rows], fit=fit[1:], flags={k: [x["f"].get(k, "") for x in rows] for k in names})
    if ecl:
        raw["set"] = ["ELONG", "ELAT"]
        raw["pars"] = {"ELONG": (np.arctan2(pos[1], pos[0]),), "ELAT": (np.arcsin(pos[2]),)}
    raw.update(kw)
    T = engine.T2(raw)
    T._t = np.array([mjd(x["t"]) for x in rows])
    for k, p in enumerate(PLANETS):
        setattr(T, p + "_ssb", np.array([np.concatenate([x["pl"][3 * k:3 * k + 3], x["vel"][3 * k:3 * k + 3]]) for x in rows]))
    T.sun_ssb = np.array([x["sun"] for x in rows])
    return T


def make(kind, name, rows, fit, pos, sort, ecl=False, planets=True, **kw):
    if kind == "t2":
        return pulsar.Tempo2Pulsar(t2(name, rows, fit, pos, ecl, **kw), sort=sort, planets=planets)
    pulsar.resids = Residuals
    if not hasattr(pulsar.u, "quantity"):       # as PINT's import of units leaves it
        from astropy.units import quantity      # noqa: F401
    return pulsar.PintPulsar(PintToas(rows), PintModel(name, rows, fit, pos), sort=sort, planets=planets)


def expected(kind, rows):
    """The table as the specification reads it: positions (and velocities) flattened per TOA."""
    out = []
    for x in rows:
        d = {k: x[k] for k in ("t", "f", "nz", "toa", "stoa", "res", "err", "freq", "tel", "post", "M")}
        if kind == "t2":
            d["pl"] = np.array([np.concatenate([x["pl"][3 * k:3 * k + 3], x["vel"][3 * k:3 * k + 3]]) for k in range(9)]).ravel()
            d["sun"] = x["sun"]
        else:
            d["pl"] = np.array([x["pl"][3 * PLANETS.index(b):3 * PLANETS.index(b) + 3] for b in BODIES]).ravel()
            d["sun"] = x["sun"][:3]
        out.append(d)
    return out


def text(x):
    x = x.decode() if isinstance(x, bytes) else x
    return str(x) if isinstance(x, str) else repr(float(x))


def view(kind, psr):
    """Everything a pulsar shows."""
    n = len(psr.toas)
    ix = list(range(n))
    pl, sun = psr.planetssb, psr.sunssb
    if kind == "t2":
        pl, sun = pl.reshape(len(pl), -1), sun
    else:
        pl, sun = pl[:, [PLANETS.index(b) for b in BODIES], :3].reshape(len(pl), -1), sun[:, :3]
    return {"k": "view", "toas": psr.toas, "stoas": psr.stoas, "residuals": psr.residuals, "toaerrs": psr.toaerrs, "freqs": psr.freqs,
            "telescope": [text(x) for x in psr.telescope], "pos_t": psr.pos_t, "planetssb": pl, "sunssb": sun, "Mmat": psr.Mmat,
            "fitpars": [str(p) for p in psr.fitpars], "flags": {str(k): [text(x) for x in v] for k, v in psr.flags.items()},
            "backend_flags": [text(x) for x in psr.backend_flags], "isort": np.arange(n)[psr.isort], "iisort": np.arange(n)[psr.iisort],
            "pos": psr.pos, "theta": psr.theta, "phi": psr.phi}


def history(scn, kind, r, sort=None):
    """Replays operations on a real pulsar; the row for spec/PulsarTrace.tla."""
    rows, fit = table(scn, r)
    v = r.randn(3)
    pos = v / np.linalg.norm(v)
    ecl = kind == "t2" and bool(r.rand() < 0.4)
    ev = []
    psr = make(kind, "J1234+5678", rows, fit, pos, scn["sort"], ecl)
    ev.append({"op": "new", "obs": engine.attempt(lambda: view(kind, psr))})
    for op in scn["ops"]:
        op = dict(op)
        if op["op"] == "set":
            vals = np.array(op["vals"])
            if op["name"] == "new" and r.rand() < 0.4:        # numbers instead of strings
                vals = np.round(r.randn(len(vals)), 4)
                op["vals"] = [text(x) for x in vals]
            o = engine.attempt(lambda: (psr.set_flags(op["name"], vals.copy()), view(kind, psr))[1])
        elif op["op"] == "filter":
            kw = {}
            if "lo" in op:
                kw["start_time"] = mjd(op["lo"])
            if "hi" in op:
                kw["end_time"] = mjd(op["hi"])
            o = engine.attempt(lambda: (psr.filter_data(**kw), view(kind, psr))[1])
        else:
            o = engine.attempt(lambda: (psr.sort_data(), view(kind, psr))[1])
        ev.append(dict(op, obs=o))
    return {"kind": kind, "sort": scn["sort"], "ecl": ecl, "pos": pos, "fit": fit, "tab": expected(kind, rows), "ops": scn["ops"], "ev": ev}
