"""Real calls of enterprise.pulsar.Pulsar with stand-ins for the timing packages."""
import contextlib
import io
import os

import numpy as np

import engine
import psrdata
from enterprise import pulsar

TREE = {"main": [{"k": "toa", "n": 5}], "one": [], "two": []}


def rows(r, n=3):
    tab = [dict(t=k + 1, f={"f": "A"}, nz=[True, True]) for k in range(n)]
    return psrdata.table({"tab": tab}, r)


class World:
    """Files and stand-ins of one scenario."""

    def __init__(self, x, r, path):
        self.x, self.r, self.path, self.calls, self.called = x, r, path, [], []
        self.home = os.path.join(path, "home")
        for d in ("home/d1/d2", "other/deep"):
            os.makedirs(os.path.join(path, d))
        os.symlink(os.path.join(path, "other", "deep"), os.path.join(self.home, "ln"))
        self.tree = x.get("tree", TREE)
        self.rows, self.fit = rows(r)
        pick = lambda: ["", "", "d1", "d1/d2", "ln", "./d1", "../home/d1"][r.randint(7)]
        self.pd, self.td = pick(), pick()
        self.tim = self.write_tim(x["fail"] == "include")
        self.par = os.path.join(self.pd, "my.par")
        self.partext = "PSR J1234+5678\nF0 {}\n".format(r.randint(1000))
        with open(os.path.join(self.home, self.par), "w") as f:
            f.write(self.partext)
        self.ext = "toa" if "toa" in x["args"] and "tim" not in x["args"] else "tim"
        if self.ext == "toa":
            os.rename(os.path.join(self.home, self.tim), os.path.join(self.home, self.tim[:-3] + "toa"))
            self.tim = self.tim[:-3] + "toa"
        self.feather = os.path.join(self.pd, "x.feather")
        if x["fail"] == "feather":
            with open(os.path.join(self.home, self.feather), "w") as f:
                f.write("nothing")
        else:
            psr = psrdata.make("t2", "J1111+2222", self.rows, self.fit, [1.0, 0.0, 0.0], True)
            with contextlib.redirect_stdout(io.StringIO()):
                psr.to_feather(os.path.join(self.home, self.feather))
        if x["fail"] == "par":
            os.unlink(os.path.join(self.home, self.par))
        if x["fail"] == "tim":
            os.unlink(os.path.join(self.home, self.tim))
        if r.rand() < 0.3:
            self.tim = os.path.join(self.home, self.tim)
        if r.rand() < 0.3:
            self.par = os.path.join(self.home, self.par)

    def write_tim(self, missing):
        base = os.path.join(self.home, self.td)
        sub = self.r.rand() < 0.4
        where = {"main": "my.tim", "one": "sub/one.tim" if sub else "one.tim", "two": "sub/two.tim" if sub else "two.tim"}
        os.makedirs(os.path.join(base, "sub"), exist_ok=True)
        for f, lines in self.tree.items():
            out = []
            for ln in lines:
                if ln["k"] == "toa":
                    out += [" obs{}.ff 1400.0 53000.{} 1.0 gbt -fe R1".format(k, k) + (" -note INCLUDE" if self.x.get("inflag") and k % 2 else "") for k in range(ln["n"])]
                elif ln["k"] == "inc":
                    out.append("INCLUDE " + where[ln["f"]])
                else:
                    out.append({"com": "C INCLUDE nothing.tim", "fmt": "FORMAT 1", "blank": "", "mode": "MODE 1"}[ln["k"]])
            if missing and f == "main":
                out.append("INCLUDE missing.tim")
            with open(os.path.join(base, where[f]), "w") as fh:
                fh.write("\n".join(out) + ("\n" if self.r.rand() < .7 else ""))
        self.timtext = open(os.path.join(base, "my.tim")).read()
        return os.path.join(self.td, "my.tim")

    def note(self, reader, par, tim, kw, **more):
        self.called.append(reader)
        self.calls.append(dict(par=os.path.realpath(par), tim=os.path.realpath(tim), cwd=os.getcwd(), kw={k: str(v) for k, v in kw.items()}, **more))
        if self.x["fail"] == "package":
            raise RuntimeError("the timing package fails")

    def t2module(world):
        class tempopulsar(engine.T2):
            def __init__(self, parfile, timfile=None, maxobs=None, ephem=None, clk=None, **kw):
                world.note("tempo2 files", parfile, timfile, dict(kw, ephem=ephem, clk=clk), maxobs=maxobs if maxobs is not None else 10000)
                world.fill(self)

        class module:
            pass
        module.tempopulsar = tempopulsar
        return module

    def fill(self, obj):
        obj.__dict__.update(psrdata.t2("J1234+5678", self.rows, self.fit, [1.0, 0.0, 0.0], False).__dict__)
        if self.x["fail"] == "reader":
            del obj.psrPos

    def t2object(self):
        obj = self.T2.__new__(self.T2)
        self.fill(obj)
        return obj

    def pintpair(self):
        toas, model = psrdata.PintToas(self.rows), psrdata.PintModel("J1234+5678", self.rows, self.fit, [1.0, 0.0, 0.0])
        if self.x["fail"] == "reader":
            model.components = {}
        return model, toas

    def get_model_and_toas(self, par, tim, ephem=None, bipm_version=None, planets=None, **kw):
        self.note("pint files", par, tim, dict(kw, ephem=ephem, bipm=bipm_version, planets=planets))
        return self.pintpair()


def load(x, r, path):
    path = os.path.realpath(path)
    w = World(x, r, path)
    saved = {k: getattr(pulsar, k, None) for k in ("t2", "pint", "TOAs", "TimingModel", "get_model_and_toas", "resids")}
    cwd = os.getcwd()
    mod = w.t2module()
    w.T2 = mod.tempopulsar
    pulsar.t2 = mod if x["t2"] else None
    pulsar.pint = object() if x["pint"] else None
    pulsar.TOAs, pulsar.TimingModel, pulsar.get_model_and_toas, pulsar.resids = psrdata.PintToas, psrdata.PintModel, w.get_model_and_toas, psrdata.Residuals
    from astropy.units import quantity      # noqa: F401
    model, toas = w.pintpair()
    args = [{"par": lambda: w.par, "tim": lambda: w.tim, "toa": lambda: w.tim, "feather": lambda: w.feather, "junk": lambda: ["junk.txt", 7, "par.x"][r.randint(3)],
             "TOAs": lambda: toas, "model": lambda: model, "t2": w.t2object}[k]() for k in x["args"]]
    kw, ephem = {}, [None, "DE421"][r.randint(2)]
    clk = [None, "TT(BIPM2015)"][r.randint(2)]
    bipm = [None, "BIPM2019"][r.randint(2)] if r.rand() < 0.5 else None
    planets, drop = bool(r.rand() < 0.7), bool(r.rand() < 0.5)
    if x["pkg"]:
        kw["timing_package"] = {"tempo2": ["tempo2", "TEMPO2"], "pint": ["pint", "PINT"], "other": ["psrchive", "none"]}[x["pkg"]][r.randint(2)]
    if x["fp"]:
        kw["filepath"] = w.feather
    for k, v in (("ephem", ephem), ("clk", clk), ("bipm_version", bipm)):
        if v is not None:
            kw[k] = v
    kw.update(planets=planets, drop_t2pulsar=drop)
    psr, out = None, "pulsar"
    try:
        os.chdir(w.home)
        before = os.getcwd()
        want = {"par": os.path.realpath(w.par), "tim": os.path.realpath(w.tim)}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                psr = pulsar.Pulsar(*args, **kw)
        except Exception as e:
            out = "{}: {}".format(type(e).__name__, str(e)[:150])
        after = os.getcwd()
    finally:
        os.chdir(cwd)
        for k, v in saved.items():
            if v is None and k not in ("t2", "pint"):
                delattr(pulsar, k)
            else:
                setattr(pulsar, k, v)
    called = list(w.called)
    if psr is not None and not called:
        called = [{"FeatherPulsar": "feather", "PintPulsar": "pint objects", "Tempo2Pulsar": "tempo2 object"}.get(type(psr).__name__, type(psr).__name__)]
    obs = {"home": before, "after": after, "out": out, "called": called, "calls": w.calls}
    if psr is not None and called == ["tempo2 files"] and not drop:
        obs["texts"] = [getattr(psr, "parfile", "none"), getattr(psr, "timfile", "none")]
    if psr is not None and not hasattr(psr, "toas"):
        obs["out"] = "no pulsar but " + repr(type(psr))
    kws = {"tempo2 files": {"ephem": str(ephem), "clk": str(clk)},
           "pint files": {"ephem": str(ephem), "bipm": str(bipm or (clk and clk[3:-1])), "planets": str(planets)}}
    return dict(x, tree=w.tree, par=want["par"], tim=want["tim"], timdir=os.path.dirname(want["tim"]), kw=kws, texts=[w.partext, w.timtext],
                ops=x["args"], ev=[{"op": "load", "obs": obs}])
