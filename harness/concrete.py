"""Turns the symbolic scenarios drawn from spec/Gen.tla into model records with numbers."""
import os

import numpy as np

import engine

# admissible values of every parameter: range drawn from; the prior always contains it
RNG = dict(
    efac=(0.8, 1.4), log10_t2equad=(-6.5, -5.8), log10_tnequad=(-6.5, -5.8), log10_ecorr=(-6.4, -5.8),
    log10_A=(-13.5, -12.6), gamma=(2.0, 5.0), lf0=(-8.8, -8.0), kappa=(1.0, 4.0), beta=(0.3, 0.8),
    lfb=(-8.8, -8.0), lfk=(-8.5, -7.8), delta=(0.1, 1.5), log10_fb=(-8.6, -7.8), log10_rho=(-6.8, -5.8),
    alphas=(0.3, 3.0), alphas_adapt=(0.3, 3.0), nfreq=(-0.4, 2.4), rho=(-0.25, 0.6), idx=(1.5, 4.5), fref=(900.0, 1600.0),
    log10_Amp=(-0.5, 0.5), log10_Q=(1.5, 2.5), t0=(53150.0, 53800.0), log10_h=(-13.6, -12.6), cos_gwtheta=(-0.9, 0.9),
    dmefac=(0.8, 1.4), dmequad=(-4.6, -3.6), dmjump=(-3e-4, 3e-4), gwphi=(0.3, 6.0), gwpol=(0.1, 3.0), a=(-2e-6, 2e-6), b=(-1e-6, 1e-6), w=(0.3, 0.9), s=(0.5, 2.0))
EPH = dict(frame_drift_rate=((-1e-9, 1e-9), 1e-9), d_jupiter_mass=((-3e-11, 3e-11), 1.54976690e-11),
           d_saturn_mass=((-1e-11, 1e-11), 8.17306184e-12), d_uranus_mass=((-1e-10, 1e-10), 5.71923361e-11),
           d_neptune_mass=((-1e-10, 1e-10), 7.96103855e-11), jup_orb_elements=((-0.05, 0.05), 0.05), sat_orb_elements=((-0.5, 0.5), 0.5))
FIXED_KAPPA = dict(broken=(0.1, 0.5))


def lit(v):
    return {"t": "lit", "v": v}


class Concrete:
    def __init__(self, skel, seed, sid, **opt):
        self.k, self.sid = skel, sid
        self.r = np.random.RandomState([seed & 0x7FFFFFFF, sid])
        self.opt = opt
        self.named = {}
        self.span = 1000 * 86400.0
        self.t00 = 53000 * 86400.0
        tms = [s for s in skel["sigs"] if s["k"] in ("tm", "mtm")]
        self.ncol = [p["ncol"] for p in skel["psrs"]]
        if any(s.get("tm") == "given" for s in tms):
            self.ncol = [self.ncol[0]] * len(self.ncol)
        self.raw = [self.pulsar(i, p) for i, p in enumerate(skel["psrs"])]
        self.wide = max([16] + [p["n"] for p in skel["psrs"]])
        self.pool = [self.r.randn(self.wide) for _ in range(4)]
        self.used, self.links = [], 0
        self.phases = {}
        self.sigs = []
        for i, s in enumerate(skel["sigs"]):
            self.sigs.append(self.sig(i, s))
        self.arr = [{"p": p + 1, "s": [i + 1 for i, s in enumerate(skel["sigs"]) if self.has(s, p + 1)]}
                    for p in range(len(self.raw))]

    @staticmethod
    def has(s, p):
        f = s.get("for", 0)
        return f == 0 or p in (int(c) for c in str(f))

    def choice(self, xs):
        return xs[self.r.randint(len(xs))]

    # ---- pulsars
    def toas(self, n, layout):
        r = self.r
        if layout == "single":
            return self.t00 + np.sort(r.uniform(0, self.span, n))
        sizes = {"pairs": [2], "triples": [3], "mixed": [1, 2, 3], "chain": [3, 2], "ties": [2, 1]}[layout]
        t = []
        while len(t) < n:
            base = self.t00 + r.uniform(0, self.span)
            k = self.choice(sizes)
            step = 0.6 if layout == "chain" else 0.0 if layout == "ties" else 0.2
            t += [base + step * j for j in range(k)]
        t = np.sort(np.array(t[:n]))
        if len(t) > 2 and t[-1] - t[0] < 100 * 86400:
            t[-1] += 400 * 86400
        return t

    def pulsar(self, i, p):
        r, n = self.r, p["n"]
        for tries in range(20):     # design matrices have full column rank
            t = self.toas(n, p["layout"] if tries < 10 else "single")
            x = (t - self.t00 - self.span / 2) / self.span
            M = np.column_stack([np.ones(n), x, x ** 2, np.sin(7 * x)][:self.ncol[i]])
            if np.linalg.cond(M / np.sqrt((M ** 2).sum(axis=0))) < 100 and len(set(np.round(t / 10))) > self.ncol[i]:
                break
        if p["order"] == "shuffled":
            t = r.permutation(t)
        names = [("A",), ("Rcvr_800_GASP", "430_PUPPI"), ("Rcvr1_2_GASP", "L-wide_PUPPI", "S-wide_X"), ("430_ASP", "Zed")][
            ["one", "two", "three", "asym"].index(p["flags"])]
        nested = r.rand() < 0.3     # labels that are parts of other labels
        if nested:
            names = {1: ("GASP",), 2: [("GASP", "Rcvr_800_GASP"), ("430_PUPPI", "PUPPI")][r.randint(2)], 3: ("GASP", "Rcvr_800", "Rcvr_800_GASP")}[len(names)]
        if p["flags"] == "asym":
            bf = [names[0]] * n
            bf[r.randint(n)] = names[1]
        else:
            bf = [names[j] for j in r.randint(len(names), size=n)]
            bf[:len(names)] = names
        freqs = r.choice([800.0, 1400.0], n) if p["freqs"] == "two" else np.round(r.uniform(400, 3500, n), 3)
        flags = {"f": bf, "B": [self.choice([["10CM", "20CM"], ["10CM", "10CM_2"]][nested]) for _ in range(n)],
                 "fe": [self.choice([["R1", "R2", "R3"], ["R1", "R10", "R"]][nested]) for _ in range(n)]}
        x = (t - self.t00 - self.span / 2) / self.span
        cols = [np.ones(n), x * 10, x ** 2 * 30, np.sin(7 * x)]
        M = np.column_stack(cols[:self.ncol[i]])
        pos = r.randn(3)
        pos /= np.linalg.norm(pos)
        if p["where"] == "same" and i:
            pos = self.raw_pos
        elif p["where"] == "anti" and i == 1:
            pos = -self.raw_pos
        if i == 0:
            self.raw_pos = pos
        name = ["J0437-4715", "B1855+09", "J1713+0747", "J0030+0451"][i] if i < 4 else "J%04d+%04d" % (100 * (i % 24), i)
        return dict(name=name, toas=t, errs=r.uniform(0.5e-6, 2e-6, n), res=r.randn(n) * 2e-6, freqs=freqs, flags=flags,
                    M=M, pos=pos, tel=[self.choice([["GBT", "AO"], ["GB", "GBT"]][nested]) for _ in range(n)], seed=int(r.randint(1 << 30)),
                    sort=not (p["order"] == "shuffled" and r.rand() < self.opt.get("nosort", 0)))

    # ---- parameters
    def rng(self, slot, rng=None):
        return rng or RNG[slot]

    def dist(self, lo, hi):
        d = self.dist0(lo, hi)
        if self.r.rand() < self.opt.get("hyper", 0):       # hierarchical: a bound or the mean is a parameter
            kw = "mu" if d["d"] == "N" else self.choice(["pmin", "pmax"])
            c, w = d["kw"][kw]["v"], 0.2 * (hi - lo)
            h = {"t": "par", "pr": {"d": "U", "kw": {"pmin": lit(c - w), "pmax": lit(c + w)}, "rng": [c - w, c + w]}}
            if self.r.rand() < 0.3:                         # whose own lower bound is one
                h["pr"]["kw"]["pmin"] = {"t": "par", "pr": {"d": "N", "kw": {"mu": lit(c - 2 * w), "sigma": lit(w)}, "rng": [c - 2 * w, c - 1.2 * w]}}
            if self.r.rand() < 0.12:
                h = {"t": "const", "v": float(c), "rng": [c - w, c + w]}
            elif self.r.rand() < 0.5:
                h["name"] = "hyper_{}_{:.6g}".format(kw, c)
                h = self.named.setdefault(h["name"], h)
            d["kw"][kw] = h
        return d

    def dist0(self, lo, hi):
        w = hi - lo
        d = self.choice(["U", "N", "LE", "U"] + ([] if self.opt.get("cubeonly") and self.sid % 3 else ["TN"]))
        if d == "U" or (d == "LE" and (max(abs(lo), abs(hi)) > 30 or w < 1e-3)):
            return {"d": "U", "kw": {"pmin": lit(lo - w), "pmax": lit(hi + w)}, "rng": [lo, hi]}
        if d == "LE":
            return {"d": "LE", "kw": {"pmin": lit(lo - w), "pmax": lit(hi + w)}, "rng": [lo, hi]}
        if d == "N":
            return {"d": "N", "kw": {"mu": lit((lo + hi) / 2), "sigma": lit(w)}, "rng": [lo, hi]}
        return {"d": "TN", "kw": {"mu": lit((lo + hi) / 2), "sigma": lit(w), "pmin": lit(lo - w), "pmax": lit(hi + w)},
                "rng": [lo, hi]}

    def par(self, slot, style, size=None, rng=None):
        lo, hi = self.rng(slot, rng)
        if style == "lit":
            v = self.r.uniform(lo, hi, size) if size else self.r.uniform(lo, hi)
            return lit(v.tolist() if size else float(v))
        if style == "const" and size:
            style = "par"
        if style == "const":
            d = {"t": "const", "v": float(self.r.uniform(lo, hi)), "rng": [lo, hi]}
            if self.r.rand() < self.opt.get("unset", 0):
                del d["v"]
            if self.r.rand() < 0.3:
                d["name"] = "const_{}_{}".format(slot, self.r.randint(2))
                d = self.named.setdefault(d["name"], d)
            return d
        if style == "fn" and size is None and slot not in ("a", "b", "nfreq", "idx"):
            w = (hi - lo) / 10
            kw = {"a": self.par("a", "par", rng=(lo + 2 * w, hi - 2 * w)),
                  "b": self.par("b", self.choice(["par", "lit", "const"]), rng=(0.0, w))}
            return {"t": "fn", "f": "lin", "kw": kw}
        p = {"t": "par", "pr": self.dist(lo, hi)}
        if size:
            p["size"] = size
            p["pr"] = {"d": "U", "kw": {"pmin": lit(lo - 1), "pmax": lit(hi + 1)}, "rng": [lo, hi]}
            if self.r.rand() < self.opt.get("hyper", 0):
                p["pr"]["kw"]["pmax"] = {"t": "par", "pr": {"d": "U", "kw": {"pmin": lit(hi + 0.5), "pmax": lit(hi + 1.5)}, "rng": [hi + 0.5, hi + 1.5]}}
        if style == "inst":
            p["name"] = "{}_shared{}{}".format(slot, size or "", "" if rng is None else "_{:g}".format(lo))
            p = self.named.setdefault(p["name"], p)
        return p

    def mix(self, style):
        """Most parameters in the given style, some free."""
        return style if self.r.rand() < 0.7 else "par"

    def anis(self):
        """Correlations between all pulsars in a basis that the isotropic part dominates."""
        n, lmax = len(self.raw), int(self.r.randint(0, 3))
        nb = (lmax + 1) ** 2
        b = self.r.uniform(-1, 1, (nb + int(self.r.choice([0, 5])), n, n)) / n
        b = (b + b.transpose(0, 2, 1)) / 2
        b = b * 0.3 / max(nb, 1)
        b[0] = (np.eye(n) + b[0]) / (2 * np.sqrt(np.pi))
        par = self.par("params", self.choice(["par", "inst", "lit"]) if lmax else "lit", max(nb - 1, 1), rng=(-1.0, 1.0))
        return {"f": "anis", "lmax": lmax, "basis": b.tolist(), "pos": "?", "kw": {"params": par}}

    def prior(self, f, style, nmodes, labels_big=False, basis=""):
        kw = {}
        if basis == "ephem" and f not in ("powerlaw", "genmodes"):
            f = "powerlaw"
        def put(slot, size=None, rng=None, p=1.0):
            if self.r.rand() < p:
                kw[slot] = self.par(slot, self.mix(style), size, rng)
        if f in ("powerlaw", "genmodes"):
            put("log10_A"), put("gamma")
            if f == "genmodes" and self.r.rand() < 0.6:
                kw["wgts"] = lit((self.r.uniform(0.5, 1.5, nmodes) * 1e-4).tolist())
            if basis == "ephem":
                kw["components"] = lit(6)
            elif f == "powerlaw" and self.opt.get("components") and self.r.rand() < 0.3:
                kw["components"] = lit(2)
        elif f == "turnover":
            put("log10_A"), put("gamma"), put("lf0"), put("kappa", p=.6), put("beta", p=.6)
        elif f == "turnover_knee":
            for s in ("log10_A", "gamma", "lfb", "lfk", "kappa", "delta"):
                put(s)
        elif f == "broken":
            put("log10_A"), put("gamma"), put("delta"), put("log10_fb"), put("kappa", rng=(0.1, 0.5), p=.5)
        elif f == "free":
            put("log10_rho", size=nmodes)
        elif f == "tproc":
            put("log10_A"), put("gamma"), put("alphas", size=nmodes, p=.8)
        elif f == "tproc_adapt":
            put("log10_A"), put("gamma")
            if self.r.rand() < 0.5:
                put("alphas_adapt", rng=(0.3, 3.0))
                kw["nfreq"] = self.par("nfreq", "par", rng=(-0.4, nmodes - 0.6))
            else:
                put("alphas_adapt", size=nmodes)
        elif f == "scale":
            put("s", rng=(1e-11, 5e-11) if labels_big else None)
        elif f == "dense":
            put("s", rng=(1e-11, 5e-11) if labels_big else None), put("rho", rng=(-0.2, 0.5))
        return {"f": f, "kw": kw}

    def basis(self, f, sel, vary=False, style="par", nm=None, tspan=None):
        r = self.r
        kw = {}
        if f in ("red", "dm", "dm_tn", "chrom", "env", "ephem", "general"):
            nm = nm or int(self.choice(self.opt.get("modes", [2, 3])))
            kw["nmodes"] = lit(nm)
            if tspan != "auto" and (sel != "none" or f in ("ephem",) or r.rand() < 0.5 or tspan):
                kw["Tspan"] = lit(float(tspan or self.span * r.choice([1.0, 1.3])))
            if f not in ("ephem",):
                v = r.randint(5) if tspan is None else 0
                if v == 1:
                    kw["logf"] = lit(True)
                elif v == 2:
                    kw["fmin"], kw["fmax"] = lit(0.7 / self.span), lit((nm + 0.5) / self.span)
                elif v == 3:
                    kw["modes"] = lit((np.sort(r.uniform(0.6, nm + 1, nm)) / self.span).tolist())
                elif v == 4 and f == "red" and self.opt.get("pseed", True):
                    ps = int(r.randint(1, 1000))
                    kw["pshift"], kw["pseed"] = lit(True), lit(ps)
            if f in ("dm", "dm_tn") and r.rand() < 0.5:
                kw["fref"] = self.par("fref", "lit")
            if f == "dm_tn" and vary:
                kw["idx"] = self.par("idx", self.mix(style if style != "fn" else "par"))
            if f == "chrom":
                kw["idx"] = self.par("idx", ("par" if style in ("lit", "const", "fn") else style) if vary else "lit")
            if f == "env":
                kw["log10_Amp"] = self.par("log10_Amp", "par" if vary else "lit")
                kw["log10_Q"] = self.par("log10_Q", self.choice(["par", "lit"]) if vary else "lit")
                kw["t0"] = self.par("t0", "lit", rng=(self.t00 + .2 * self.span, self.t00 + .8 * self.span))
            if f == "general":
                if r.rand() < 0.6:
                    kw["idx"] = self.par("idx", "par" if vary else "lit")
                    kw["tndm"] = lit(bool(r.randint(2)))
                if r.rand() < 0.7:
                    kw["flagname"], kw["flagval"] = lit("B"), lit(self.choice(["10CM", "20CM"]))
            return {"f": f, "kw": kw}, nm
        if f == "poly":
            nc = nm or int(r.randint(1, 4))
            cols, labels = [], []
            again = len(self.used) > 1 and r.rand() < 0.35       # only columns that other bases have too
            some = r.permutation(len(self.used))[:max(nc, 2)]
            if self.opt.get("chain") and nm is None:    # two without common columns, then one with a column of each
                self.links += 1
                again, nc = self.links == 3, 2
                some = [r.randint(2), 2 + r.randint(2)] if again else some
            nc = len(some) if again else nc
            for k in range(nc):
                j = r.randint(len(self.pool))
                if again:
                    cols.append(self.used[some[k]])
                else:
                    cols.append(self.pool[j].tolist() if r.rand() < 0.6 and not self.opt.get("chain") else r.randn(self.wide).tolist())
                if not again and not self.opt.get("chain") and r.rand() < 0.12:     # nearly the same column: with the other sign, or moved by one
                    cols[-1] = [-x for x in cols[-1]] if r.rand() < 0.5 else cols[-1][-1:] + cols[-1][:-1]
                if cols[-1] not in self.used:
                    self.used.append(cols[-1])
                labels.append(float(r.uniform(0.5, 3) * 1e-12))
            return {"f": "poly", "kw": {}, "cols": cols, "labels": labels}, nc
        if f == "lininterp":
            return {"f": "lininterp", "kw": {"dt": lit(float(self.span / self.choice([2.3, 3.1])))}}, None
        raise ValueError(f)

    def sel(self, s, overlap=True):
        names = ["GASP", "PUPPI", "Zed", "A"]
        d = {"none": {"s": "none"}, "backend": {"s": "backend"}, "band": {"s": "band"}, "half": {"s": "half"},
                "telescope": {"s": "telescope"}, "freq": {"s": "freq"}, "frontend": {"s": "frontend"},
                "nanograv": {"s": "nanograv"},
                "custom": {"s": "customall"}, "custom1": {"s": "custom", "names": [self.choice(names)]},
                "index": {"s": "index", "name": "ix", "idx": sorted(set(self.r.randint(0, 8, 4).tolist()))},
                "dict": {"s": "dict", "dict": {"B": {"all": True, "names": [], "pos": 1}}}}[s]
        if s not in ("none", "custom1", "index") and self.r.rand() < 0.4:
            d["rev"] = True
        if s == "freq" and overlap and self.r.rand() < 0.5:      # groups that have TOAs in common
            d["bands"] = [{"all": [0.0, 10000.0], "L": [1000.0, 2000.0]}, {"lo": [0.0, 1700.0], "hi": [1200.0, 10000.0]}][self.r.randint(2)]
        return d

    # ---- signals
    def sig(self, i, s):
        k = s["k"]
        if k in ("mn", "mn2"):
            d = dict(k="mn", sel=self.sel(s["sel"]), efac=self.par("efac", s["efac"]), name=s["name"])
            if s["eq"] != "no":
                d["eq"] = self.par("log10_t2equad", s["eq"])
            return d
        if k == "tneq":
            return dict(k=k, sel=self.sel(s["sel"]), eq=self.par("log10_tnequad", s["eq"]), name="")
        if k == "eck":
            return dict(k=k, sel=self.sel(s["sel"], False), ec=self.par("log10_ecorr", s["ec"]), method=s["method"], name="")
        if k == "ecb":
            return dict(k="gp", sel=self.sel(s["sel"]), via="ecorr", basis={"f": "quant", "kw": {}}, name=s["name"],
                        prior={"f": "ecorr", "kw": {"log10_ecorr": self.par("log10_ecorr", s["ec"])}}, coef=s["coef"])
        if k == "gp":
            b, nm = self.basis(s["basis"], s["sel"], s["vary"], s["style"])
            big = s["basis"] == "lininterp"
            d = dict(k="gp", sel=self.sel(s["sel"]), basis=b, prior=self.prior(s["prior"], s["style"], nm or 1, big, s["basis"]),
                     combine=s["combine"], name=s["name"], coef=s["coef"])
            if s["coef"]:       # the basis must exist when the signal is defined
                for x in b["kw"].values():
                    if x["t"] == "const" and "v" not in x:
                        x["v"] = sum(x["rng"]) / 2
            if s["basis"] == "red" and self.r.rand() < 0.5:
                d["via"] = "fourier"
            return d
        if k in ("tm", "mtm"):
            b = {"f": "tm", "kw": {}, "tm": s["tm"]}
            if s.get("exclude") and min(self.ncol) > 1:
                b["exclude"] = [int(self.r.randint(1, min(self.ncol)))]
            if s["tm"] == "given":
                b["norms"] = self.r.uniform(0.5, 3, self.ncol[0] - len(b.get("exclude", []))).tolist()
            if k == "mtm":
                return dict(k="mtm", basis=b, name=s["name"])
            return dict(k="gp", basis=b, prior={"f": "tmprior", "kw": {}}, name=s["name"], coef=s["coef"])
        if k == "cgp":
            auto = s["basis"] == "auto"
            f = "red" if auto else s["basis"]
            b, nm = self.basis(f, "none", nm=int(self.opt["cmodes"]) if self.opt.get("cmodes") else 2, tspan="auto" if auto else self.span)
            d = dict(k="cgp", basis=b, prior=self.prior(s["prior"], s["style"], nm, basis=f), combine=s["combine"], name=s["name"],
                     orf=self.anis() if s["orf"] == "anis" else {"f": s["orf"], "kw": {"w": self.par("w", "par")} if s["orf"] == "mix" else {}})
            if auto:
                d["autospan"] = True
            elif s["basis"] == "red" and self.r.rand() < 0.5:
                d["via"] = "fourier"
            elif s["basis"] == "ephem" and self.r.rand() < 0.5 and b["kw"].get("Tspan", {}).get("t") == "lit" and "nmodes" in b["kw"] and not s.get("coef"):
                d.update(via="ephem", combine=True, orf={"f": "monopole", "kw": {}})
            return d
        if k == "det":
            st = s["style"]
            slots = {"bwm": ["log10_h", "cos_gwtheta", "gwphi", "gwpol", "t0"], "bwmfn": ["log10_h", "cos_gwtheta", "gwphi", "gwpol", "t0"], "ramp": ["a", "b"], "disp": ["a"], "drift": ["a"], "taylor": []}[s["wf"]]
            kw = {x: self.par(x, self.mix(st)) for x in slots}
            if s["wf"] == "taylor":
                kw["a"] = self.par("a", self.mix(st), int(self.r.randint(1, 4)))
            return dict(k="det", wf={"f": s["wf"], "kw": kw}, sel=self.sel(s["sel"], False), name=s["name"])
        if k in ("eph", "phys"):
            full = ["frame_drift_rate", "d_jupiter_mass", "d_saturn_mass", "d_uranus_mass", "d_neptune_mass",
                    "jup_orb_elements", "sat_orb_elements"]
            names = [x for x in full if self.r.rand() < 0.7] or full[:2]
            s = dict(s, model=getattr(self, "emodel", s["model"]))      # one set of orbital tables per array
            self.emodel = s["model"]
            for p in self.raw:
                self.ephemeris(p, s["model"])
            if k == "phys":
                sg = {x: float(EPH[x][1] * self.r.uniform(0.5, 2)) for x in names}
                return dict(k="cgp", basis={"f": "physeph", "kw": {}, "sig": sg, "model": s["model"]}, name=s["name"], combine=True,
                            prior={"f": "sigma2", "kw": {}}, orf={"f": "monopole", "kw": {}})
            kw = {}
            for x in names:
                lo, hi = EPH[x][0]
                size = 6 if x.endswith("elements") else None
                if s["style"] == "default":
                    d = {"d": "U", "kw": {"pmin": lit(lo), "pmax": lit(hi)}, "rng": [lo, hi]} if x[:2] != "d_" else {
                        "d": "N", "kw": {"mu": lit(0.0), "sigma": lit(EPH[x][1])}, "rng": [lo, hi]}
                    kw[x] = {"t": "par", "pr": d, "name": x}
                    if size:
                        kw[x]["size"] = size
                else:
                    st = s["style"]
                    kw[x] = self.par(x, st if not size or st != "const" else "par", size, rng=(lo, hi)) if not size else {
                        "t": "par", "pr": {"d": "U", "kw": {"pmin": lit(2 * lo), "pmax": lit(2 * hi)}, "rng": [lo, hi]}, "size": 6}
            return dict(k="eph", wf={"f": "eph", "kw": kw}, epochs=s["epochs"], model=s["model"], name=s["name"],
                        defaults=s["style"] == "default")
        if k == "wtm":
            for p in range(len(self.raw)):
                if self.has(s, p + 1):
                    self.wideband(self.raw[p], s)
            jsel = {"s": "none"} if s["jump"] == "no" or s["fault"] == "jumpnone" else self.sel(s["jsel"], False)
            d = dict(k=k, sel=self.sel(s["sel"], False), jsel=jsel, dmefac=self.par("dmefac", s["efac"]), name=s["name"])
            if s["eq"] != "no":
                d["dmequad"] = self.par("dmequad", s["eq"])
            if s["jump"] != "no" or s["fault"] == "jumpnone":
                d["dmjump"] = self.par("dmjump", s["jump"] if s["jump"] != "no" else "par")
            if s["ref"]:
                d["ref"] = "?"
            return d
        raise ValueError(k)

    def ephemeris(self, raw, model):
        """Smooth trajectories of the planets (light seconds) and of the pulsar; orbital tables near the TOAs."""
        r, t = self.r, raw["toas"]
        if not hasattr(self, "orbits"):
            self.orbits = [(a, 2 * np.pi / (p * 365.25 * 86400), r.uniform(0, 6.28), r.uniform(-0.4, 0.4)) for a, p in (
                (499., 1.), (2600., 11.9), (4760., 29.5), (9580., 84.), (15000., 165.))]
        if "planets" not in raw:
            xs = []
            for a, w, ph, inc in self.orbits:
                x, y = a * np.cos(w * t + ph), a * np.sin(w * t + ph)
                xs.append(np.column_stack([x, y * np.cos(inc), y * np.sin(inc) + 0.4 * y]))
            raw["planets"] = np.stack(xs, axis=1)
            raw["post"] = raw["pos"] + 1e-4 * np.outer((t - self.t00) / self.span, r.randn(3))
        raw["model"] = model

    @staticmethod
    def orbital(model, t):
        """The part of the orbital tables that matters at the times t (days)."""
        d = os.path.join(os.path.dirname(engine.utils.enterprise.__file__), "datafiles", "ephemeris")
        times = np.load(os.path.join(d, "jupiter-%s-mjd.npy" % model))
        tab = [np.load(os.path.join(d, "%s-%s-xyz-svd.npy" % (p, model))) for p in ("jupiter", "saturn")]
        n = len(times)
        k = np.searchsorted(times, t)
        keep = sorted(set([0, n - 1]) | set(int(x) for j in (-2, -1, 0, 1) for x in np.clip(k + j, 0, n - 1)))
        return {"times": times[keep].tolist(), "jup": tab[0][:, keep].tolist(), "sat": tab[1][:, keep].tolist()}

    def wideband(self, raw, s):
        """Dispersion measures of every TOA and DMX intervals around them."""
        r, n = self.r, len(raw["toas"])
        days = np.round(raw["toas"] / 86400 * 128) / 128 + self.choice([0, 3 / 128])      # exact in binary
        raw["stoas"] = days * 86400
        ds = np.unique(days)
        nb = min(s["nbin"], len(ds))
        first = np.sort(r.choice(np.arange(1, len(ds)), nb - 1, replace=False))
        groups = np.split(ds, first)
        bins = []
        for g, nxt in zip(groups, groups[1:] + [None]):
            lo = g[0] if s["edges"] == "edge" or not bins else bins[-1][1] if s["edges"] == "mid" else (g[0] + bins[-1][1]) / 2
            hi = g[-1] + 0.75 if nxt is None else nxt[0] if s["edges"] == "edge" else (g[-1] + nxt[0]) / 2
            bins.append([float(lo), float(hi)])
        f = s["fault"]
        if f == "gap":
            bins[-1][1] = float(ds[-1])                     # half open: the last TOA is in no interval
        elif f in ("overlap", "swap"):
            bins[0][1] = float(groups[1][0] + 1e-3)          # TOAs in two intervals
            if f == "swap":                                  # ... and as many in none
                twice = (days == groups[1][0]).sum()
                cand = [d for d in ds if (days == d).sum() == twice and d == ds[-1] and d != groups[1][0]]
                bins[-1][1] = float(cand[0]) if cand else bins[-1][1]
        dm0 = float(np.round(r.uniform(10, 60), 4))
        order = r.permutation(len(bins))
        names = ["DMX_%04d" % (1 + int(j)) for j in order]
        vals = r.randn(len(bins)) * 1e-4
        errs = r.uniform(1e-4, 2e-4, n)
        truth = np.zeros(n)
        for (lo, hi), v in zip(bins, vals):
            truth[(lo <= days) & (days < hi)] = dm0 + v
        truth[truth == 0] = dm0
        raw["flags"]["pp_dm"] = [repr(float(x)) for x in truth + r.randn(n) * 1e-4]
        raw["flags"]["pp_dme"] = [repr(float(x)) for x in errs]
        if f == "nodata":
            raw["flags"]["pp_dm"][r.randint(n)] = ""
        cols = [np.where((lo <= days) & (days < hi), 1 / (2.41e-4 * raw["freqs"] ** 2), 0.0) for lo, hi in bins]
        fit = ["P%d" % i for i in range(1, raw["M"].shape[1])]
        free = [(nm, c) for nm, c in zip(names, cols)]
        if f == "unfit":
            free = free[:-1]
        if f == "dmfit":
            free.append(("DM", 1 / (2.41e-4 * raw["freqs"] ** 2)))
        at = [int(x) for x in r.permutation(len(free))]
        raw["M"] = np.column_stack([raw["M"]] + [free[j][1] for j in at])
        raw["fit"] = fit + [free[j][0] for j in at]
        pars = {"DM": (dm0, 0.0)}
        for nm, (lo, hi), v in zip(names, bins, vals):
            e = float(r.uniform(1e-5, 1e-4))
            pars[nm], pars["DMXR1" + nm[3:]], pars["DMXR2" + nm[3:]] = (float(v), e), (lo, 0.0), (hi, 0.0)
        raw["pars"] = pars
        raw["set"] = ["RAJ", "DECJ", "DM"] + [p for p in pars if p != "DM"]
        raw["wide"] = dict(dm0=dm0, bins=[dict(lo=lo, hi=hi, dmx=float(v), err=pars[nm][1], par=nm)
                                          for nm, (lo, hi), v in sorted(zip(names, bins, vals))])

    # ---- results
    def phase_table(self, recs):
        """Reproducible phases: seeded by the first (selected) TOA and the given seed."""
        tab = {}
        for s in self.sigs:
            kw = s.get("basis", {}).get("kw", {})
            if "pseed" in kw:
                for p in recs:
                    for t in p["toas"]:
                        seed = int(t / 17) + kw["pseed"]["v"]
                        tab[str(seed)] = np.random.RandomState(seed).uniform(0.0, 2 * np.pi, 16).tolist()
        return tab

    def build(self):
        psrs = [engine.make_psr(x, sort=x["sort"]) for x in self.raw]
        recs = [engine.record(p) for p in psrs]
        for p, x, d in zip(psrs, self.raw, recs):
            if "planets" in x:
                d.update(engine.record(p, ephem=True))
                t = p.toas / 86400
                d["orb"] = self.orbital(x["model"], np.concatenate([t, t + 0.5 / 86400, t - 0.5 / 86400]))
            if "wide" in x:
                d["stoas"] = p.stoas.tolist()
                d["wb"] = dict(x["wide"], missing=any(v == "" for v in p.flags["pp_dm"]),
                               ppdm=[float(v or 0) for v in p.flags["pp_dm"]], ppdme=[float(v) for v in p.flags["pp_dme"]])
        for s in self.sigs:     # the reference of jumps is one of their groups
            if s.get("ref") == "?":
                labels = sorted(set(k for p in psrs for k in engine.make_selection(s["jsel"])(p).masks))
                s["ref"] = self.choice(labels)
            if s.get("orf", {}).get("pos") == "?":
                s["orf"]["pos"] = [p.pos.tolist() for p in psrs]
        m = {"psrs": recs, "sigs": self.sigs, "arr": self.arr, "phases": self.phase_table(recs)}
        return m, psrs


def draw(free, r, near=None, keep=0.0):
    """A point of the parameter space; with near, each parameter keeps its value with probability keep."""
    par = {}
    for p in free:
        if near is not None and r.rand() < keep:
            par[p["name"]] = near[p["name"]]
            continue
        if near is not None and p["size"] and r.rand() < 0.4:     # the same numbers in another order
            par[p["name"]] = r.permutation(near[p["name"]]).tolist()
            continue
        lo, hi = p["pr"].get("rng", ["-1e-6", "1e-6"])
        lo, hi = float(lo), float(hi)
        n = p["size"]
        par[p["name"]] = r.uniform(lo, hi, n).tolist() if n else float(r.uniform(lo, hi))
    return par
