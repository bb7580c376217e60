"""Histories of questions to one model: every answer is judged against the pure meaning of the
model, and everything returned is kept and compared with itself at the end."""
import copy

import numpy as np

import drive
from engine import dense, exc, vec
from compose import coef, has


class History:
    def __init__(self, s):
        self.s, self.M = s, s.M
        self.kept = []

    def keep(self, what, obj):
        """Remember a returned array (list of arrays) and its present content."""
        for o in obj if isinstance(obj, (list, tuple)) else [obj]:
            if isinstance(o, (list, tuple)):
                self.keep(what, o)
            elif o is not None and hasattr(o, "shape"):
                self.kept.append((what, o, np.array(dense(o), copy=True)))
        return obj

    def kernel(self, what, N, res):
        """White-noise objects: what they solve to."""
        if N is None or not hasattr(N, "solve"):
            return
        def ans():
            x, ld = N.solve(res.copy(), left_array=res.copy(), logdet=True)
            return np.array([float(x), float(ld)])
        try:
            self.kept.append((what, ans, ans()))
        except Exception:
            pass

    def finish(self):
        changed = []
        for what, o, was in self.kept:
            now = o() if callable(o) else np.array(dense(o))
            if now.shape != was.shape or not np.array_equal(now, was, equal_nan=True):
                changed.append(what)
        self.s.add({"op": "flag", "what": "objects returned earlier", "obs": {"k": "ok"} if not changed else {
            "k": "exc", "v": "changed by later calls: " + ", ".join(sorted(set(changed)))}})

    def ask(self, q, par):
        s, M, pta = self.s, self.M, self.M.pta
        p = M.params(par)
        m = s.m
        ev = []
        if q == "lnl":
            me = [("cliques",), ("partition",), ("sparse",)][s.r.randint(3)]
            ev = [drive.lnl(M, par, s.free, methods=me, dense_too=s.r.rand() < 0.3)]
        elif q == "white":
            a = s.r.randint(len(m["arr"]))
            if not has(m, "mtm"):
                ev = [drive.white(M, a, par, s.r)]
            N = pta.get_ndiag(p)
            self.keep("get_ndiag", [n for n in N if isinstance(n, np.ndarray)])
            for i, n in enumerate(N):
                self.kernel("get_ndiag", n, np.array(M.psrs[m["arr"][i]["p"] - 1].residuals, float))
            for sc in pta.pulsarmodels:
                for sig in sc.signals:
                    if sig.signal_type == "white noise":
                        n = sig.get_ndiag(p)
                        if isinstance(n, np.ndarray):
                            self.keep("get_ndiag of " + sig.name, n)
        elif q == "sigwhite":
            ev = []
            for a, e in enumerate(m["arr"]):
                for j, k in enumerate(e["s"]):
                    if m["sigs"][k - 1]["k"] in ("mn", "tneq"):
                        ev.append(drive.sigwhite(M, a, j, par))
        elif q == "delay":
            self.keep("get_delay", [x for x in pta.get_delay(p) if np.ndim(x)])
            for sc in pta.pulsarmodels:
                for sig in sc.signals:
                    x = sig.get_delay(p)
                    if np.ndim(x):
                        self.keep("get_delay of " + sig.name, x)
            ev = [drive.delay(M, par, **({"atol": 2e-12} if has(m, "eph") else {"atol": 2e-15} if has(m, "wtm") else {}))]
        elif q == "tphi":
            self.keep("get_basis", [sc.get_basis(p) for sc in pta.pulsarmodels])
            self.keep("get_phi", [sc.get_phi(p) for sc in pta.pulsarmodels])
            for sc in pta.pulsarmodels:
                for sig in sc.signals:
                    self.keep("get_basis of " + sig.name, sig.get_basis(p))
                    self.keep("get_phi of " + sig.name, sig.get_phi(p))
            ev = [drive.tphi(M, par)]
        elif q == "tnt":
            self.keep("get_TNT", pta.get_TNT(p))
            self.keep("get_TNr", pta.get_TNr(p))
            ev = [drive.tnt(M, par)] if not has(m, "mtm") else []
        elif q == "phiinv":
            self.keep("PTA.get_phi", pta.get_phi(p))
            me = ("cliques", "sparse")[s.r.randint(2)]
            self.keep("PTA.get_phiinv", pta.get_phiinv(p, logdet=bool(s.r.randint(2)), method=me))
            ev = [drive.phiinv(M, par, order=s.r.permutation(3)), drive.bigphi(M, par)]
        elif q == "lnprior":
            ev = [drive.lnprior(M, s.free, par)]
        s.add(*ev)


def walk(s, h, qs, base=None):
    """One parameter at a time: ask at base, with the parameter changed, and at base again."""
    base = base or s.point()
    for q in qs:
        h.ask(q, base)
    for i in s.r.permutation(len(s.free))[:8]:
        n = s.free[i]["name"]
        other = dict(base, **{n: s.point()[n]})
        for q in s.r.permutation(qs):
            h.ask(q, other)
        if s.r.rand() < 0.5:
            for q in s.r.permutation(qs):
                h.ask(q, base)
        else:
            base = other
