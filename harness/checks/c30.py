"""C30: ephemeris errors displace the Earth as documented, in the right frame."""
import numpy as np

import drive
import engine
import frames
import tlc
from compose import compose, judge


def check(ctx):
    sc, st, tr = tlc.enumerate_all("FrameGen")
    ctx.count(states=st, transitions=tr)
    reps = {"frame": (6, 60), "euler": (2, 20), "rotate": (1, 8), "delay": (2, 12), "design": (1, 6)}
    todo = [(i, k) for i, c in enumerate(sc) for k in range(ctx.n(*reps[c["kind"]]))]

    def one(n):
        i, k = todo[n]
        ev = frames.events(sc[i], np.random.RandomState([ctx.seed, i, k]))
        return engine.enc({"id": n, "m": {"psrs": [], "sigs": [], "arr": []}, "ops": sc[i], "ev": ev})
    rows = []
    for n, (k, v) in enumerate(ctx.pool(one, range(len(todo)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("ephemeris", v, {"scenario": sc[todo[n][0]]})
    judge(ctx, rows, "rotations and delays", extra=lambda n: {"scenario": sc[todo[n][0]]})

    # in models: delays of signals, gradients as processes, positions as Fourier coefficients
    def ask(s):
        p, q = s.points(2, 0.5)
        s.add(drive.names(s.M, p), drive.delay(s.M, p, atol=2e-12), drive.delay(s.M, q, atol=2e-12), drive.tphi(s.M, q))
    base = dict(npsr=[1, 2, 3], ntoa=[5, 6], ncol=[2], minsig=2, nq=0, q=["lnl"], only=[1, 2], sel=["none"], style=["par", "const", "inst"],
                layout=["pairs", "mixed", "single", "ties"])
    compose(ctx, dict(base, kinds=["eph", "phys"], nsig=3, max={"eph": 1, "phys": 1}), ctx.n(60), ask, 11, opt=dict(nosort=0.5), label="signals of the ephemeris")
    compose(ctx, dict(base, kinds=["cgp", "eph"], nsig=3, max={"eph": 1, "cgp": 2}, cbasis=["ephem"], orf=["monopole", "hd"], cprior=["powerlaw"]),
            ctx.n(40), ask, 12, opt=dict(nosort=0.5), label="Fourier processes of positions")
