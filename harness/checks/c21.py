"""C21: deterministic delays follow their waveforms on the right TOAs."""
import drive
from compose import compose


def check(ctx):
    def ask(s):
        pts = s.points(3, 0.5)
        s.add(drive.names(s.M, pts[0]))
        for p in (pts[0], pts[1], pts[0], pts[2]):
            s.add(drive.delay(s.M, p, atol=2e-12))
        s.add(drive.lnl(s.M, pts[1], s.free, methods=("cliques",), dense_too=False))
        s.add(drive.lnprior(s.M, s.free, pts[0]))

    base = dict(npsr=[1, 2, 3], ntoa=[5, 6, 9], ncol=[2], nsig=5, minsig=3, nq=0, q=["lnl"], only=[1, 2], kinds=["det"], max={"det": 4},
                wf=["bwm", "bwmfn", "ramp", "disp", "taylor", "drift", "bwm"], detsel=["none", "backend", "half", "custom1", "band", "freq"],
                fstyle=["par", "const", "inst", "lit", "fn"], style=["par"], sel=["none"])
    compose(ctx, base, ctx.n(150), ask, 1, opt=dict(nosort=0.5, unset=0), label="waveforms")
    compose(ctx, dict(base, kinds=["eph", "det"], max={"eph": 2}, nsig=3, minsig=2, layout=["pairs", "triples", "mixed", "single", "ties", "chain"]),
            ctx.n(90), ask, 2, opt=dict(nosort=0.5), label="ephemeris")

    # the linearized process is the gradient of the delay
    def grad(s):
        p, q = s.points(2, 0.5)
        s.add(drive.names(s.M, p), drive.tphi(s.M, p))
    compose(ctx, dict(base, kinds=["phys", "eph"], nsig=3, minsig=2), ctx.n(60), grad, 3, opt=dict(nosort=0.5), label="linearized ephemeris")
