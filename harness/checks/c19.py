"""C19: wideband timing models: the joint Gaussian model of TOAs and DM measurements."""
import drive
from compose import compose
from engine import attempt


def dmx(s, a):
    d = s.psrs[s.m["arr"][a]["p"] - 1].dmx
    return attempt(lambda: {"k": "dmx", "v": [dict(par=k, lo=float(b["DMXR1"]), hi=float(b["DMXR2"]), dmx=float(b["DMX"]),
                                                   err=float(b["DMXerr"]), fit=bool(b["fit"])) for k, b in sorted(d.items())]},
                   what="dmx")


def check(ctx):
    def where(s):
        return [(a, j) for a, e in enumerate(s.m["arr"]) for j, k in enumerate(e["s"]) if s.m["sigs"][k - 1]["k"] == "wtm"]

    def ask(s):
        pts = s.points(3, 0.5)
        only = not any(x["k"] not in ("mn", "tneq", "eck", "wtm") for x in s.m["sigs"]) and len(s.m["arr"]) == 1
        s.add(drive.names(s.M, pts[0]))
        for p in (pts[0], pts[1], pts[0], pts[2]):
            for a, j in where(s):
                s.add(drive.wide(s.M, p, a, j, joint=only))
            s.add(drive.lnl(s.M, p, s.free), drive.sigprior(s.M, p), drive.delay(s.M, p, atol=2e-15))
        for a, j in where(s):
            s.ev.append({"op": "wide", "par": pts[0], "a": a + 1, "j": j + 1, "obs": [dmx(s, a)]})
        s.add(drive.lnprior(s.M, s.free, pts[1]), drive.mapping(s.M, s.free, pts[1]))

    base = dict(npsr=[1], ntoa=[6, 8, 10], ncol=[2], nsig=2, minsig=2, nq=0, q=["lnl"], kinds=["wtm"],
                sel=["none", "backend", "half", "custom"], style=["par", "const", "inst"], jsel=["backend", "half", "band", "custom"])
    # with white noise only: also the joint model from first principles
    compose(ctx, base, ctx.n(60), ask, 1, label="white noise")
    # with other signals, and several pulsars
    compose(ctx, dict(base, npsr=[1, 2], ntoa=[6, 7], nsig=4, minsig=2, only=[1, 2], kinds=["wtm", "wtm", "gp", "eck", "tneq", "det", "cgp"],
                      coef=[False], gpsel=["none", "backend"], basis=["red", "dm", "poly"], max={"gp": 1, "wtm": 1}, cfor=[0, 12],
                      orf=["hd", "mix"], cbasis=["red"], fstyle=["par", "const"]), ctx.n(60), ask, 2, opt=dict(unset=0), label="with other signals")
    # unsupported data
    def reject(s):
        if s.M is not None:
            s.add(drive.names(s.M, s.point()))
        for a, j in where(s):
            s.ev.append({"op": "wide", "par": s.point(), "a": a + 1, "j": j + 1, "obs": [dmx(s, a)]})
    faults = ["gap", "overlap", "swap", "unfit", "dmfit", "jumpnone", "nodata", "no"]
    compose(ctx, dict(base, npsr=[1, 2], only=[1, 2], fault=faults), ctx.n(70), reject, 3, label="unsupported data", rejected=reject)
