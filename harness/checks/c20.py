"""C20: composition of models is a faithful algebra, in any grouping and order."""
import algebra
import drive
import tlc
from compose import compose


def check(ctx):
    small = dict(nl=2, np=2, groups=3, bounds=2, arrays=2, errors=1, asks=0, q=["lnl"], sizes=[1, 2], lists=[1, 2], then=[""], print=False)
    for k in ("bounds", "arrays") if ctx.thorough else ("",):
        _, dis, gen = tlc.explore("AlgebraGen", dict(small, **({k: 3} if k else {})))
        ctx.count(states=dis, transitions=gen)
        ctx.say("AlgebraGen: {} states".format(dis))
    n = ctx.n(90)
    big = dict(nl=4, np=3, groups=9, bounds=6, arrays=5, errors=1, asks=6, q=["lnl", "names", "lnl", "access", "delay", "lnprior"],
               sizes=[2, 2, 3, 1], lists=[2, 3, 4], then=["", "pop", "reverse", "repeat"], print=True)
    ses = tlc.simulate("AlgebraGen", big, n, ctx.seed * 1000003 + 20)

    def ask(s):
        h = ses[s.sid % len(ses)]
        pts = s.points(2, 0.5)
        s.m["ops"] = h["ops"]
        se = algebra.Session(s.m, s.psrs)
        todo = list(h["asks"])
        for n, op in enumerate(h["ops"]):
            se.do(op)
            while todo and todo[0]["at"] == n + 1:
                put(s, se, todo.pop(0), pts)
        s.add(se.access([k + 1 for k, x in enumerate(se.objs) if not isinstance(x, type)]))
        for k, x in enumerate(se.objs):
            if isinstance(x, algebra.signal_base.PTA):
                put(s, se, {"i": k + 1, "q": "lnl", "pt": 1}, pts)

    def put(s, se, a, pts):
        i, q, p = a["i"], a["q"], pts[a["pt"] - 1]
        if q == "access":
            s.add(se.access([i]))
            return
        try:
            M = se.model(i)
        except Exception as e:
            s.ev.append({"op": "flag", "what": "an array of the session", "obs": algebra.exc(e)})
            return
        me = [("cliques",), ("partition",), ("sparse",)][s.r.randint(3)]
        e = {"lnl": lambda: drive.lnl(M, p, None, methods=me, dense_too=s.r.rand() < 0.3), "names": lambda: drive.names(M, p),
             "delay": lambda: drive.delay(M, p), "lnprior": lambda: drive.lnprior(M, None, p)}[q]()
        s.add(dict(e, arrof=i))
    base = dict(npsr=[3], ntoa=[5, 6], ncol=[2], nsig=4, minsig=4, nq=0, q=["lnl"], only=[],
                kinds=["mn2", "tneq", "eck", "ecb", "gp", "tm", "mtm", "cgp", "det"], sel=["none", "backend"], max={"gp": 2, "cgp": 2, "det": 2},
                gpsel=["none", "half", "backend"], basis=["red", "dm", "poly"], prior=["powerlaw", "free"], cfor=[0], orf=["hd", "mix"],
                cbasis=["red", "dm"], cprior=["powerlaw"], style=["par", "const", "inst"], wf=["ramp", "disp", "taylor", "drift"])
    compose(ctx, base, n, ask, 1, label="sessions")

    # automatic spans of common processes: those of the pulsars of the array
    def auto(s):
        outside = s.sid % 2 == 0
        s.m["ops"] = [{"op": "leaf", "k": 1}, {"op": "leaf", "k": 2}, {"op": "sum", "i": 1, "j": 2}] + [
            {"op": "bind", "i": 3, "p": p} for p in (1, 2, 3)] + [{"op": "array", "is": [4, 5] if outside else [4, 5, 6]}]
        p = s.point()
        se = algebra.Session(s.m, s.psrs)
        for k, op in enumerate(s.m["ops"]):
            se.do(op)
            if not outside and k == 3:
                se.objs[3].get_basis()
        e = drive.lnl(se.model(7), p, None, methods=("cliques",), dense_too=False)
        s.add(dict(e, arrof=7, **(dict(spanof=[[1, 2, 3]] * 3) if outside else dict(
            note="basis of the first pulsar evaluated before the others were instantiated"))))
    compose(ctx, dict(base, nsig=2, minsig=2, kinds=["cgp"], cbasis=["auto"]), 10, auto, 2, label="automatic span")
