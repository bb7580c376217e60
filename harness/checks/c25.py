"""C25: noise and prior matrices answer like the dense matrices they stand for."""
import numpy as np

import drive
import engine
import kernels
import tlc
from compose import compose, judge


def check(ctx):
    bounds = [dict(n=3, ne=1, ncol=1, nops=ctx.n(3, 4), nasks=0, prior=False, print=False), dict(n=3, ne=2, ncol=1, nops=3, nasks=0, prior=False, print=False),
              dict(n=3, ne=1, ncol=1, nops=3, nasks=0, prior=True, print=False)]
    for b in bounds:
        _, st, tr = tlc.explore("KernelGen", b)
        ctx.count(states=st, transitions=tr)
    sc = []
    for k, (p, num) in enumerate([(dict(n=6, ne=2, ncol=2, nops=7, nasks=4, prior=False, print=True), ctx.n(400, 4000)),
                                  (dict(n=9, ne=3, ncol=3, nops=7, nasks=4, prior=False, print=True), ctx.n(100, 1500)) if ctx.thorough else
                                  (dict(n=7, ne=3, ncol=2, nops=7, nasks=4, prior=False, print=True), 80),
                                  (dict(n=6, ne=2, ncol=2, nops=6, nasks=3, prior=True, print=True), ctx.n(250, 2500))]):
        sc += tlc.simulate("KernelGen", p, num, ctx.seed + k)
    ctx.say("KernelGen: {} sessions".format(len(sc)))

    def one(i):
        ops, ev = kernels.run(sc[i], np.random.RandomState([ctx.seed, i]))
        return engine.enc({"id": i, "m": {"psrs": [], "sigs": [], "arr": [], "ops": ops}, "ops": sc[i], "ev": ev})
    rows = []
    for i, (k, v) in enumerate(ctx.pool(one, range(len(sc)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("session", v, {"scenario": sc[i]})
    judge(ctx, rows, "sessions", extra=lambda i: {"scenario": sc[i]})
