"""C17: shared-memory pulsars keep their data and release it exactly once."""
import tempfile

import numpy as np

import engine
import shmproc
import tlc
from compose import judge


def check(ctx):
    small = [(3, 1, 3), (2, 2, 2)] + ([(3, 2, 2)] if ctx.thorough else [])
    for a, b, c in small:
        _, dis, gen = tlc.explore("ShmGen", {"nproc": a, "npsr": b, "nseg": c, "nop": 10, "full": False})
        ctx.count(states=dis, transitions=gen)
        ctx.say("Shm with {} processes, {} pulsars, {} deflations: {} states".format(a, b, c, dis))
    sc = []
    for k, (a, b, c, ops) in enumerate([(3, 2, 3, 14), (2, 1, 1, 10), (3, 1, 1, 16), (2, 2, 3, 25)]):
        sc += tlc.simulate("ShmGen", {"nproc": a, "npsr": b, "nseg": c, "nop": ops, "full": True}, ctx.n([70, 30, 50, 25][k]), ctx.seed * 10 + k)

    def one(i):
        r = np.random.RandomState([ctx.seed, i])
        with tempfile.TemporaryDirectory() as d:
            return engine.enc(dict(shmproc.history(sc[i], r, d), id=i))
    rows = []
    for i, (k, v) in enumerate(ctx.pool(one, range(len(sc)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("sharing pulsars", v, {"scenario": sc[i]})
    judge(ctx, rows, "histories of shared pulsars", extra=lambda i: {"scenario": sc[i]}, module="ShmTrace")
    ctx.assumptions.append("no process dies between attaching shared memory and taking it off its resource tracker")
