"""C18: saved pulsars load back with the same data."""
import tempfile

import numpy as np

import engine
import saved
import tlc
from compose import judge


def check(ctx):
    for p in ({"npsr": 2, "nop": 5 if ctx.thorough else 4, "full": False, "layouts": False}, {"npsr": 2, "nop": 1, "full": False, "layouts": True}):
        _, dis, gen = tlc.explore("SavedGen", p)
        ctx.count(states=dis, transitions=gen)
        ctx.say("{}: {} states".format("file layouts" if p["layouts"] else "histories", dis))
    sc = []
    for k, (n, ops) in enumerate([(2, 6), (1, 5), (3, 9)]):
        sc += tlc.simulate("SavedGen", {"npsr": n, "nop": ops, "full": True, "layouts": False}, ctx.n([90, 60, 50][k]), ctx.seed * 10 + k)
    # the same pulsar changed and pickled again
    sc += tlc.simulate("SavedGen", {"npsr": 1, "nop": 7, "full": True, "layouts": False, "pickles": True}, ctx.n(60), ctx.seed * 10 + 9)

    def one(i):
        r = np.random.RandomState([ctx.seed, i])
        with tempfile.TemporaryDirectory() as d:
            return engine.enc(dict(saved.history(sc[i], r, d), id=i))
    rows = []
    for i, (k, v) in enumerate(ctx.pool(one, range(len(sc)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("saving pulsars", v, {"scenario": sc[i]})
    judge(ctx, rows, "histories of saved pulsars", extra=lambda i: {"scenario": sc[i]}, module="SavedTrace")
