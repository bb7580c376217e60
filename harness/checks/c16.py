"""C16: the arrays of a pulsar stay aligned through sorting, flags and filtering."""
import numpy as np

import engine
import psrdata
import tlc
from compose import judge


def check(ctx):
    # every table of up to three TOAs and every two operations: what is kept shows what it should
    _, dis, gen = tlc.explore("PulsarGen", {"ntoa": 3, "nop": 3 if ctx.thorough else 2, "full": False, "print": False})
    ctx.count(states=dis, transitions=gen)
    ctx.say("PulsarGen: {} states".format(dis))
    sc = []
    for k, (n, ops) in enumerate([(4, 3), (6, 4), (9, 5), (2, 2)]):
        sc += tlc.simulate("PulsarGen", {"ntoa": n, "nop": ops, "full": True, "print": True}, ctx.n([160, 120, 60, 40][k]), ctx.seed * 10 + k)
    sc += tlc.simulate("PulsarGen", {"ntoa": 3, "nop": 2, "full": True, "print": True, "noflag": True}, ctx.n(20), ctx.seed * 10 + 9)

    def one(i):
        r = np.random.RandomState([ctx.seed, i])
        return engine.enc(dict(psrdata.history(sc[i], ["t2", "pint"][i % 2], r), id=i))
    rows = []
    for i, (k, v) in enumerate(ctx.pool(one, range(len(sc)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("building a pulsar", v, {"scenario": sc[i]})
    judge(ctx, rows, "histories of pulsar data", extra=lambda i: {"scenario": sc[i]}, module="PulsarTrace")
