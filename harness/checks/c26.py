"""C26: pulsars carry the metadata of the timing package in documented units and frames."""
import numpy as np

import engine
import meta
import tlc
from compose import judge


def check(ctx):
    sc, st, tr = tlc.enumerate_all("MetaGen")
    ctx.count(states=st, transitions=tr)
    r0 = np.random.RandomState(ctx.seed)
    if not ctx.thorough:
        sc = [sc[i] for i in r0.permutation(len(sc))]
        sc = [x for x in sc if not x["rel"]][:ctx.n(800)] + [x for x in sc if x["rel"]][:ctx.n(250)]

    def one(i):
        r = np.random.RandomState([ctx.seed, i])
        return engine.enc({"id": i, "m": {"psrs": [], "sigs": [], "arr": []}, "ops": sc[i], "ev": [meta.event(sc[i], r)]})
    rows = []
    for i, (k, v) in enumerate(ctx.pool(one, range(len(sc)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("describing a pulsar", v, {"scenario": sc[i]})
    judge(ctx, rows, "descriptions", extra=lambda i: {"scenario": sc[i]})
