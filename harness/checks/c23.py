"""C23: loading pulsars restores the environment and counts every observation."""
import tempfile

import numpy as np

import engine
import loading
import tlc
from compose import judge


def check(ctx):
    _, dis, gen = tlc.explore("LoadGen", {"nargs": 3, "files": False, "print": False})
    ctx.count(states=dis, transitions=gen)
    ctx.say("LoadGen: {} states".format(dis))
    r = np.random.RandomState(ctx.seed)
    sc, dis, gen = tlc.enumerate_all("LoadGen", profile={"nargs": 3 if ctx.thorough else 2, "files": False, "print": True})
    ctx.count(states=dis, transitions=gen)
    # the more a scenario does, the more often it is replayed
    def weight(x):
        return 1 + 3 * ("par" in x["args"] and ("tim" in x["args"] or "toa" in x["args"])) + ("feather" in x["args"]) + 2 * ("TOAs" in x["args"] and "model" in x["args"])
    p = np.array([weight(x) for x in sc], float)
    k = min(len(sc), ctx.n(1500, 30000))
    sc = [sc[i] for i in r.choice(len(sc), k, replace=False, p=p / p.sum())]
    tr, dis, gen = tlc.enumerate_all("LoadGen", profile={"nargs": 2, "files": True, "print": True})
    ctx.count(states=dis, transitions=gen)
    sc += [tr[i] for i in r.choice(len(tr), min(len(tr), ctx.n(250)), replace=False)]

    def one(i):
        r = np.random.RandomState([ctx.seed, i])
        with tempfile.TemporaryDirectory() as d:
            return engine.enc(dict(loading.load(sc[i], r, d), id=i))
    rows = []
    for i, (k, v) in enumerate(ctx.pool(one, range(len(sc)))):
        if k == "ok":
            rows.append(v)
        else:
            ctx.violation("loading pulsars", v, {"scenario": sc[i]})
    judge(ctx, rows, "loads", extra=lambda i: {"scenario": sc[i]}, module="LoadTrace")
    ctx.assumptions.append("libstempo and PINT are represented by stand-ins (neither is installed)")
