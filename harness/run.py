"""Runs the check of one property: bin/check <id> [quick|thorough]."""
import concurrent.futures as cf
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.json")


class Infra(Exception):
    """The machinery failed: no verdict."""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.bad, self.notes = [], [], [], {}
        self.scale = float(os.environ.get("VERIF_SCALE", "1"))
        self.t0 = time.time()

    # sizes of a run
    def n(self, quick, thorough=None):
        k = thorough if self.thorough and thorough is not None else quick * (10 if self.thorough else 1)
        return max(1, int(k * self.scale))

    def say(self, *a):
        print("[{:6.1f}s]".format(time.time() - self.t0), *a, flush=True)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def count(self, states=0, transitions=0, traces=0, **notes):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        for k, v in notes.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def violation(self, what, detail, replay):
        """what: short description; key identifies a known finding."""
        self.bad.append({"what": what, "detail": detail, "replay": replay})

    def broken_observation(self, e):
        """Whether TLC stopped because of what was observed (and not because of the machine)."""
        t = str(e)
        return "states instead of" in t and "Error:" in t and not any(x in t for x in ("OutOfMemory", "Parsing or semantic", "heap space"))

    # parallel driving of the real code
    def pool(self, fn, items, limit=120, jobs=8):
        """[fn(x) for x in items] in forked processes; a hang or an escaped exception is reported as
        ("exc", text) instead of ("ok", value)."""
        global _FN, _ITEMS, _LIMIT
        _FN, _ITEMS, _LIMIT = fn, items, limit
        if not items:
            return []
        out = [None] * len(items)
        try:
            with cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork")) as ex:
                size = max(1, min(16, len(items) // (jobs * 4)))
                for i, r in enumerate(ex.map(_task, range(len(items)), chunksize=size)):
                    out[i] = r
        except cf.process.BrokenProcessPool:
            out = [r if r is not None else ("exc", "process died") for r in out]
        return out


def _task(i):
    import engine
    try:
        with engine.limit(_LIMIT):
            return "ok", _FN(_ITEMS[i])
    except Infra:
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        return "exc", "{}: {}\n{}".format(type(e).__name__, e, tb[-1800:])


def known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)["known"] if k["property"] == pid]


def finish(ctx):
    kn = known(ctx.pid)
    new, hit = [], {}
    for b in ctx.bad:
        text = b["what"] + " " + b["detail"]
        k = next((k for k in kn if all(s in text for s in k["match"])), None)
        if k is None:
            new.append(b)
        else:
            hit.setdefault(k["what"], b)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "model_checking",
          "coverage": dict({"states": ctx.states, "transitions": ctx.transitions,
                            "traces_validated_against_impl": ctx.traces, "samples": ctx.samples}, **ctx.notes),
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new)}
    with open(os.path.join(ROOT, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in kn:
        if k["what"] in hit:
            print("KNOWN-FINDING: property={} {}".format(ctx.pid, k["what"]))
    rdir = os.path.join(ROOT, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, b in enumerate(new[:10]):
        path = os.path.join(rdir, "{}-{}.json".format(ctx.pid, n + 1))
        with open(path, "w") as f:
            json.dump(dict(b, property=ctx.pid, tier=ctx.tier, seed=ctx.seed), f, indent=1, default=str)
        if n < 5:
            print("  ", b["what"][:300])
            print("     ", b["detail"][:500])
        if n == 0:
            print("VIOLATION property={} replay={}".format(ctx.pid, path))
    ctx.say("{}: {} states, {} transitions, {} traces, {} violations".format(
        ctx.pid, ctx.states, ctx.transitions, ctx.traces, len(new)))
    return 1 if new else 0


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    try:
        try:
            import engine  # noqa: F401
        except Exception:
            # the code under test cannot even be imported
            ctx.violation("importing enterprise", traceback.format_exc()[-1500:], {})
            return finish(ctx)
        checks = importlib.import_module("checks." + pid.lower())
        checks.check(ctx)
        return finish(ctx)
    except Exception:
        traceback.print_exc()
        print("ERROR: no verdict", flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
