"""From a profile to verdicts: scenarios drawn by TLC from spec/Gen.tla are replayed into the real
code and what it answers is judged by TLC with spec/Trace.tla."""
import concurrent.futures as cf
import traceback
import zlib

import numpy as np

import concrete
import drive
import engine
import tlc


class Scene:
    """A scenario being replayed: the real model, its points, and the recorded events."""

    def __init__(self, m, psrs, reg, r, skel, sid):
        self.m, self.psrs, self.r, self.skel, self.sid = m, psrs, r, skel, sid
        self.free, self.consts = reg     # free parameters; constants per pulsar
        self.M = None
        self.ev = []

    def build(self, **kw):
        self.M, e = drive.build_event(lambda: engine.Model(self.m, self.psrs, **kw))
        self.ev.append(e)
        return self.M is not None

    def add(self, *events):
        self.ev += [e for e in events if e]

    def point(self, near=None, keep=0.0):
        return concrete.draw(self.free, self.r, near, keep)

    def points(self, n=2, keep=0.6):
        pts = [self.point()]
        while len(pts) < n:
            pts.append(self.point(pts[0], keep))
        return pts


def has(m, *kinds):
    return any(s["k"] in kinds for s in m["sigs"])


def coef(m):
    return any(s.get("coef") for s in m["sigs"])


def in_repo(tb):
    return "/repo/" in tb


def skeletons(ctx, profile, num, off=0):
    return tlc.simulate("Gen", profile, num, ctx.seed * 1000003 + off)


def compose(ctx, profile, num, ask, off=0, opt=None, edit=None, limit=60, label="", rejected=None):
    """num behaviours of Gen under the profile; ask(scene) drives the model and adds events."""
    sk = skeletons(ctx, profile, num, off)
    return replay(ctx, sk, ask, off, opt, edit, limit, label or str(profile.get("kinds", "")), rejected)


def replay(ctx, sk, ask, off=0, opt=None, edit=None, limit=60, label="", rejected=None):
    seed = ctx.seed * 7919 + off
    opt = dict(opt or {})
    opt.setdefault("nosort", 0.3)        # how many of the unsorted pulsars stay so
    stored = opt.pop("stored", 0.2)      # how many of the models are over pulsars read back from files

    def make(i):
        c = concrete.Concrete(sk[i], seed, i, **opt)
        m, psrs = c.build()
        if edit:
            m2 = edit(m, c)
            m = m if m2 is None else m2
        return m, psrs

    def phase1(i):
        return engine.enc({"id": i, "m": make(i)[0]})

    rows = ctx.pool(phase1, list(range(len(sk))), limit)
    good = []
    for i, (k, v) in enumerate(rows):
        if k == "ok":
            good.append(v)
        else:
            ctx.violation("preparing pulsars of scenario", v, dict(skel=sk[i], seed=seed, sid=i))
    reg = tlc.registry(good)

    def phase2(i):
        m, psrs = make(i)
        fromfile = zlib.crc32(b"%d %d" % (seed, i)) % 1000 < 1000 * stored
        if fromfile:
            psrs = [engine.restore(p) for p in psrs]
        s = Scene(m, psrs, reg[i], np.random.RandomState([seed & 0x7FFFFFFF, i, 1]), sk[i], i)
        try:
            with np.errstate(all="ignore"):
                if s.build():
                    ask(s)
                elif rejected:
                    rejected(s)
        except engine.Timeout as e:
            s.ev.append({"op": "flag", "what": "answer", "obs": {"k": "exc", "v": str(e)}})
        except Exception as e:
            s.ev.append({"op": "flag", "what": "asking", "obs": {"k": "exc", "v": "{}: {} {}".format(
                type(e).__name__, e, traceback.format_exc()[-900:])}})
        if fromfile:
            s.add(*drive.pulsars(m, psrs))
        return engine.enc({"id": i, "m": m, "ev": s.ev})

    # a coefficient vector without entries is no parameter of the specification
    ids = [g["id"] for g in good if not any(p["pr"]["d"] == "C" and p["size"] == 0 for p in reg[g["id"]][0])]
    out = []
    for i, (k, v) in zip(ids, ctx.pool(phase2, ids, limit)):
        if k == "ok":
            out.append(v)
        else:
            ctx.violation("replaying scenario", v, dict(skel=sk[i], seed=seed, sid=i))
    judge(ctx, out, label, extra=lambda i: dict(skel=sk[i], seed=seed, sid=i, free=reg[i][0], opt=opt))
    return out


def judge(ctx, rows, label="", extra=lambda i: {}, module="Trace"):
    """TLC's verdict on recorded scenarios."""
    if not rows:
        return
    bad, dis, gen = judge_parts(ctx, rows, module)
    byid = {r["id"]: r for r in rows}
    ctx.count(states=dis, transitions=gen - len(rows), traces=len(rows))
    for r in rows[:1]:
        ctx.sample({"label": label, "signals": [
            {k: v for k, v in s.items() if k in ("k", "name", "method", "combine", "coef", "sel")} for s in r["m"].get("sigs", [])]
            if "m" in r else r.get("ops", ""), "events": [e.get("op") for e in r["ev"]][:12]})
    for b in sorted(bad, key=lambda b: (b["id"], b["ev"])):
        e = byid[b["id"]]["ev"][b["ev"] - 1]
        ctx.violation("{} (event {} of scenario {}, {})".format(e.get("op"), b["ev"], b["id"], label), "; ".join(b["bad"])[:1500],
                      dict(extra(b["id"]), event=e, row=byid[b["id"]]))
    ctx.say("{}: {} scenarios, {} events, {} broken".format(label, len(rows), sum(len(r["ev"]) for r in rows), len(bad)))


def judge_parts(ctx, rows, module):
    """TLC's verdict; when some observation cannot be evaluated, finds which: the one that TLC names, if it
    is the one, and otherwise by bisection."""
    try:
        return tlc.judge(rows, module=module)
    except tlc.TLCError as e:
        if not ctx.broken_observation(e):
            raise
        at = tlc.stuck(e.out)
        if at and at[0] <= len(rows) and at[1] <= len(rows[at[0] - 1]["ev"]):
            row, k = rows[at[0] - 1], at[1]
            try:
                tlc.judge([dict(row, ev=row["ev"][:k])], module=module)
            except tlc.TLCError as e2:
                if not ctx.broken_observation(e2):
                    raise
                return tlc.printed(e.out, "BAD ") + [{"id": row["id"], "ev": k, "bad": ["the answer cannot be evaluated: " + str(e2)[:1200]]}], 0, 0
        if len(rows) == 1:
            return [{"id": rows[0]["id"], "ev": len(rows[0]["ev"]), "bad": ["the answers cannot be evaluated: " + str(e)[:1200]]}], 0, 0
    bad, dis, gen, broken = [], 0, 0, 0
    with cf.ThreadPoolExecutor(4) as ex:
        for b, d, g in ex.map(lambda part: one_broken(ctx, part, module), split(rows, 4)):
            bad, dis, gen = bad + b, dis + d, gen + g
    return bad, dis, gen


def one_broken(ctx, rows, module):
    """Judges rows; of those that cannot be evaluated, one is reported."""
    bad, dis, gen = [], 0, 0
    while True:
        try:
            b, d, g = tlc.judge(rows, module=module, workers=2)
            return bad + b, dis + d, gen + g
        except tlc.TLCError as e:
            if not ctx.broken_observation(e):
                raise
            if len(rows) == 1:
                return bad + [{"id": rows[0]["id"], "ev": len(rows[0]["ev"]),
                               "bad": ["the answers cannot be evaluated: " + str(e)[:1200]]}], dis, gen
            half = rows[:len(rows) // 2]
            try:
                b, d, g = tlc.judge(half, module=module, workers=2)
                bad, dis, gen, rows = bad + b, dis + d, gen + g, rows[len(rows) // 2:]
            except tlc.TLCError as e2:
                if not ctx.broken_observation(e2):
                    raise
                rows = half


def split(xs, n):
    k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def ask_lnl(npt=2, **kw):
    def ask(s):
        for p in s.points(npt):
            s.add(drive.lnl(s.M, p, s.free, **kw))
    return ask
