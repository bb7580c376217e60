"""Composition sessions (spec/AlgebraGen.tla) replayed into the real classes."""
from engine import Model, exc, signal_base


class Session:
    """objs: the real object of every object of the specification."""

    def __init__(self, m, psrs):
        self.M = Model(m, psrs, build=False)
        self.objs = []

    def do(self, op):
        o = op["op"]
        get = lambda i: self.objs[i - 1]
        try:
            if o == "leaf":
                x = self.M.cls[op["k"] - 1]
            elif o == "list":
                x = signal_base.SignalCollection([self.M.cls[k - 1] for k in op["is"]])
            elif o == "sum":
                x = get(op["i"]) + get(op["j"])
            elif o == "bind":
                x = get(op["i"])(self.M.psrs[op["p"] - 1])
            else:
                is_ = op["is"]
                own = [get(i) for i in is_]  # the caller's list: hers to change afterwards
                x = signal_base.PTA(get(is_[0]) if len(is_) == 1 and len(self.objs) % 2 else own)
                {"pop": own.pop, "reverse": own.reverse, "repeat": lambda: own.extend(own)}.get(op.get("then"), lambda: None)()
        except Exception as e:
            x = e
        self.objs.append(x)

    def model(self, i):
        """The array as a model to put questions to."""
        pta = self.objs[i - 1]
        names = [p.name for p in self.M.psrs]
        arr = [{"p": names.index(sc.psrname) + 1, "s": [self.index(self.M.cls, type(x)) for x in sc.signals]} for sc in pta.pulsarmodels]
        return Model.over(self.M, pta, arr)

    # what objects show of themselves
    def access(self, is_):
        return {"op": "access", "is": is_, "obs": [self.show(i) for i in is_]}

    def show(self, i):
        x = self.objs[i - 1]
        try:
            if isinstance(x, Exception):
                return exc(x)
            if isinstance(x, signal_base.PTA):
                return self.show_array(x)
            if hasattr(x, "psrname"):
                return self.show_bound(x)
            return {"k": "unknown " + type(x).__name__}
        except Exception as e:
            return exc(e)

    @staticmethod
    def ask(fn):
        try:
            return str(fn())
        except Exception as e:
            return type(e).__name__

    @staticmethod
    def index(xs, x):
        return next((k + 1 for k, y in enumerate(xs) if y is x), 0)

    def show_bound(self, x):
        sg = list(x.signals)
        ix = lambda s: self.index(sg, s)
        n = len(sg)
        return {"k": "bound", "psr": x.psrname, "sigs": [self.index(self.M.cls, type(s)) for s in sg], "len": len(x),
                "keys": list(x.keys()), "items": [[k, ix(s)] for k, s in x.items()], "values": [ix(s) for s in x.values()],
                "bypos": [ix(x[k]) for k in range(n)], "byneg": [ix(x[-1 - k]) for k in range(n)],
                "byid": [ix(x[s.signal_id]) for s in sg], "unknown": self.ask(lambda: x["no such signal"]),
                "beyond": self.ask(lambda: x[n])}

    def show_array(self, x):
        scs = list(x.pulsarmodels)
        n = len(scs)
        ix = lambda s: self.index(scs, s)
        def place(s):
            return next(([a + 1, j + 1] for a, sc in enumerate(scs) for j, y in enumerate(sc.signals) if y is s), [0, 0])
        def rec(nm, s):
            a, j = place(s)
            return {"name": nm, "a": a, "j": j}
        return {"k": "array", "inst": [self.index(self.objs, s) for s in scs], "pulsars": list(x.pulsars), "keys": list(x.keys()),
                "len": len(x), "items": [[k, ix(s)] for k, s in x.items()], "values": [ix(s) for s in x.values()],
                "bypos": [ix(x[k]) for k in range(n)], "byneg": [ix(x[-1 - k]) for k in range(n)],
                "byid": [ix(x[p]) for p in x.keys()], "unknown": self.ask(lambda: x["J9999+9999"]),
                "signals": [rec(nm, s) for nm, s in x.signals.items()],
                "getsig": [rec(nm, x.get_signal(nm)) for nm in x.signals], "nosig": self.ask(lambda: x.get_signal("no such"))}
