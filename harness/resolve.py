"""Real functions and parameters for the declarations of spec/Resolve.tla."""
from engine import exc
from enterprise.signals import parameter
from enterprise.signals.parameter import Function, Constant, UserParameter


class Decl:
    def __init__(self, nodes):
        self.N = nodes
        self.memo = {}
        self.log = []

    def kids(self, d):
        return {n["kw"]: self.arg(i + 1) for i, n in enumerate(self.N) if n["up"] == d}

    def fn(self, d):
        def f(a="d%da" % d, b="d%db" % d, c="d%dc" % d):
            return "f{}(a={},b={},c={})".format(d, a, b, c)
        return f

    def par(self, d):
        def pdf(value, a="d%da" % d, b="d%db" % d, c="d%dc" % d):
            return 1.0

        def sampler(a="d%da" % d, b="d%db" % d, c="d%dc" % d, size=None):
            v = "v%d" % (len(self.log) + 1)
            self.log.append({"at": d, "args": {"a": a, "b": b, "c": c}, "v": v})
            return v
        return UserParameter(prior=Function(pdf, **self.kids(d)), sampler=sampler)

    def cls(self, d):
        if ("cls", d) not in self.memo:
            n = self.N[d - 1]
            self.memo["cls", d] = (Function(self.fn(d), name=n["fname"], **self.kids(d)) if n["t"] in ("fn", "finst")
                                   else self.par(d))
        return self.memo["cls", d]

    def arg(self, i):
        d = self.N[i - 1]["ref"] or i
        t = self.N[d - 1]["t"]
        if t == "lit":
            return "L%d" % d
        if t == "const":
            return Constant("C%d" % d)
        if t == "cinst":
            return self.memo.setdefault(d, Constant("C%d" % d)("I%d" % d))
        if t in ("inst", "finst"):
            if d not in self.memo:
                self.memo[d] = self.cls(d)("I%d" % d)
            return self.memo[d]
        return self.cls(d)

    def root(self):
        return Function(self.fn(0), **self.kids(0))


def names_of(f):
    return [p.name for p in f.params]


def calls(scn, r, extra):
    """Calls of two instances of one declaration, with explicit values and points."""
    ev = []
    D = Decl(scn["nodes"])
    try:
        cls = D.root()
        fs = [(nm, cls(nm)) for nm in ("p", "o")]
    except Exception as e:
        return [{"op": "flag", "what": "declaring a function", "obs": exc(e)}]
    subsets = [(), ("a",), ("b",), ("a", "b"), ("a", "b", "c"), ("c",)]
    for k in range(extra):
        nm, f = fs[k % 2]
        given = {x: "G" + x for x in subsets[r.randint(len(subsets))]} if k else {}
        ns = sorted(set(names_of(f)))
        par = {n: "<%s:%d>" % (n, k) for n in ns if k < 2 or r.rand() < 0.85}
        # names that are no parameters have no effect
        par.update({"a": "<a>", "zz": "<zz>"} if r.rand() < 0.5 else {})
        before = (dict(given), dict(par))
        try:
            o = {"k": "str", "v": f(params=par, **given)}
            if (given, par) != before:
                o = {"k": "str", "v": "the arguments were modified"}
        except Exception as e:
            o = exc(e)
        ev.append({"op": "resolve", "nodes": scn["nodes"], "name": nm, "given": given, "par": par, "obs": o, "params": names_of(f)})
    return ev


def draws(scn, r):
    D = Decl(scn["nodes"])
    try:
        roots = [(i + 1, n) for i, n in enumerate(scn["nodes"]) if n["up"] == 0]
        ps = [D.arg(i) for i, n in roots]
        ps = [p(n["kw"]) if isinstance(p, type) else p for p, (i, n) in zip(ps, roots)]
        order = r.permutation(len(ps))
        ps = [ps[j] for j in order]
        v = parameter.sample(ps)
        o = {"k": "draws", "tr": D.log, "v": v}
    except Exception as e:
        o = exc(e)
    return [{"op": "draws", "nodes": scn["nodes"], "obs": o}]
