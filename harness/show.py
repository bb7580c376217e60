"""What models say of themselves: PTA.summary and the representations, as data."""
import re

from engine import attempt

NUM = re.compile(r"^(np\.float64\()?[-+0-9.einf]+\)?$")


def split(s):
    """Arguments separated by commas outside brackets."""
    out, depth, cur = [], 0, ""
    for c in s:
        depth += (c in "([") - (c in ")]")
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return [x.strip() for x in out + [cur] if x.strip()]


def value(s):
    s = s.strip()
    if s == "None":
        return {"k": "none", "v": ""}
    if s.startswith("["):
        return {"k": "vec", "v": [repr(float(x)) for x in re.findall(r"[-+]?[0-9][-+0-9.e]*", s)]}
    try:
        return {"k": "num", "v": repr(float(re.sub(r"^np\.float64\((.*)\)$", r"\1", s)))}
    except ValueError:
        return {"k": "par", "v": re.split(r"[:(]", s)[0]}


def parameter(line):
    name, rest = line.strip().split(":", 1)
    if rest.startswith("Constant="):
        return True, dict(value(rest[len("Constant="):]), name=name)
    m = re.match(r"^(\w+)(?:\((.*)\))?(?:\[(\d+)\])?$", rest, re.S)
    args = [a.split("=", 1) for a in split(m.group(2) or "")]
    return False, {"name": name, "type": m.group(1), "size": int(m.group(3) or 0), "args": {k: value(v) for k, v in args}}


def table(text):
    """The table: entries of the signals and the totals."""
    body, tail = text.split("=" * 90)[2:4]
    sigs = []
    for block in body.split("_" * 90)[:-1]:
        head, _, pars = block.partition("params:")
        words = head.split()
        shape = re.search(r"Basis shape.*: \((\d+), (\d+)\)", head)
        sel = re.search(r"N selected toas: (\d+)", head)
        # an array may be broken over lines: its continuations have no name
        lines = []
        for ln in pars.split("\n"):
            if re.match(r"^[^\s:]+:[A-Z]", ln):
                lines.append(ln)
            elif ln.strip():
                lines[-1] += " " + ln.strip()
        pars = [parameter(ln) for ln in lines]
        sigs.append({"name": words[0], "class": words[1], "n": int(words[2]),
                     "sel": int(sel.group(1)) if sel else -1,
                     "shape": [int(x) for x in shape.groups()] if shape else [],
                     "pars": [p for c, p in pars if not c], "consts": [p for c, p in pars if c]})
    tot = {k.lower(): int(re.search(k + r"[a-z ]*: (\d+)", tail).group(1)) for k in ("Total", "Varying", "Common", "Fixed", "Number")}
    return {"sigs": sigs, "tot": tot}


def inside(text, kind):
    return re.match(r"^<Enterprise {} object:? ?(.*)>$".format(kind), text).group(1)


def words(s):
    return [x for x in (y.strip() for y in s.split(",")) if x]


def signal(s):
    ident, pars = re.match(r"^(.*?)\[(.*)\]$", inside(repr(s), "Signal")).groups()
    return {"id": ident.strip(), "pars": words(pars)}


def collection(sc):
    psr, keys = inside(repr(sc), "SignalCollection").split(": ", 1)
    return {"psr": psr, "keys": words(keys)}


def show(M, par):
    def all_(_=None):
        full, brief = table(M.pta.summary()), table(M.pta.summary(include_params=False))
        return {"k": "show", "sigs": full["sigs"], "tot": full["tot"], "brief": brief["tot"],
                "heads": [{"name": s["name"], "n": s["n"], "listed": len(s["pars"]) + len(s["consts"])} for s in brief["sigs"]],
                "pta": words(inside(repr(M.pta), "PTA")), "scs": [collection(sc) for sc in M.pta.pulsarmodels],
                "reprs": [[signal(s) for s in sc.signals] for sc in M.pta.pulsarmodels]}
    return {"op": "show", "par": par, "obs": attempt(all_)}
