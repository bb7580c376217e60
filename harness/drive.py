"""Questions put to real models; each answer is one event for spec/Judge.tla."""
import numpy as np

from engine import (Model, attempt, dense, exc, flat, mat, num, pyparams, record, signal_base, utils, vec)


def build_event(fn):
    """Builds a model; returns (model or None, event)."""
    try:
        return fn(), {"op": "build", "obs": {"k": "ok"}}
    except Exception as e:
        return None, {"op": "build", "obs": exc(e)}


def lnl(M, par, free=None, methods=("cliques", "partition", "sparse"), dense_too=True, repeat=False):
    p = M.params(par)
    obs = []
    def ask(how, fn):
        obs.append(attempt(fn, num, how=how))
    for me in methods:
        ask(me, lambda: M.pta.get_lnlikelihood(p, phiinv_method=me))
    if dense_too:
        ask("dense", lambda: signal_base.PTA(M.scs, lnlikelihood=signal_base.LogLikelihoodDenseCholesky).get_lnlikelihood(p))
    if repeat:
        ask("again", lambda: M.pta.get_lnlikelihood(p))
    if free is not None:
        ask("vector", lambda: M.pta.get_lnlikelihood(M.vector(free, par)))
    return {"op": "lnl", "par": par, "obs": obs}


def strs(x):
    return {"k": "strs", "v": [str(s) for s in x]}


def names(M, par):
    # par: a point, for the sizes of coefficient vectors
    pta = M.pta
    return {"op": "names", "par": par, "obs": {
        "pta": attempt(lambda: strs(pta.param_names)),
        "psr": [attempt(lambda: strs(sc.param_names)) for sc in pta.pulsarmodels],
        "sig": [[attempt(lambda: strs(s.param_names)) for s in sc.signals] for sc in pta.pulsarmodels]}}


def mapping(M, free, par):
    xs = flat(free, par)
    def conv(d):
        return {"k": "map", "v": {k: (v.tolist() if isinstance(v, np.ndarray) else float(v)) for k, v in d.items()}}
    return {"op": "map", "par": par, "xs": xs, "obs": attempt(lambda: M.pta.map_params(xs), conv)}


def lnprior(M, free, par):
    p = M.params(par)
    obs = [attempt(lambda: M.pta.get_lnprior(p), num, how="map")]
    if free is not None:
        obs.append(attempt(lambda: M.pta.get_lnprior(M.vector(free, par)), num, how="vector"))
    return {"op": "lnprior", "par": par, "obs": obs}


def cube(M, free, r, par):
    """Hypercube transform of a random point of the unit cube, given as vector or as dictionary."""
    n = sum(p["size"] or 1 for p in free)
    u = np.round(r.uniform(0.02, 0.98, n), 6)
    x = u
    if r.rand() < 0.5:
        x, at = {}, 0
        for p in free:
            k = p["size"] or 1
            x[p["name"]] = np.array(u[at:at + k]) if p["size"] else float(u[at])
            at += k
    return {"op": "cube", "par": par, "xs": u, "obs": attempt(lambda: M.pta.get_hypercube_transform(x), vec)}


def white(M, a, par, r, nx=2, nz=2, rhs=("nr", "nx")):
    """Solves of the white-noise covariance of pulsar a (0-based)."""
    sc = M.pta.pulsarmodels[a]
    p = M.params(par)
    n = len(M.psrs[M.m["arr"][a]["p"] - 1].residuals)
    res = np.array(M.psrs[M.m["arr"][a]["p"] - 1].residuals, float)
    X = r.randn(nx, n)
    Z = r.randn(nz, n)
    obs = []
    def ask(what, how, fn, conv):
        o = attempt(fn, conv, what=what, how=how)
        if o["k"] != "unsupported":
            obs.append(o)
    N = None
    try:
        N = sc.get_ndiag(p)
    except Exception as e:
        return {"op": "white", "a": a + 1, "par": par, "X": X, "Z": Z, "obs": [dict(exc(e), what="rr", how="get_ndiag")]}
    ask("rr", "", lambda: N.solve(res, left_array=res), num)
    ask("rr", "with logdet", lambda: N.solve(res, left_array=res, logdet=True)[0], num)
    ask("ld", "", lambda: N.solve(res, left_array=res, logdet=True)[1], num)
    ask("zx", "", lambda: N.solve(X.T.copy(), left_array=Z.T.copy()), mat)
    ask("zr", "", lambda: N.solve(res, left_array=Z.T.copy()), vec)
    mtm = any(M.m["sigs"][k - 1]["k"] == "mtm" for k in M.m["arr"][a]["s"])
    if mtm:       # only supports left factors
        rhs = ()
    if "rx" in rhs:
        ask("rx", "", lambda: N.solve(X.T.copy(), left_array=res), vec)
    if "nr" in rhs:
        ask("nr", "", lambda: N.solve(res), vec)
    if "nx" in rhs:
        ask("nx", "", lambda: N.solve(X.T.copy()), mat)
    if isinstance(N, np.ndarray):
        ask("diag", "", lambda: np.array(N), vec)
    ask("rr", "again", lambda: N.solve(res, left_array=res), num)
    return {"op": "white", "a": a + 1, "par": par, "X": X, "Z": Z, "obs": obs}


def sigwhite(M, a, j, par):
    p = M.params(par)
    return {"op": "sigwhite", "a": a + 1, "j": j + 1, "par": par,
            "obs": attempt(lambda: M.signal(a, j).get_ndiag(p), lambda x: vec(np.array(x)))}


def delay(M, par, atol=None):
    p = M.params(par)
    def conv(d):
        return num(d) if np.ndim(d) == 0 else vec(np.array(d))
    try:
        obs = [conv(d) for d in M.pta.get_delay(p)]
    except Exception as e:
        obs = [exc(e)] * len(M.m["arr"])
    e = {"op": "delay", "par": par, "obs": obs}
    if atol:
        e["atol"] = atol
    return e


def tphi(M, par):
    p = M.params(par)
    def one(sc):
        T = sc.get_basis(p)
        if T is None:
            return {"k": "none"}
        phi = np.asarray(sc.get_phi(p))
        return {"k": "tphi", "T": np.array(T), "phi": np.array(phi), "dense": phi.ndim == 2}
    return {"op": "tphi", "par": par, "obs": [attempt(lambda: one(sc)) for sc in M.pta.pulsarmodels]}


def share(M, par):
    p = M.params(par)
    ids, var, n = [], [], []
    try:
        for sc in M.pta.pulsarmodels:
            tab, i1, v1 = {}, [], []
            for s in sc.signals:
                F = s.get_basis(p)
                if F is None:
                    continue
                v1.append(len(s.basis_params) > 0)
                i1.append([tab.setdefault(c.tobytes(), len(tab) + 1) for c in np.array(F).T])
            T = sc.get_basis(p)
            ids.append(i1), var.append(v1), n.append(0 if T is None else T.shape[1])
    except Exception as e:
        return {"op": "flag", "what": "bases", "obs": exc(e)}
    return {"op": "share", "par": par, "obs": {"ids": ids, "var": var, "n": n}}


def localinv(M, par, most=4):
    """Inverse prior matrices as the models of single pulsars and their signals give them."""
    p = M.params(par)
    out = []
    for i in range(len(M.pta)):
        sc = M.pta[i]
        for what, x in [("pulsar", sc)] + [(s.signal_id, s) for s in sc.signals if s.signal_type == "basis"]:
            phi = attempt(lambda: x.get_phi(p), lambda o: {"k": "none"} if o is None else {"k": "phi", "phi": full([o])})
            if phi["k"] == "none" or (phi["k"] == "phi" and phi["phi"].shape[0] == 0):
                continue
            if phi["k"] == "phi":
                phi["inv"] = [attempt(lambda: x.get_phiinv(p), lambda o: {"k": "mat", "v": full([o])}, how="of " + what)]
            out.append({"op": "phiinv", "par": par, "obs": phi})
    return out[:most]


def full(blocks):
    """Block-diagonal matrix of prior blocks (vectors, matrices or None)."""
    import scipy.linalg as sl
    bs = [np.diag(np.asarray(b)) if np.ndim(b) == 1 else np.asarray(b) for b in blocks if b is not None]
    return sl.block_diag(*bs) if bs else np.zeros((0, 0))


def phiinv(M, par, order=(0, 1, 2)):
    p = M.params(par)
    pta = M.pta
    try:
        phi = pta.get_phi(p)
        phi = full(phi) if isinstance(phi, list) else dense(phi).copy()
    except Exception as e:
        return {"op": "phiinv", "par": par, "obs": exc(e)}
    inv = []
    def one(me, logdet, pta=pta):
        if me == "cholesky":
            x = pta.get_phiinv_byfreq_cliques(p, logdet=logdet, cholesky=True)
        else:
            x = pta.get_phiinv(p, logdet=logdet, method=me)
        if isinstance(x, list):
            if logdet:
                return {"k": "mat", "v": full([None if b is None else b[0] for b in x]),
                        "ld": float(sum(b[1] for b in x if b is not None))}
            return {"k": "mat", "v": full(x)}
        if logdet:
            return {"k": "mat", "v": dense(x[0]).copy(), "ld": float(x[1])}
        return {"k": "mat", "v": dense(x).copy()}
    if phi.shape[0] == 0:
        return None
    for me in [("cliques", "partition", "sparse")[i] for i in order] + ["cholesky"]:
        inv.append(attempt(lambda: one(me, True), how=me + " with log determinant"))
        inv.append(attempt(lambda: one(me, False), how=me))
    return {"op": "phiinv", "par": par, "obs": {"k": "phi", "phi": phi, "inv": inv}}


def bigphi(M, par):
    p = M.params(par)
    try:
        T = [sc.get_basis(p) for sc in M.pta.pulsarmodels]
        phi = M.pta.get_phi(p)
        phi = full(phi) if isinstance(phi, list) else dense(phi)
        obs = {"k": "big", "T": [[] if t is None else np.array(t) for t in T], "phi": np.array(phi)}
    except Exception as e:
        obs = exc(e)
    return {"op": "bigphi", "par": par, "obs": obs}


def tnt(M, par):
    p = M.params(par)
    def one(sc):
        T = sc.get_basis(p)
        rr, ld = sc.get_rNr_logdet(p)
        if T is None:
            return {"k": "tnt", "T": [], "rr": float(rr), "ld": float(ld)}
        return {"k": "tnt", "T": np.array(T), "TNT": np.array(sc.get_TNT(p)), "TNr": np.array(sc.get_TNr(p)), "rr": float(rr),
                "ld": float(ld)}
    return {"op": "tnt", "par": par, "obs": [attempt_tnt(one, sc) for sc in M.pta.pulsarmodels]}


def attempt_tnt(one, sc):
    try:
        return one(sc)
    except Exception as e:
        return dict(exc(e), T=[])


def sigprior(M, par):
    p = M.params(par)
    return {"op": "sigprior", "par": par, "obs": [
        attempt(lambda: sc.get_logsignalprior(p), num) for sc in M.pta.pulsarmodels]}


def joint(M, par):
    p = M.params(par)
    return {"op": "joint", "par": par, "obs": {"lnl": attempt(lambda: M.pta.get_lnlikelihood(p), num),
                                               "lnprior": attempt(lambda: M.pta.get_lnprior(p), num)}}


def cond(M, par, r, n=1200, methods=("cliques",), tm=None, draws=True):
    """Conditional coefficients by both interfaces.  tm: (a, j) of a timing model with all columns."""
    p = M.params(par)
    pta = M.pta
    names = [s.name for sc in pta.pulsarmodels for s in sc.signals
             if s.signal_type in ("basis", "common basis") and s.get_basis(p) is not None]
    obs = []

    def conv(d):
        return {"k": "map", "v": {k: np.asarray(v, float).tolist() for k, v in d.items()}}

    def summary(ds):
        x = np.array([np.concatenate([d.get(k + "_coefficients", []) for k in names]) for d in ds])
        return {"k": "draws", "n": len(ds), "mean": x.mean(axis=0), "cov": np.cov(x.T).reshape(x.shape[1], -1)}

    def psummary(ds):
        return {"k": "map", "n": len(ds), "v": {k: {"mean": np.mean([d[k] for d in ds], axis=0).tolist(), "var": np.var([d[k] for d in ds], axis=0).tolist()}
                                                for k in ds[0]}}
    before = {k: np.copy(v) for k, v in p.items()}
    for me in methods:
        sparse = bool(r.rand() < 0.5)
        G = lambda **kw: utils.get_coefficients(pta, p, phiinv_method=me, common_sparse=sparse, **kw)
        how = "get_coefficients, " + me + (", sparse" if sparse else "")
        C = utils.ConditionalGP(pta, phiinv_method=me)
        np.random.seed(r.randint(1 << 31))
        obs.append(attempt(lambda: conv(G(variance=False)), what="mean", how=how, more=par))
        obs.append(attempt(lambda: conv(C.get_mean_coefficients(p)), what="mean", how="ConditionalGP, " + me, more={}))
        obs.append(attempt(lambda: conv(C.get_mean_processes(p)), what="process", how="ConditionalGP, " + me))
        if draws:
            obs.append(attempt(lambda: summary(G(n=n)), what="draws", how=how))
            obs.append(attempt(lambda: summary(C.sample_coefficients(p, n)), what="draws", how="ConditionalGP, " + me))
            obs.append(attempt(lambda: psummary(C.sample_processes(p, n)), what="pdraws", how="ConditionalGP, " + me))
    if tm is not None:
        a, j = tm
        psr = M.psrs[M.m["arr"][a]["p"] - 1]
        col = int(r.randint(len(psr.fitpars)))
        C = utils.ConditionalGP(pta, tm_params=[psr.fitpars[col]], psr=psr)
        obs.append(attempt(lambda: num(C.get_mean_coefficients(p)[psr.name + "_" + psr.fitpars[col] + "_coefficients"]),
                           what="tm", how="ConditionalGP for " + psr.fitpars[col], a=a + 1, j=j + 1, col=col + 1))
    ev = [{"op": "cond", "par": par, "obs": obs}]
    if set(before) != set(p) or not all(np.array_equal(before[k], p[k]) for k in p):
        ev.append({"op": "flag", "what": "conditional draws", "obs": {"k": "exc", "v": "the given parameters were changed"}})
    return ev


def wide(M, par, a, j, joint=False):
    """What a wideband timing model says of the dispersion measures."""
    p = M.params(par)
    sg = M.signal(a, j)
    psr = M.psrs[M.m["arr"][a]["p"] - 1] if hasattr(M, "m") else None
    obs = []
    def ask(what, fn, conv, **kw):
        obs.append(attempt(fn, conv, what=what, **kw))
    ask("dm", lambda: sg.get_dm(p), vec), ask("dme", lambda: sg.get_dme(p), vec)
    ask("mean_dm", lambda: sg.get_mean_dm(p), vec), ask("mean_dme", lambda: sg.get_mean_dme(p), vec)
    ask("phi", lambda: sg.get_phi(p), vec), ask("delay", lambda: sg.get_delay(p), vec)
    ask("prior", lambda: sg.get_logsignalprior(p), num)
    for mean in (False, True):
        ask("delta", lambda: sg.get_delta_dm(p, use_mean_dm=mean), vec, mean=mean)
        ask("chi2", lambda: sg.get_dm_chi2(p, use_mean_dm=mean), num, mean=mean)
    if joint:
        ask("joint", lambda: M.pta.get_lnlikelihood(p), num)
    return {"op": "wide", "par": par, "a": a + 1, "j": j + 1, "obs": obs}


def pulsars(m, psrs):
    """What the pulsars of the model say, after all that was done with them."""
    ev = []
    for k, (d, p) in enumerate(zip(m["psrs"], psrs)):
        def now():
            o = record(p, ephem="planets" in d)
            if "stoas" in d:
                o["stoas"] = np.asarray(p.stoas).tolist()
            return {"k": "psr", "v": {f: v for f, v in o.items() if f in d}}
        ev.append({"op": "pulsar", "p": k + 1, "obs": attempt(now)})
    return ev


def given(M, par, free, r):
    """What becomes of the values that a model is given, as a dictionary and as a vector."""
    pta = M.pta
    p, xs = pyparams(par), flat(free, par)
    was = xs.copy()
    calls = [lambda: pta.get_lnlikelihood(p), lambda: pta.get_lnlikelihood(xs), lambda: pta.get_lnprior(p), lambda: pta.get_lnprior(xs),
             lambda: pta.map_params(xs), lambda: pta.get_TNT(p), lambda: pta.get_TNr(p), lambda: pta.get_phi(p), lambda: pta.get_phiinv(p, logdet=True),
             lambda: pta.get_basis(p), lambda: pta.get_delay(p), lambda: pta.get_ndiag(p), lambda: pta.get_rNr_logdet(p), lambda: pta.get_residuals(),
             lambda: pta.summary(), lambda: pta.get_logsignalprior(p), lambda: [[q.get_logpdf(params=p), q.sample()] for q in pta.params]]
    for k in r.permutation(len(calls))[:8]:
        try:
            calls[k]()
        except Exception:       # what cannot be asked is judged elsewhere
            pass
    return [{"op": "given", "par": par, "obs": {"k": "map", "v": {k: np.asarray(v).tolist() for k, v in p.items()}, "xs": xs}, "xs": was}]
