------------------------------- MODULE Judge --------------------------------
(* Verdict on one observed event of a scenario: the set of clauses that the   *)
(* observation breaks, each with the expected and the observed value.         *)
EXTENDS Conditional, Resolve, Sphere, Kernels, Metadata, Inspect, Eccentric, Refusal

Exp(o) == IF o.k = "num" THEN o.v ELSE IF o.k = "exc" THEN "exception " \o o.v ELSE o.k
NumBad(label, o, e, rtol, atol) ==
  IF o.k = "num" /\ Close(e, o.v, rtol, atol) THEN {}
  ELSE {label \o ": expected " \o RShow(e) \o ", observed " \o Exp(o)}
FirstOff(e, o, ok(_, _)) ==
  IF Len(e) # Len(o) THEN "length " \o ToString(Len(o)) \o " instead of " \o ToString(Len(e))
  ELSE LET k == CHOOSE k \in 1..Len(e) : ~ok(e[k], o[k]) /\ \A j \in 1..k - 1 : ok(e[j], o[j])
       IN  "entry " \o ToString(k) \o ": expected " \o RShow(e[k]) \o ", observed " \o RShow(o[k])
VecBad(label, o, e, rtol, atol) ==
  IF o.k # "vec" THEN {label \o ": observed " \o Exp(o)}
  ELSE IF Len(e) = Len(o.v) /\ \A i \in 1..Len(e) : Close(e[i], o.v[i], rtol, atol) THEN {}
  ELSE {label \o ": " \o FirstOff(e, o.v, LAMBDA x, y : Close(x, y, rtol, atol))}
VecTol(label, o, e, tol(_)) ==
  IF o.k # "vec" THEN {label \o ": observed " \o Exp(o)}
  ELSE IF Len(e) # Len(o.v) THEN {label \o ": length " \o ToString(Len(o.v)) \o " instead of " \o ToString(Len(e))}
  ELSE LET off == {k \in 1..Len(e) : ~RLe(RAbs(RSub(e[k], o.v[k])), tol(k))}
       IN  IF off = {} THEN {} ELSE LET k == CHOOSE k \in off : TRUE
                                    IN  {label \o ": entry " \o ToString(k) \o ": expected " \o RShow(e[k]) \o ", observed " \o RShow(o.v[k])}
\* vectors: tolerance relative to the largest expected entry
VecBadMax(label, o, e, rtol) == VecBad(label, o, e, "1e-14", RMul(rtol, MaxAbs(e)))
\* matrices: entry tolerance tol(i, j)
MatBad(label, o, e, tol(_, _)) ==
  IF o.k # "mat" THEN {label \o ": observed " \o Exp(o)}
  ELSE IF Len(e) # Len(o.v) \/ (Len(e) > 0 /\ Len(e[1]) # Len(o.v[1]))
       THEN {label \o ": shape " \o ToString(Len(o.v)) \o " rows instead of " \o ToString(Len(e))}
  ELSE LET off == {p \in (1..Len(e)) \X (1..NCols(e)) :
                     ~RLe(RAbs(RSub(e[p[1]][p[2]], o.v[p[1]][p[2]])), tol(p[1], p[2]))}
       IN  IF off = {} THEN {}
           ELSE LET p == CHOOSE p \in off : TRUE
                IN  {label \o ": entry " \o ToString(p) \o ": expected " \o RShow(e[p[1]][p[2]])
                      \o ", observed " \o RShow(o.v[p[1]][p[2]])}
MatBadMax(label, o, e, rtol) == LET t == RMul(rtol, MatMaxAbs(e)) IN MatBad(label, o, e, LAMBDA i, j : t)
\* relative to the diagonal, for covariances and their inverses
MatBadSlack(label, o, e, rtol, sl) ==     \* and an absolute slack per element of the vector whose covariance this is
  LET d == TLCEval(RVec([i \in 1..Len(e) |-> RSqrt(RAbs(e[i][i]))]))
  IN  MatBad(label, o, e, LAMBDA i, j : RAdd(RMul(rtol, RMul(d[i], d[j])), RAdd(RMul(sl[i], RAdd(d[j], sl[j])), RMul(d[i], sl[j]))))
MatBadDiag(label, o, e, rtol) ==
  LET d == RVec([i \in 1..Len(e) |-> RSqrt(RAbs(e[i][i]))])
  IN  MatBad(label, o, e, LAMBDA i, j : RMul(rtol, RMul(d[i], d[j])))
EqBad(label, o, e) == IF o.v = e THEN {} ELSE {label \o ": expected " \o ToString(e) \o ", observed " \o ToString(o.v)}

(* ---- likelihood ------------------------------------------------------------ *)
WideRound(m, a, env) ==
  LET ws == SelectSeq(m.arr[a].s, LAMBDA s : m.sigs[s].k = "wtm")
  IN  RSum(RVec([k \in 1..Len(ws) |-> WTRound(Psr(m, a), m.sigs[ws[k]], env)]))
\* what the rounding of ephemeris delays (see drive.delay) can amount to
EphRound(m, a, env) ==
  IF \A j \in 1..Len(m.arr[a].s) : m.sigs[m.arr[a].s[j]].k # "eph" THEN R(0)
  ELSE LET r == DetRes(m, a, env)  v == NDiag(m, a, env)
       IN  RMul("4e-12", RSum(RVec([i \in 1..Len(r) |-> RDiv(RAbs(r[i]), v[i])])))
LnTol(m, e, env) ==
  RAdd(RAdd(Get(e, "atol", "2e-6"), RSum(RVec([a \in 1..Len(m.arr) |-> EphRound(m, a, env)]))), RSum(RVec([a \in 1..Len(m.arr) |-> WideRound(m, a, env)])))
\* methods that have to answer; others may state that they do not support a model
DenseAny(m) == \E s \in 1..Len(m.sigs) : Has(m.sigs[s], "prior") /\ DensePrior(m.sigs[s].prior)
MustSupport(m, how) ==
  ~StrPrefix("partition", how) \/ Correlated(m) = <<>> \/ (Len(Correlated(m)) = 1 /\ ~DenseAny(m))
JLnl(m, e, env) ==
  LET x == TLCEval(LnLike(m, env))
      one(o) == IF o.k = "unsupported" /\ ~MustSupport(m, o.how) THEN {}
                ELSE NumBad("lnlikelihood " \o o.how, o, x, "1e-8", LnTol(m, e, env))
      bad == UNION {one(e.obs[k]) : k \in 1..Len(e.obs)}
      dev == TLCEval(LnLike(m @@ [spanof |-> e.spanof], env))
  IN  IF bad # {} /\ Has(e, "spanof") /\ \A k \in 1..Len(e.obs) : NumBad("", e.obs[k], dev, "1e-8", LnTol(m, e, env)) = {}
      THEN {"the automatic span is not that of the array, but that of pulsars " \o ToString(e.spanof) \o " (by pulsar): " \o ToString(bad)}
      ELSE IF bad # {} /\ Has(e, "note") THEN {e.note \o ": " \o ToString(bad)}
      ELSE bad
(* ---- names ------------------------------------------------------------------ *)
JNames(m, e, env) ==
  EqBad("param_names", e.obs.pta, ParamNames(m, env))
  \cup UNION {EqBad("param_names of pulsar " \o ToString(a), e.obs.psr[a],
                Expand(SortByName(UNION {SigDirect(m, a, s, env) : s \in RangeOf(m.arr[a].s)}))) : a \in 1..Len(m.arr)}
  \cup UNION {UNION {
        LET s == m.arr[a].s[k]
            o == e.obs.sig[a][k]
            x == Expand(SortByName(SigDirect(m, a, s, env)))
        IN  IF RangeOf(o.v) = RangeOf(x) THEN {}
            ELSE {"param_names of signal " \o ToString(<<a, k>>) \o ": expected " \o ToString(x) \o ", observed " \o ToString(o.v)}
        : k \in 1..Len(m.arr[a].s)} : a \in 1..Len(m.arr)}
\* the point a vector denotes: a function from names to values
MapPoint(ps, xs) ==
  LET off(k) == LET RECURSIVE S(_)
                    S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + (IF ps[j].size = 0 THEN 1 ELSE ps[j].size)
                IN  S(k - 1)
  IN  [n \in {ps[k].name : k \in 1..Len(ps)} |->
         LET k == CHOOSE k \in 1..Len(ps) : ps[k].name = n
         IN  IF ps[k].size = 0 THEN xs[off(k) + 1] ELSE SubSeq(xs, off(k) + 1, off(k) + ps[k].size)]
SameVal(x, y) == LET a == VecOf(x)  b == VecOf(y)
                 IN  IsVector(x) = IsVector(y) /\ Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i])
JMap(m, e, env) ==
  LET x == MapPoint(SortByName(FreeParams(m, env)), e.xs)
  IN  IF e.obs.k # "map" THEN {"map_params: " \o Exp(e.obs)}
      ELSE (IF DOMAIN x = DOMAIN e.obs.v /\ \A n \in DOMAIN x : SameVal(x[n], e.obs.v[n]) THEN {}
            ELSE {"map_params: expected " \o ToString(x) \o ", observed " \o ToString(e.obs.v)})
JLnPrior(m, e, env) ==
  LET out == \E p \in FreeParams(m, env) : p.pr.d # "C" /\ REq(PdfOf(p, env.par[p.name], env), 0)
      x == TLCEval(IF out THEN R(0) ELSE LnPrior(m, env))
      one(o) == IF out THEN (IF o.k = "num" /\ o.v = "-inf" THEN {} ELSE {"lnprior " \o o.how \o ": outside of the support, observed " \o Exp(o)})
                ELSE NumBad("lnprior " \o o.how, o, x, "1e-9", "1e-8")
  IN  UNION {one(e.obs[k]) : k \in 1..Len(e.obs)}
(* ---- hierarchical form ----------------------------------------------------------- *)
\* likelihood and prior of the coefficients c make up the joint density: that of the marginal model
\* times the conditional density of c, with mean (phi^-1 + F'C^-1 F)^-1 F'C^-1 r
CondCoef(m, a, env) ==
  LET ss == SelectSeq(m.arr[a].s, LAMBDA s : m.sigs[s].k = "gp" /\ IsCoef(m.sigs[s]))
      parts == Concat([k \in 1..Len(ss) |-> LET g == GPParts(m, a, ss[k], env) IN [j \in 1..Len(g) |-> [p |-> g[j], s |-> ss[k]]]])
      F == Concat([k \in 1..Len(parts) |-> parts[k].p.cols])
      c == Concat([k \in 1..Len(parts) |-> RVec(VecOf(env.par[CoefName(parts[k].p.pre)]))])
      n == Len(F)
      off(k) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + Len(parts[j].p.cols) IN S(k - 1)
      inv(k) == LET q == parts[k] IN
                IF DensePrior(m.sigs[q.s].prior) THEN MatInverse(DenseFn(m.sigs[q.s].prior, q.p.pre, env, q.p.labels))
                ELSE LET w == PartPhi(m.sigs[q.s], q.p, env) IN DiagMat(RVec([i \in 1..Len(w) |-> RDiv(1, w[i])]))
      RECURSIVE PutAll(_, _)
      PutAll(k, A) == IF k > Len(parts) THEN A
                      ELSE LET B == inv(k)
                           IN  PutAll(k + 1, TLCEval([i \in 1..n |-> RVec([j \in 1..n |->
                                 IF i > off(k) /\ i <= off(k) + Len(B) /\ j > off(k) /\ j <= off(k) + Len(B)
                                 THEN RAdd(A[i][j], B[i - off(k)][j - off(k)]) ELSE A[i][j]])]))
      r0 == RVAdd(DetRes(m, a, env), SumVecs(NToa(m, a), [k \in 1..Len(ss) |-> CoefDelay(m, a, ss[k], env)]))
      Fa == Factor(PsrCov(m, a, env), Transpose(RMat(<<r0>> \o F)))
      FNF == TLCEval(FGramMat(Fa, [i \in 1..n |-> i + 1], [i \in 1..n |-> i + 1]))
      FNr == RVec([i \in 1..n |-> FGram(Fa, 1, i + 1)])
      Sinv == PutAll(1, FNF)
      d == RVSub(c, Solve(Sinv, FNr))
  IN  IF n = 0 THEN R(0)
      ELSE RMul("-0.5", RAdd(RSub(RDot(d, MatVec(Sinv, d)), LogDet(Sinv)), RMul(n, RLn(TwoPi))))
JJoint(m, e, env) ==
  LET m0 == [m EXCEPT !.sigs = [k \in 1..Len(m.sigs) |-> IF m.sigs[k].k = "gp" THEN [m.sigs[k] EXCEPT !.coef = FALSE] ELSE m.sigs[k]]]
      fp == SetToSeq({p \in FreeParams(m, env) : p.pr.d # "C"})
      plain == RSum(RVec([k \in 1..Len(fp) |-> RLn(PdfOf(fp[k], env.par[fp[k].name], env))]))
      x == TLCEval(RAdd(plain, RAdd(LnLike(m0, env), RSum(RVec([a \in 1..Len(m.arr) |-> CondCoef(m, a, env)])))))
  IN  IF e.obs.lnl.k # "num" \/ e.obs.lnprior.k # "num" THEN {"likelihood and prior: " \o Exp(e.obs.lnl) \o ", " \o Exp(e.obs.lnprior)}
      ELSE NumBad("likelihood times prior of the hierarchical model", [k |-> "num", v |-> RShow(RAdd(e.obs.lnl.v, e.obs.lnprior.v))], x, "1e-8", "1e-6")
(* ---- priors ----------------------------------------------------------------------- *)
\* hyperparameters of p at the values in env
DistArg(p, env, k, kw) == R(PrArg(p.pr, p.name, kw, env, k))
InSupport(p, x, env) ==
  LET xs == VecOf(x) IN \A k \in 1..Len(xs) : Support1(p.pr.d, LAMBDA kw : DistArg(p, env, k, kw), R(xs[k]))
CdfAt(p, env, k, x) == Cdf1(p.pr.d, LAMBDA kw : DistArg(p, env, k, kw), R(x))
\* density and log density at x; quantiles at e.q (whole vectors)
JPrior(e, env) ==
  LET p == e.p
      x == TLCEval(PdfOf(p, e.x, env))
      lp(o) == IF REq(x, 0) THEN (IF o.k = "num" /\ o.v = "-inf" THEN {} ELSE {"log density: expected -inf, observed " \o Exp(o)})
               ELSE NumBad("log density", o, RLn(x), "1e-9", "1e-9")
  IN  (IF Has(e.obs, "pdf") THEN NumBad("density", e.obs.pdf, x, "1e-9", "0") ELSE {})
      \cup lp(e.obs.logpdf)
JQuantile(e, env) ==
  LET p == e.p  q == VecOf(e.q)  n == IF p.size = 0 THEN 1 ELSE p.size
  IN  IF e.obs.k = "unsupported" /\ (p.pr.d \in {"TN", "IG"} \/ IsCovNormal(p)) THEN {}
      ELSE IF e.obs.k # "vec" \/ Len(e.obs.v) # n THEN {"quantile: observed " \o (IF e.obs.k = "vec" THEN "length " \o ToString(Len(e.obs.v)) ELSE Exp(e.obs))}
      ELSE UNION {LET c == CdfAt(p, env, k, e.obs.v[k])
                  IN  IF Close(c, q[k], "1e-8", "1e-10") THEN {}
                      ELSE {"quantile of " \o RShow(R(q[k])) \o " is " \o RShow(R(e.obs.v[k])) \o ", where the distribution function is " \o RShow(c)}
                  : k \in 1..n}
\* samples: each has the values of the hyperparameters drawn with it; the probability integral
\* transform of the draws is uniform (Kolmogorov-Smirnov statistic below 2.6)
JSamples(e, env) ==
  LET p == e.p  n == Len(e.draws)
      ev(d) == [env EXCEPT !.par = MergeEnv(env.par, d)]
      shape(d) == LET v == d[p.name] IN IF p.size = 0 THEN ~IsVector(v) ELSE IsVector(v) /\ Len(v) = p.size
      ks(k) == LET us == TLCEval([i \in 1..n |-> CdfAt(p, ev(e.draws[i]), k, VecOf(e.draws[i][p.name])[k])])
                   so == SortSeq(us, LAMBDA x, y : RLt(x, y))
                   off == RMul("2.6", RSqrt(n))          \* n D < 2.6 sqrt n
               IN  \A i \in 1..n : /\ RLe(RSub(i, RMul(n, so[i])), off)
                                   /\ RLe(RSub(RMul(n, so[i]), i - 1), off)
  IN  IF \E i \in 1..n : p.name \notin DOMAIN e.draws[i] THEN {"no sample of the parameter"}
      ELSE IF \E i \in 1..n : ~shape(e.draws[i]) THEN {"samples have a different shape"}
      ELSE IF \E i \in 1..n : ~InSupport(p, e.draws[i][p.name], ev(e.draws[i])) THEN {"samples outside the support"}
      ELSE IF IsCovNormal(p) THEN {}
      ELSE UNION {IF ks(k) THEN {} ELSE {"samples do not follow the distribution, entry " \o ToString(k)} : k \in 1..Len(VecOf(e.draws[1][p.name]))}
\* the hypercube transform: every coordinate by its quantile function, with transformed hyperparameters
JCube(m, e, env) ==
  LET ps == SortByName(FreeParams(m, env))
      y == MapPoint(ps, e.obs.v)  u == MapPoint(ps, e.xs)
      n == LET RECURSIVE S(_)
               S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + (IF ps[j].size = 0 THEN 1 ELSE ps[j].size) IN S(Len(ps))
      ev == [env EXCEPT !.par = y]
      quantiles == \A k \in 1..Len(ps) : ps[k].pr.d \in {"U", "N", "LE", "UE", "UL"}
  IN  IF ~quantiles THEN {}
      ELSE IF e.obs.k # "vec" \/ Len(e.obs.v) # n THEN {"hypercube transform: " \o (IF e.obs.k = "vec" THEN "length " \o ToString(Len(e.obs.v)) ELSE Exp(e.obs))}
      ELSE UNION {LET p == ps[k] IN UNION {
             IF Close(CdfAt(p, ev, j, VecOf(y[p.name])[j]), VecOf(u[p.name])[j], "1e-8", "1e-10") THEN {}
             ELSE {"hypercube transform of " \o p.name \o ": quantile " \o RShow(R(VecOf(u[p.name])[j])) \o " mapped to " \o RShow(R(VecOf(y[p.name])[j]))
                   \o ", where the distribution function is " \o RShow(CdfAt(p, ev, j, VecOf(y[p.name])[j]))}
             : j \in 1..Len(VecOf(y[p.name]))} : k \in 1..Len(ps)}
(* ---- white noise --------------------------------------------------------------- *)
\* e.X, e.Z: columns; obs: what the solves gave
JWhite(m, e, env) ==
  LET a == e.a
      \* a marginalized timing model is part of the white noise
      tms == SigsOf(m, a, {"mtm"})
      C == MatAdd(NCov(m, a, env), SumMats(NToa(m, a), [k \in 1..Len(tms) |-> TMCov(m, a, tms[k], env)]))
      r == RVec(Psr(m, a).res)
      nx == Len(e.X)  nz == Len(e.Z)
      F == Factor(C, Transpose(RMat(<<r>> \o e.X \o e.Z)))
      g(i, j) == FGram(F, i, j)
      X(i) == 1 + i   Z(i) == 1 + nx + i
      S == TLCEval(FGramMat(F, [i \in 1..nz |-> Z(i)], [j \in 1..nx |-> X(j)]))
      sx == RVec([j \in 1..nx |-> RSqrt(g(X(j), X(j)))])
      sz == RVec([i \in 1..nz |-> RSqrt(g(Z(i), Z(i)))])
      one(o) ==
        CASE o.what = "rr" -> NumBad("r'N^-1 r " \o o.how, o, g(1, 1), "1e-9", "1e-9")
          [] o.what = "ld" -> NumBad("log det N " \o o.how, o, FLogDet(F), "1e-11", "1e-8")
          [] o.what = "zx" -> MatBad("Z'N^-1 X " \o o.how, o, S, LAMBDA i, j : RMul("1e-9", RMul(sz[i], sx[j])))
          [] o.what = "zr" -> LET v == RVec([i \in 1..nz |-> g(Z(i), 1)])
                              IN  IF o.k = "vec" /\ Len(o.v) = nz /\ \A i \in 1..nz : RLe(RAbs(RSub(v[i], o.v[i])), RMul("1e-9", RMul(sz[i], RSqrt(g(1, 1))))) THEN {}
                                  ELSE {"Z'N^-1 r " \o o.how \o ": " \o (IF o.k # "vec" THEN Exp(o) ELSE "expected " \o ToString(RVec(v)) \o ", observed " \o ToString(RVec(o.v)))}
          [] o.what = "rx" -> LET v == RVec([i \in 1..nx |-> g(X(i), 1)])
                              IN  IF o.k = "vec" /\ Len(o.v) = nx /\ \A i \in 1..nx : RLe(RAbs(RSub(v[i], o.v[i])), RMul("1e-9", RMul(sx[i], RSqrt(g(1, 1))))) THEN {}
                                  ELSE {"r'N^-1 X " \o o.how \o ": " \o (IF o.k # "vec" THEN Exp(o) ELSE "expected " \o ToString(RVec(v)) \o ", observed " \o ToString(RVec(o.v)))}
          [] o.what = "nr" -> LET q == Solve(C, r)
                              IN  VecBadMax("N^-1 r " \o o.how, o, q, "1e-9")
          [] o.what = "nx" -> LET q == TLCEval([j \in 1..nx |-> Solve(C, RVec(e.X[j]))])
                              IN  MatBadMax("N^-1 X " \o o.how, o, Transpose(q), "1e-9")
          [] o.what = "diag" -> VecBad("variances " \o o.how, o, NDiag(m, a, env), "1e-11", "0")
  IN  UNION {one(e.obs[k]) : k \in 1..Len(e.obs)}
\* per-signal white noise variances
JSigWhite(m, e, env) ==
  VecBad("variances of signal", e.obs, WhiteVar(m, e.a, m.arr[e.a].s[e.j], env), "1e-11", "0")
\* products with the reported basis T: T'N^-1 T, T'N^-1 r, r'N^-1 r and log det N, per pulsar
JTnt(m, e, env) ==
  UNION {
    LET o == e.obs[a]
        lab == " of pulsar " \o ToString(a)
        r == DetRes(m, a, env)
        C == NCov(m, a, env)
        nt == IF o.T = <<>> THEN 0 ELSE NCols(o.T)
        F == Factor(C, IF nt = 0 THEN Transpose(RMat(<<r>>)) ELSE Transpose(RMat(<<r>> \o Transpose(RMat(o.T)))))
        S == TLCEval(FGramMat(F, [i \in 1..nt |-> i + 1], [i \in 1..nt |-> i + 1]))
        v == RVec([i \in 1..nt |-> FGram(F, 1, i + 1)])
        sd == RVec([i \in 1..nt |-> RSqrt(RAbs(S[i][i]))])
        rr == FGram(F, 1, 1)
    IN  IF o.k # "tnt" THEN {"products with the basis" \o lab \o ": " \o Exp(o)}
        ELSE NumBad("r'N^-1 r" \o lab, [k |-> "num", v |-> o.rr], rr, "1e-9", "1e-9")
             \cup NumBad("log det N" \o lab, [k |-> "num", v |-> o.ld], FLogDet(F), "1e-11", "1e-8")
             \cup (IF nt = 0 THEN {}
                   ELSE MatBadDiag("T'N^-1 T" \o lab, [k |-> "mat", v |-> o.TNT], S, "1e-9")
                        \cup (IF Len(o.TNr) = nt /\ \A i \in 1..nt : RLe(RAbs(RSub(v[i], o.TNr[i])), RMul("1e-9", RMul(sd[i], RSqrt(rr)))) THEN {}
                              ELSE {"T'N^-1 r" \o lab \o ": expected " \o ToString(v) \o ", observed " \o ToString(RVec(o.TNr))}))
    : a \in 1..Len(m.arr)}
(* ---- delays ----------------------------------------------------------------------- *)
\* sums of columns and coefficients: rounding (of the phases above all) is set by the terms, not by their sum
CoefSize(m, a, env) ==
  LET terms(cols, c) == RSum(RVec([k \in 1..Len(cols) |-> RMul(MaxAbs(cols[k]), RAbs(c[k]))]))
      gp(s) == LET ps == GPParts(m, a, s, env)
               IN  RSum(RVec([k \in 1..Len(ps) |-> terms(ps[k].cols, VecOf(env.par[CoefName(ps[k].pre)]))]))
      one(s) == CASE ~IsCoef(m.sigs[s]) -> R(0)
                  [] m.sigs[s].k = "gp" -> gp(s)
                  [] m.sigs[s].k = "cgp" ->
                       LET nm == IF Has(m.sigs[s], "coefname") THEN m.sigs[s].coefname ELSE CoefName(JoinNE(<<Psr(m, a).name, m.sigs[s].name>>))
                       IN  terms(CBasis(m, a, s, env).cols, VecOf(env.par[nm]))
                  [] OTHER -> R(0)
  IN  RSum(RVec([k \in 1..Len(m.arr[a].s) |-> one(m.arr[a].s[k])]))
JDelay(m, e, env) ==
  UNION {LET d == Delay(m, a, env)
             o == e.obs[a]
             size == TLCEval(RMul("4e-12", CoefSize(m, a, env)))
         IN  IF o.k = "num" /\ MaxAbs(d) = R(0) /\ REq(o.v, 0) THEN {}
             ELSE IF o.k = "num" /\ REq(o.v, 0) THEN VecBad("delay of pulsar " \o ToString(a), [k |-> "vec", v |-> [i \in 1..Len(d) |-> 0]], d, "1e-14", RAdd(size, RMul("1e-10", MaxAbs(d))))
             ELSE VecBad("delay of pulsar " \o ToString(a), o, d, "1e-12", RAdd(size, RAdd(Get(e, "atol", "0"), RMul("1e-10", MaxAbs(d)))))
         : a \in 1..Len(m.arr)}
(* ---- bases and priors --------------------------------------------------------------- *)
\* the observed T and phi represent the covariance of the model's processes
Improper(p) == RLt("1e30", p)
TPhiCov(n, T, phi, dense) ==         \* T: rows; phi: vector or rows; the proper part
  LET nc == NCols(T)
      d(k) == IF dense THEN phi[k][k] ELSE phi[k]
      keep == SelectSeq([k \in 1..nc |-> k], LAMBDA k : ~Improper(d(k)))
      cols == TLCEval([k \in 1..Len(keep) |-> RVec([i \in 1..n |-> T[i][keep[k]]])])
  IN  IF dense
      THEN Sandwich(n, n, cols, TLCEval([x \in 1..Len(keep) |-> RVec([y \in 1..Len(keep) |-> phi[keep[x]][keep[y]]])]), cols)
      ELSE OuterDiag(n, cols, RVec([x \in 1..Len(keep) |-> phi[keep[x]]]))
TPhiImp(n, T, phi, dense) ==
  LET nc == NCols(T)
      d(k) == IF dense THEN phi[k][k] ELSE phi[k]
      keep == SelectSeq([k \in 1..nc |-> k], LAMBDA k : Improper(d(k)))
  IN  OuterDiag(n, TLCEval([k \in 1..Len(keep) |-> RVec([i \in 1..n |-> T[i][keep[k]]])]),
                RVec([x \in 1..Len(keep) |-> d(keep[x])]))
\* the columns are divided differences with a step of 1e-5: a second-order error for the frame rate, and
\* the rounding of a distance of hundreds of light-seconds for every parameter
EphSlack(m, a, gs, env) ==
  LET P == Psr(m, a)
      n == Len(P.toas)
      one(s) ==
        LET sg == m.sigs[s]
            far == TLCEval(RVec([i \in 1..n |-> RSqrt(RDot(P.planets[i][1], P.planets[i][1]))]))
            fr == IF "frame_drift_rate" \in DOMAIN sg.basis.sig THEN sg.basis.sig["frame_drift_rate"] ELSE 0
            els(x) == IF x \in {"jup_orb_elements", "sat_orb_elements"} THEN 6 ELSE 1
            us == SelectSeq(EphNames, LAMBDA x : x \in DOMAIN sg.basis.sig)
            sig == RSum(RVec([k \in 1..Len(us) |-> RMul(els(us[k]), sg.basis.sig[us[k]])]))
        IN  RVec([i \in 1..n |->
              LET y == RDiv(RSub(RDiv(P.toas[i], 86400), 55197), "365.25")
              IN  RMul(far[i], RAdd(RMul(RMul(fr, "6e-6"), Sq(y)), RMul(sig, "1e-10")))])
      ps == SelectSeq(gs, LAMBDA s : "basis" \in DOMAIN m.sigs[s] /\ Get(m.sigs[s].basis, "f", "") = "physeph")
      RECURSIVE S(_)
      S(k) == IF k > Len(ps) THEN Zeros(n) ELSE RVAdd(one(ps[k]), S(k + 1))
  IN  TLCEval(S(1))
AllGP(m, a) == SelectSeq(m.arr[a].s, LAMBDA s : HasCov(m, s) /\ m.sigs[s].k # "mtm")
JTphi(m, e, env) ==
  UNION {
    LET o == e.obs[a]
        n == NToa(m, a)
        gs == AllGP(m, a)
        prop == SelectSeq(gs, LAMBDA s : ProperGP(m, s))
        imp == SelectSeq(gs, LAMBDA s : IsTM(m.sigs[s]))
        lab == " of pulsar " \o ToString(a)
    IN  IF o.k = "none" THEN (IF MatMaxAbs(CovOf(m, a, gs, env)) = R(0) THEN {} ELSE {"no basis" \o lab})
        ELSE IF o.k # "tphi" THEN {"basis and prior" \o lab \o ": " \o Exp(o)}
        ELSE LET dense == o.dense
                 P1 == TPhiCov(n, o.T, o.phi, dense)
                 P2 == TPhiImp(n, o.T, o.phi, dense)
             IN  MatBadSlack("T phi T' " \o lab, [k |-> "mat", v |-> P1], MatAdd(CovOf(m, a, prop, env), ZeroMat(n, n)), "1e-9", EphSlack(m, a, prop, env))
                 \cup (IF imp = <<>> THEN {} ELSE MatBadDiag("T phi T' (timing model)" \o lab, [k |-> "mat", v |-> P2], CovOf(m, a, imp, env), "1e-9"))
    : a \in 1..Len(m.arr)}
\* sharing: number of columns
JShare(m, e, env) ==
  UNION {
    LET gs == AllGP(m, a)
        combine(s) == Get(m.sigs[s], "combine", TRUE) /\ m.sigs[s].k # "wtm"
        \* identity of columns as the harness reports them: equal columns have equal identifiers
        ids == e.obs.ids[a]           \* per signal: sequence of identifiers
        var == e.obs.var[a]           \* per signal: varying basis
        fixed == SelectSeq([k \in 1..Len(ids) |-> k], LAMBDA k : ~var[k])
        shar(k) == ~var[k] /\ combine(gs[k])
        total == LET RECURSIVE S(_)
                     S(k) == IF k > Len(ids) THEN 0 ELSE S(k + 1) + Len(ids[k]) IN S(1)
        dist == Cardinality(UNION {RangeOf(ids[k]) : k \in 1..Len(ids)})
        anyshare == \E k \in 1..Len(ids) : shar(k)
    IN  IF e.obs.n[a] > total THEN {"more columns than the signals have, pulsar " \o ToString(a)}
        ELSE IF ~anyshare /\ e.obs.n[a] # total THEN {"columns shared although sharing is off, pulsar " \o ToString(a)}
        ELSE IF e.obs.n[a] < dist THEN {"fewer columns than different columns, pulsar " \o ToString(a)}
        ELSE {}
    : a \in 1..Len(m.arr)}
(* ---- inverse of the prior ------------------------------------------------------------- *)
\* e.obs.phi: observed matrix; e.obs.inv: sequence of [how, k, v, ld]
JPhiInv(m, e, env) ==
  IF e.obs.k # "phi" THEN {"phi: " \o Exp(e.obs)}
  ELSE LET A == RMat(e.obs.phi)
           n == Len(A)
           F == Factor(A, Identity(n))
           I == TLCEval(FGramMat(F, [i \in 1..n |-> i], [i \in 1..n |-> i]))
           ld == FLogDet(F)
       IN  UNION {LET o == e.obs.inv[k]
                  IN  IF o.k = "unsupported" /\ ~MustSupport(m, o.how) THEN {}
                      ELSE MatBadDiag("inverse of phi, " \o o.how, o, I, "1e-6")
                           \cup (IF o.k = "mat" /\ Has(o, "ld") THEN NumBad("log det phi, " \o o.how, [k |-> "num", v |-> o.ld], ld, "1e-9", "1e-6") ELSE {})
                  : k \in 1..Len(e.obs.inv)}
\* the full prior matrix, expressed as joint covariance T phi T' of the array
JBigPhi(m, e, env) ==
  IF e.obs.k # "big" THEN {"phi: " \o Exp(e.obs)}
  ELSE LET cs == Correlated(m)
           na == Len(m.arr)
           off(a) == LET RECURSIVE S(_)
                         S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + (IF e.obs.T[j] = <<>> THEN 0 ELSE NCols(e.obs.T[j])) IN S(a - 1)
           blk(a, b) ==
             LET ca == IF e.obs.T[a] = <<>> THEN 0 ELSE NCols(e.obs.T[a])
                 cb == IF e.obs.T[b] = <<>> THEN 0 ELSE NCols(e.obs.T[b])
             IN  IF ca = 0 \/ cb = 0 THEN ZeroMat(NToa(m, a), NToa(m, b))
                 ELSE Sandwich(NToa(m, a), NToa(m, b), Transpose(RMat(e.obs.T[a])),
                        TLCEval([i \in 1..ca |-> RVec([j \in 1..cb |-> e.obs.phi[off(a) + i][off(b) + j]])]),
                        Transpose(RMat(e.obs.T[b])))
           want(a, b) ==
             LET both == SelectSeq(cs, LAMBDA s : {a, b} \subseteq RangeOf(Members(m, s)))
                 RECURSIVE G(_, _)
                 G(k, acc) == IF k > Len(both) THEN acc ELSE G(k + 1, MatAdd(acc, CCross(m, both[k], env, a, b)))
             IN  G(1, ZeroMat(NToa(m, a), NToa(m, b)))
           d(a) == CovOf(m, a, SelectSeq(m.arr[a].s, LAMBDA s : ProperGP(m, s)), env)
           dg == TLCEval([a \in 1..na |-> LET D == d(a) IN RVec([i \in 1..NToa(m, a) |-> RSqrt(D[i][i])])])
       IN  UNION {LET a == p[1]  b == p[2]
                  IN  MatBad("covariance between pulsars " \o ToString(p), [k |-> "mat", v |-> blk(a, b)], want(a, b),
                             LAMBDA i, j : RMul("1e-8", RMul(dg[a][i], dg[b][j])))
                  : p \in {q \in (1..na) \X (1..na) : q[1] # q[2]}}
(* ---- conditional coefficients ----------------------------------------------------------- *)
\* obs: how, what = "mean" (coefficients), "process" (basis times coefficients), "draws" (mean and
\* covariance of n draws, as one vector in the order of the processes)
JCond(m, e, env) ==
  LET po == TLCEval(Posterior(m, env))
      n == Len(po.mean)
      sd == RVec([i \in 1..n |-> RSqrt(po.S[i][i])])
      name(k) == SigName(m, po.ps[k].a, po.ps[k].s)
      keys(sfx) == {name(k) \o sfx : k \in 1..Len(po.ps)}
      part(k) == SubSeq(po.mean, Offset(po, k) + 1, Offset(po, k) + Len(po.cols[k]))
      psd(k) == SubSeq(sd, Offset(po, k) + 1, Offset(po, k) + Len(po.cols[k]))
      lab(o) == o.what \o " by " \o o.how
      empty == {name(k) \o "_coefficients" : k \in {k \in 1..Len(po.ps) : po.cols[k] = <<>>}}   \* may be left out
      means(o) ==
        IF o.k # "map" THEN {lab(o) \o ": " \o Exp(o)}
        ELSE (IF DOMAIN o.v \cup empty = keys("_coefficients") \cup DOMAIN o.more THEN {} ELSE {lab(o) \o ": keys " \o ToString(DOMAIN o.v)})
             \cup UNION {LET key == name(k) \o "_coefficients"  x == part(k)  d == psd(k) IN
                  IF key \notin DOMAIN o.v THEN IF x = <<>> THEN {} ELSE {lab(o) \o ": no " \o key}
                  ELSE IF Len(o.v[key]) = Len(x) /\ \A i \in 1..Len(x) :
                       RLe(RAbs(RSub(x[i], o.v[key][i])), RAdd(RMul("1e-4", d[i]), RMul("1e-6", RAbs(x[i])))) THEN {}
                  ELSE {lab(o) \o " of " \o key \o ": expected " \o ToString([i \in 1..Len(x) |-> RShow(x[i])]) \o ", observed " \o ToString(o.v[key])}
                  : k \in 1..Len(po.ps)}
             \cup (IF \A x \in DOMAIN o.more : x \in DOMAIN o.v /\ SameVal(o.more[x], o.v[x]) THEN {} ELSE {lab(o) \o ": parameters changed"})
      procs(o) ==
        IF o.k # "map" THEN {lab(o) \o ": " \o Exp(o)}
        ELSE (IF DOMAIN o.v = keys("") THEN {} ELSE {lab(o) \o ": keys " \o ToString(DOMAIN o.v)})
             \cup UNION {LET key == name(k)
                             x == LinComb(NToa(m, po.ps[k].a), po.cols[k], part(k))
                             off == Offset(po, k)
                             var(i) == LET f == RVec([c \in 1..Len(po.cols[k]) |-> po.cols[k][c][i]])
                                           S == [c \in 1..Len(f) |-> SubSeq(po.S[off + c], off + 1, off + Len(f))]
                                       IN  RDot(f, MatVec(S, f))
                         IN  IF key \notin DOMAIN o.v THEN {lab(o) \o ": no " \o key}
                             ELSE IF Len(o.v[key]) = Len(x) /\ \A i \in 1..Len(x) :
                                  RLe(RAbs(RSub(x[i], o.v[key][i])), RAdd(RMul("1e-3", RSqrt(var(i))), RMul("1e-5", MaxAbs(x)))) THEN {}
                             ELSE {lab(o) \o " of " \o key \o ": expected " \o ToString([i \in 1..Len(x) |-> RShow(x[i])]) \o ", observed " \o ToString(o.v[key])}
                         : k \in 1..Len(po.ps)}
      \* mean and covariance of N draws: each entry within seven standard errors, and the whitened variance
      draws(o) ==
        IF o.k # "draws" THEN {lab(o) \o ": " \o Exp(o)}
        ELSE LET N == o.n
                 offm == {i \in 1..n : ~RLe(RAbs(RSub(o.mean[i], po.mean[i])), RAdd(RMul(7, RDiv(sd[i], RSqrt(N))), RMul("1e-6", RAbs(po.mean[i]))))}
                 offc == {p \in (1..n) \X (1..n) : p[1] <= p[2] /\
                            ~RLe(RAbs(RSub(o.cov[p[1]][p[2]], po.S[p[1]][p[2]])),
                                 RMul(7, RSqrt(RDiv(RAdd(RMul(po.S[p[1]][p[1]], po.S[p[2]][p[2]]), Sq(po.S[p[1]][p[2]])), N))))}
                 tr == RSum(RVec([i \in 1..n |-> RDot(po.P[i], RVec([j \in 1..n |-> o.cov[j][i]]))]))
             IN  IF Len(o.mean) # n THEN {lab(o) \o ": " \o ToString(Len(o.mean)) \o " coefficients instead of " \o ToString(n)}
                 ELSE (IF offm = {} THEN {} ELSE {lab(o) \o ": mean of the draws is off at " \o ToString(offm)})
                      \cup (IF offc = {} THEN {} ELSE {lab(o) \o ": covariance of the draws is off at " \o ToString(CHOOSE p \in offc : TRUE)})
                      \cup (IF RLe(RAbs(RSub(tr, n)), RMul(7, RSqrt(RDiv(2 * n, N)))) THEN {}
                            ELSE {lab(o) \o ": whitened draws have variance " \o RShow(RDiv(tr, n)) \o " instead of 1"})
      \* mean and variance of N draws of every process
      pdraws(o) ==
        IF o.k # "map" THEN {lab(o) \o ": " \o Exp(o)}
        ELSE (IF DOMAIN o.v = keys("") THEN {} ELSE {lab(o) \o ": keys " \o ToString(DOMAIN o.v)})
             \cup UNION {LET key == name(k)
                             off == Offset(po, k)
                             x == LinComb(NToa(m, po.ps[k].a), po.cols[k], part(k))
                             f(i) == RVec([c \in 1..Len(po.cols[k]) |-> po.cols[k][c][i]])
                             var(i) == RDot(f(i), MatVec([c \in 1..Len(po.cols[k]) |-> SubSeq(po.S[off + c], off + 1, off + Len(po.cols[k]))], f(i)))
                             v == TLCEval([i \in 1..Len(x) |-> var(i)])
                             tiny == RMul("1e-20", MaxAbs(x))
                         IN  IF key \notin DOMAIN o.v THEN {lab(o) \o ": no " \o key}
                             ELSE IF Len(o.v[key].mean) = Len(x) /\ \A i \in 1..Len(x) :
                                  /\ RLe(RAbs(RSub(x[i], o.v[key].mean[i])), RAdd(RMul(7, RSqrt(RDiv(v[i], o.n))), RMul("1e-5", MaxAbs(x))))
                                  /\ RLe(RAbs(RSub(v[i], o.v[key].var[i])), RAdd(RMul(RMul(7, RSqrt(RDiv(2, o.n))), v[i]), tiny)) THEN {}
                             ELSE {lab(o) \o " of " \o key \o ": mean and variance are not those of the posterior"}
                         : k \in 1..Len(po.ps)}
      one(o) == CASE o.what = "pdraws" -> pdraws(o) [] o.what = "mean" -> means(o) [] o.what = "process" -> procs(o) [] o.what = "draws" -> draws(o)
                  [] o.what = "tm" -> \* single timing-model parameters
                       LET k == CHOOSE k \in 1..Len(po.ps) : po.ps[k] = [a |-> o.a, s |-> m.arr[o.a].s[o.j]]
                           x == part(k)[o.col]
                       IN  IF o.k = "num" /\ RLe(RAbs(RSub(o.v, x)), RAdd(RMul("1e-4", psd(k)[o.col]), RMul("1e-6", RAbs(x)))) THEN {}
                           ELSE {lab(o) \o ": expected " \o RShow(x) \o ", observed " \o Exp(o)}
  IN  UNION {one(e.obs[k]) : k \in 1..Len(e.obs)}
(* ---- extra prior terms ---------------------------------------------------------------------- *)
JSigPrior(m, e, env) ==
  UNION {NumBad("logsignalprior of pulsar " \o ToString(a), e.obs[a], SigPrior(m, a, env), "1e-9", RAdd("1e-8", WideRound(m, a, env))) : a \in 1..Len(m.arr)}
\* an answer equals that of a freshly built model: obs and ref are both observations
\* whatever is done with a model, its pulsars stay what they were
JPulsar(m, e) ==
  LET P == m.psrs[e.p] IN
  IF e.obs.k # "psr" THEN {"pulsar " \o ToString(e.p) \o ": " \o Exp(e.obs)}
  ELSE {"pulsar " \o ToString(e.p) \o ": changed " \o f : f \in {g \in DOMAIN e.obs.v : e.obs.v[g] # P[g]}}
\* the values given to a model stay what they were
JGiven(e) == (IF e.obs.v = e.par THEN {} ELSE {"the given parameters were changed"}) \cup (IF e.obs.xs = e.xs THEN {} ELSE {"the given vector was changed"})
JSame(e) == IF e.obs = e.ref THEN {} ELSE {"answer to " \o e.q \o " depends on history: " \o e.diff}

(* ---- wideband ----------------------------------------------------------------------------------- *)
JWide(m, e, env) ==
  LET a == e.a  P == Psr(m, a)  sg == m.sigs[m.arr[a].s[e.j]]
      one(o) ==
        CASE o.what = "dm" -> VecBadMax("dm", o, WTDm(P, sg, env), "1e-12")
          [] o.what = "dme" -> LET v == WTDme2(P, sg, env) IN VecBadMax("dm errors", o, RVec([i \in 1..Len(v) |-> RSqrt(v[i])]), "1e-12")
          [] o.what = "mean_dm" -> VecBadMax("mean dm", o, WTMeanDm(P, sg, env), "1e-11")
          [] o.what = "mean_dme" -> VecBadMax("mean dm errors", o, WTMeanDme(P, sg, env), "1e-11")
          [] o.what = "phi" -> VecBad("timing prior", o, WTPhi(P, sg, env), "1e-9", "0")
          [] o.what = "delay" -> LET d == WTDelay(P, sg, env) IN VecBad("dm delay", o, d, "1e-9", RAdd("2e-15", RMul("1e-9", MaxAbs(d))))
          [] o.what = "prior" -> NumBad("dm log prior", o, WTLogPrior(P, sg, env), "1e-9", RAdd("1e-7", WTRound(P, sg, env)))
          [] o.what = "delta" -> LET d == WTDelta(P, sg, env, o.mean) IN VecBad("residual dm", o, d, "1e-9", RMul("1e-13", P.wb.dm0))
          [] o.what = "chi2" -> NumBad("dm chi-squared", o, WTChi2(P, sg, env, o.mean), "1e-8", "1e-8")
          [] o.what = "dmx" ->
               LET want == {[par |-> b.par, lo |-> b.lo, hi |-> b.hi, dmx |-> b.dmx, err |-> b.err, fit |-> b.par \in RangeOf(P.fit)]
                            : b \in RangeOf(P.wb.bins)}
               IN  IF o.k = "dmx" /\ RangeOf(o.v) = want THEN {} ELSE {"DMX intervals: " \o ToString(o)}
          [] o.what = "joint" -> \* the definition from first principles, when the design matrix is consistent
               NumBad("joint TOA-DM likelihood", o, WTJointLn(P, sg, env, NCov(m, a, env), P.res), "1e-7", RAdd("1e-4", WTRound(P, sg, env)))
  IN  UNION {one(e.obs[k]) : k \in 1..Len(e.obs)}
(* ---- masks --------------------------------------------------------------------------------------- *)
JMasks(m, e, env) ==
  LET x == MaskMap(e.sel, m.psrs[e.p])
  IN  IF e.obs.k # "map" THEN {"masks: " \o Exp(e.obs)}
      ELSE IF DOMAIN x = DOMAIN e.obs.v /\ \A k \in DOMAIN x : x[k] = e.obs.v[k] THEN {}
      ELSE {"masks: expected " \o ToString(x) \o ", observed " \o ToString(e.obs.v)}
\* a selection applied to a parameter (and an array): names by label, masks, masked arrays
JSelCall(m, e, env) ==
  LET P == m.psrs[e.p]
      x == MaskMap(e.sel, P)
      kn(k) == JoinNE(<<k, e.par0>>)
      labels == {kn(k) : k \in DOMAIN x}
      of(n) == CHOOSE k \in DOMAIN x : kn(k) = n
  IN  IF e.obs.k # "sel" THEN {"selection: " \o Exp(e.obs)}
      ELSE (IF e.obs.names = [n \in labels |-> JoinNE(<<P.name, n>>)] THEN {} ELSE {"names of selected parameters: " \o ToString(e.obs.names)})
           \cup (IF DOMAIN e.obs.arr = labels /\ \A n \in labels : \A i \in 1..Len(P.toas) :
                      Close(IF x[of(n)][i] THEN P.errs[i] ELSE 0, e.obs.arr[n][i], "1e-14", "0")
                 THEN {} ELSE {"arrays of selected values: " \o ToString(e.obs.arr)})
           \cup (IF DOMAIN e.obs.masks = labels /\ \A n \in labels : e.obs.masks[n] = x[of(n)] THEN {} ELSE {"masks of selected parameters"})

(* ---- functions called directly ---------------------------------------------------------------- *)
\* a basis function on a pulsar: columns, labels, and arguments left as they were
JBasisFn(m, e, env) ==
  LET P == m.psrs[e.p]
      n == Len(P.toas)
      b == BasisFn(P, e.fs, "", env, [i \in 1..n |-> i], "", Get(m, "phases", EmptyRec))
      o == e.obs
      nc == Len(b.cols)
      \* scale of the columns at every TOA
      F == TLCEval([i \in 1..n |-> MaxAbs([k \in 1..nc |-> b.cols[k][i]])])
      \* rounding of the frequency and of the argument of sine and cosine
      tm == MaxAbs(RVec(P.toas))
      near(k) == RAdd("1e-11", RMul(RMul(7, tm), RAdd(RMul("1e-15", b.labels[k]), RAbs(RSub(b.labels[k], o.f[k])))))
      off == {q \in (1..n) \X (1..nc) : ~RLe(RAbs(RSub(b.cols[q[2]][q[1]], o.F[q[1]][q[2]])), RAdd("1e-300", RMul(near(q[2]), F[q[1]])))}
      \* unseeded random phases: some phase for every mode
      turned(k) ==      \* sin and cos of the difference of phase at TOA i
        [i \in 1..n |-> LET s == b.cols[2 * k - 1][i]  co == b.cols[2 * k][i]  q == RAdd(Sq(s), Sq(co))
                            os == R(o.F[i][2 * k - 1])  oc == R(o.F[i][2 * k])
                        IN  <<RDiv(RSub(RMul(os, co), RMul(oc, s)), q), RDiv(RAdd(RMul(oc, co), RMul(os, s)), q)>>]
      okturn(k) == LET t == TLCEval(turned(k))
                   IN  /\ Close(RAdd(Sq(t[1][1]), Sq(t[1][2])), 1, "0", "1e-8")
                       /\ \A i \in 2..n : Close(t[1][1], t[i][1], "0", "1e-8") /\ Close(t[1][2], t[i][2], "0", "1e-8")
  IN  IF o.k # "basis" THEN {"basis " \o e.fs.f \o ": " \o Exp(o)}
      ELSE IF Len(o.f) # nc \/ Len(o.F) # n \/ \E i \in 1..n : Len(o.F[i]) # nc
      THEN {"basis " \o e.fs.f \o ": " \o ToString(nc) \o " columns and labels expected"}
      ELSE VecBad("frequencies of basis " \o e.fs.f, [k |-> "vec", v |-> o.f], b.labels, "1e-12", "0")
           \cup (IF Get(e, "turn", FALSE)
                 THEN (IF \A k \in 1..nc \div 2 : okturn(k) THEN {} ELSE {"basis " \o e.fs.f \o " with phase shifts is no basis of sines and cosines"})
                 ELSE IF off = {} THEN {}
                 ELSE LET q == CHOOSE q \in off : TRUE
                      IN  {"basis " \o e.fs.f \o ": entry " \o ToString(q) \o ": expected " \o RShow(b.cols[q[2]][q[1]]) \o ", observed " \o RShow(o.F[q[1]][q[2]])})
           \cup (IF o.kept THEN {} ELSE {"basis " \o e.fs.f \o " changes its arguments"})
JSpecFn(m, e, env) ==
  IF e.obs.k # "vec" THEN {"spectrum " \o e.fs.f \o ": " \o Exp(e.obs)}
  ELSE VecBad("spectrum " \o e.fs.f, e.obs, SpecFn(e.fs, "", env, RVec(e.f)), "1e-9", "0")
       \cup (IF e.obs.kept THEN {} ELSE {"spectrum " \o e.fs.f \o " changes its arguments"})

(* ---- geometry ------------------------------------------------------------------------------------ *)
JOrf(m, e, env) ==
  LET x == OrfFn(e.fs, "", env, RVec(e.p), RVec(e.q)) IN
  NumBad("overlap reduction " \o e.fs.f, e.obs, x, "1e-12", "1e-13") \cup NumBad("overlap reduction " \o e.fs.f \o " with pulsars exchanged", e.swap, x, "1e-12", "1e-13")
JAntenna(e) ==
  LET a == Antenna(RVec(e.pos), RCos(e.theta), RSin(e.theta), R(e.phi))
      \* rounding near the direction of the source
      t == RDiv("1e-15", RSub(1, a.cosmu))
      tol == RAdd("1e-13", t)
  IN  IF e.obs.k # "ant" THEN {"antenna pattern: " \o Exp(e.obs)}
      ELSE NumBad("plus pattern", [k |-> "num", v |-> e.obs.plus], a.plus, "0", tol) \cup NumBad("cross pattern", [k |-> "num", v |-> e.obs.cross], a.cross, "0", tol)
           \cup NumBad("cosine of the angle to the source", [k |-> "num", v |-> e.obs.cosmu], a.cosmu, "0", "1e-14")
(* ---- eccentric binaries ------------------------------------------------------ *)
JEcc(e) ==
  LET RealOf(x) == [f \in DOMAIN x |-> IF f = "n" THEN x[f] ELSE IF f = "h0" THEN RVec(x[f]) ELSE R(x[f])]
      xs == TLCEval([k \in 1..Len(e.x) |-> RealOf(e.x[k])])
      b == xs[1]
      amp(x) == IF x.h0 # <<>> THEN RDiv(x.h0[1], 2) ELSE RNeg(RDiv(An(2, x.mc, x.dl, <<>>, x.F, R(0)), 2))
      each(f(_)) == VecBad(e.what, e.obs, RVec([k \in 1..Len(xs) |-> f(xs[k])]), "1e-12", "0")
      coefs(f(_, _, _, _, _, _), tol(_)) ==
        VecTol(e.what, e.obs, RVec([k \in 1..Len(xs) |-> LET x == xs[k] IN f(x.n, x.mc, x.dl, x.h0, x.F, x.e)]), LAMBDA k : tol(xs[k]))
      ts == RVec(IF Has(e, "t") THEN e.t ELSE <<>>)
      \* tolerances for numerical integration
      track(want) ==
        IF e.obs.k # "mat" \/ Len(e.obs.v) # Len(want) THEN {e.what \o ": " \o Exp(e.obs)}
        ELSE UNION {LET o == e.obs.v[k]  w == want[k] IN
                      IF Len(o) # Len(w) THEN {e.what \o ": wrong shape"}
                      ELSE NumBad("orbital frequency", [k |-> "num", v |-> o[1]], w[1], "1e-6", "0")
                           \cup UNION {NumBad("component " \o ToString(c) \o " of the solution", [k |-> "num", v |-> o[c]], w[c], "1e-6", "2e-5") : c \in 2..Len(w)}
                    : k \in 1..Len(want)}
  IN  {e.what \o ": argument " \o c \o " was changed" : c \in RangeOf(e.changed)} \cup
  CASE e.what = "edot" -> each(LAMBDA x : EDot(x.F, x.mc, x.e))
    [] e.what = "Fdot" -> each(LAMBDA x : FDot(x.F, x.mc, x.e))
    [] e.what = "gammadot" -> each(LAMBDA x : GammaDot(x.F, x.mc, x.q, x.e))
    [] e.what = "eqns const" -> VecBad("equations at constant eccentricity", e.obs, <<FDot(b.F, b.mc, b.e), RMul(TwoPi, b.F)>>, "1e-12", "0")
    [] e.what = "eqns" -> VecBad("equations", e.obs, Deriv(<<b.F, b.e>>, b.mc, b.q), "1e-12", "0")
    [] e.what = "solve const" -> track([k \in 1..Len(ts) |-> ConstAt(b.F, b.e, b.l, b.mc, RSub(ts[k], ts[1]))])
    [] e.what = "solve" -> track(Evolve(<<b.F, b.e, b.gamma, b.l>>, ts, 24, b.mc, b.q))
    [] e.what = "an" -> coefs(An, LAMBDA x : RMul("1e-13", RMul(x.n, amp(x))))
    [] e.what = "bn" -> coefs(Bn, LAMBDA x : RMul("1e-13", RMul(x.n, amp(x))))
    [] e.what = "cn" -> coefs(Cn, LAMBDA x : RMul("1e-13", RDiv(amp(x), RMul(x.n, x.F))))
    [] e.what = "wave" ->
       \* the angles at the start may be given for every time
       LET w == TLCEval([k \in 1..Len(ts) |-> Residual([n \in 1..e.nmax - 1 |-> n], IF Len(xs) = 1 THEN b ELSE xs[k], ts[k])])
           tol == RMul("1e-10", RDiv(RMul(e.nmax, amp(b)), b.F))
       IN  IF e.obs.k # "two" THEN {"residuals: " \o Exp(e.obs)}
           ELSE VecTol("plus residuals", e.obs.plus, RVec([k \in 1..Len(ts) |-> w[k][1]]), LAMBDA k : tol)
                \cup VecTol("cross residuals", e.obs.cross, RVec([k \in 1..Len(ts) |-> w[k][2]]), LAMBDA k : tol)
(* ---- epochs, interpolation, stabilised design matrices --------------------------- *)
SortedIx(S) == SetToSortSeq({i - 1 : i \in S}, LAMBDA a, b : a < b)      \* counted from 0
JGroups(e) ==
  LET t == RVec(e.t)
      ep == Epochs(t, R(e.dt), e.nmin)
      n == Len(ep)
      U == [i \in 1..Len(t) |-> [k \in 1..n |-> IF i \in RangeOf(ep[k]) THEN R(1) ELSE R(0)]]
      ix == [k \in 1..n |-> SortedIx(RangeOf(ep[k]))]
      o == e.obs
      b == LinInterp(t, R(e.dt))
      \* exact membership; columns are epochs in time order
      epochs ==
        IF o.k # "groups" THEN {"epochs: " \o Exp(o)}
        ELSE (IF n = 0 THEN IF o.U.v = <<>> \/ o.U.v[1] = <<>> THEN {} ELSE {"there are epochs"} ELSE MatBad("epochs", o.U, U, LAMBDA i, j : 0))
             \cup (IF Len(o.w) = n /\ \A k \in 1..Len(o.w) : REq(o.w[k], 1) THEN {} ELSE {"weights: " \o ToString(o.w)})
             \cup (IF Len(o.inds) = n /\ \A k \in 1..n : ~o.inds[k].slice /\ o.inds[k].idx = ix[k] /\ o.inds[k].full = ix[k] THEN {}
                   ELSE {"indices of epochs: expected " \o ToString(ix) \o ", observed " \o ToString(o.inds)})
             \cup (IF Len(o.slices) = n /\ \A k \in 1..n : /\ o.slices[k].slice = (ix[k][Len(ix[k])] - ix[k][1] + 1 = Len(ix[k]))
                                                          /\ o.slices[k].idx = ix[k] /\ o.slices[k].full = ix[k] THEN {}
                   ELSE {"slices of epochs: expected " \o ToString(ix) \o ", observed " \o ToString(o.slices)})
      lin == CASE e.lin.k = "skip" -> {}
               [] e.lin.k = "lin" -> MatBad("interpolation", e.lin.M, [i \in 1..Len(t) |-> [k \in 1..Len(b.cols) |-> b.cols[k][i]]], LAMBDA i, j : "2e-9")
                                     \cup VecBad("nodes", [k |-> "vec", v |-> e.lin.x], b.labels, "1e-14", "1e-12")
               [] OTHER -> {"interpolation: " \o Exp(e.lin)}
  IN  epochs \cup lin \cup (IF e.changed THEN {"the times were changed"} ELSE {})
JStable(e) ==
  LET M == [i \in 1..Len(e.M) |-> RVec(e.M[i])]
      col(A, j) == [i \in 1..Len(A) |-> A[i][j]]
      nc == Len(M[1])
      cs == TLCEval([j \in 1..nc |-> LET c == col(M, j) IN RScale(RDiv(1, RSqrt(RDot(c, c))), c)])
      Q == [i \in 1..Len(e.svd.v) |-> RVec(e.svd.v[i])]
      q == TLCEval([j \in 1..nc |-> col(Q, j)])
      I(i, j) == IF i = j THEN 1 ELSE 0
  IN  MatBad("scaled design matrix", e.fast, [i \in 1..Len(M) |-> [j \in 1..nc |-> cs[j][i]]], LAMBDA i, j : "1e-14")
      \cup (IF e.changed THEN {"the design matrix was changed"} ELSE {})
      \cup (IF e.svd.k # "mat" \/ Len(e.svd.v) # Len(M) \/ Len(e.svd.v[1]) # nc THEN {"orthogonal design matrix: " \o Exp(e.svd)}
            ELSE IF /\ \A i, j \in 1..nc : RLe(RAbs(RSub(RDot(q[i], q[j]), I(i, j))), "1e-12")
                    /\ \A j \in 1..nc : LET p == RSum(RVec([k \in 1..nc |-> LET d == RDot(q[k], cs[j]) IN RMul(d, d)])) IN RLe(RAbs(RSub(p, 1)), "1e-6")
                 THEN {} ELSE {"orthogonal design matrix: not an orthonormal basis of the columns"})
(* ---- rotations and ephemeris errors ------------------------------------------------ *)
JFrame(e) ==
  LET a == e.x
      at(v, k) == IF a.many[v] THEN a[v][k] ELSE a[v]       \* a number for all, or one each
      E(k) == LET w(j) == Euler(at("z", k), at("y", k), at("x", k), RVec([i \in 1..3 |-> IF i = j THEN 1 ELSE 0]))
                  c1 == w(1)  c2 == w(2)  c3 == w(3)
              IN  [i \in 1..3 |-> <<c1[i], c2[i], c3[i]>>]
      arg(kw) == IF kw \in {"jup_orb_elements", "sat_orb_elements"} THEN IF Has(a.kw, kw) THEN RVec(a.kw[kw]) ELSE <<>>
                 ELSE IF Has(a.kw, kw) THEN R(a.kw[kw]) ELSE R(0)
      size(t) == RSum(RVec([k \in 1..5 |-> RAbs(RMul(RAdd(1, IF k = 1 THEN 0 ELSE arg(EphNames[k])), MaxAbs(RVec(t[k]))))]))
      bad ==
        CASE e.what = "frame" ->
               LET f(v) == IF a.f = "ecl2eq" THEN ToEq(v) ELSE ToEcl(v)
                   m == TLCEval(RMul("1e-15", MatMaxAbs([k \in 1..Len(a.v) |-> RVec(a.v[k])])))
               IN  MatBad(a.f, e.obs, TLCEval([k \in 1..Len(a.v) |-> f(RVec(a.v[k]))]), LAMBDA i, j : m)
          [] e.what = "euler" ->
               IF e.obs.k # "arr" THEN {"Euler rotations: " \o Exp(e.obs)}
               ELSE IF Len(e.obs.v) # a.n THEN {"Euler rotations: " \o ToString(Len(e.obs.v)) \o " of them"}
               ELSE UNION {MatBad("Euler rotation " \o ToString(k), [k |-> "mat", v |-> e.obs.v[k]], TLCEval(E(k)), LAMBDA i, j : "4e-15") : k \in 1..a.n}
          [] e.what = "rotate" ->
               LET off == IF Has(a, "off") THEN RVec(a.off) ELSE Zeros(3)
                   m == TLCEval(RMul("5e-15", RAdd(MaxAbs(off), MatMaxAbs([k \in 1..Len(a.v) |-> RVec(a.v[k])]))))
               IN  MatBad("rotated positions", e.obs, TLCEval([k \in 1..Len(a.v) |-> FrameRotate(a.mjd[k], RVec(a.v[k]), a.x, a.y, a.z, a.dz, off, a.eq)]),
                          LAMBDA i, j : m)
          [] e.what = "delay" ->
               VecTol("delay", e.obs, TLCEval(RVec([k \in 1..Len(a.toas) |-> EphDelayIn(a.toas[k], a.planets[k], RVec(a.post[k]), arg, a.orb, a.eq)])),
                      LAMBDA k : RMul("1e-14", size(a.planets[k])))
          [] e.what = "design" ->
               LET b == EphBasis([toas |-> RVec(a.toas), planets |-> a.planets, post |-> [k \in 1..Len(a.post) |-> RVec(a.post[k])], orb |-> a.orb], [sig |-> a.sig])
                   nc == Len(b.cols)
                   fr == Has(a.sig, "frame_drift_rate")
                   y(i) == RDiv(RSub(RDiv(a.toas[i], 86400), 55197), "365.25")
                   tol(i, j) == RMul(RSqrt(RDot(RVec(a.planets[i][1]), RVec(a.planets[i][1]))),
                                     RAdd("1e-9", IF fr /\ j = 1 THEN RMul("6e-6", Sq(y(i))) ELSE "0"))
               IN  (IF e.obs.k # "design" THEN {"design matrix: " \o Exp(e.obs)}
                    ELSE MatBad("design matrix", e.obs.F, TLCEval([i \in 1..Len(a.toas) |-> [j \in 1..nc |-> b.cols[j][i]]]), tol)
                         \cup VecBad("labels", e.obs.f, b.labels, "1e-15", "0"))
  IN  bad \cup {"argument " \o e.changed[k] \o " was changed" : k \in 1..Len(e.changed)}
(* ---- requests outside of what is supported ------------------------------------------ *)
JRefuse(m, e, env) ==
  LET x == IF e.x.kind # "shared" THEN e.x
           ELSE LET ps == Processes(m)
                    RECURSIVE C(_, _)
                    C(a, k) == IF k > Len(ps) THEN 0 ELSE (IF ps[k].a = a THEN Len(PCols(m, ps[k], env)) ELSE 0) + C(a, k + 1)
                IN  e.x @@ [total |-> [a \in 1..Len(m.arr) |-> C(a, 1)]]
      no == TLCEval(Refused(x))
      one(o) == LET how == o.how IN
        IF o.k \in {"exc", "unsupported"} THEN IF no THEN {} ELSE {how \o ": refused, " \o o.v}
        ELSE IF no THEN {how \o ": answered, and not refused"} ELSE {}
  IN  UNION {one(e.obs[k]) : k \in 1..Len(e.obs)}
      \cup (IF ~Has(e, "before") THEN {} ELSE IF e.before.k = "num" THEN NumBad("answer afterwards", e.after, e.before.v, "1e-9", "1e-9")
            ELSE IF e.before # e.after THEN {"the answer afterwards is " \o Exp(e.after) \o " instead of " \o Exp(e.before)} ELSE {})
JSphere(e) ==
  LET pix == IF Has(e, "pix") THEN e.pix ELSE <<>>
      one(o) ==
        CASE o.what = "harmonic" -> VecBad("harmonic " \o ToString(<<o.l, o.m>>), o, RVec([k \in 1..Len(pix) |-> Ylm(o.l, o.m, pix[k])]), "0", "1e-12")
          [] o.what = "map" -> VecBad("map " \o o.how, o, MapOf(o.clm, HarmTab(o.lmax, pix)), "0", "1e-11")
          [] o.what = "clm" -> VecBad("coefficients of a map", o, ClmOf(o.h, HarmTab(o.lmax, pix)), "0", "1e-11")
          [] o.what = "exact" -> VecBad("coefficients " \o o.how, o, RVec(o.clm), "0", o.tol)
          [] o.what = "maporf" -> MatBad("correlations for a map " \o o.how, o, MapOrf(Responses(e.locs, pix), o.h), LAMBDA i, j : "1e-11")
          [] o.what = "basis" ->
               IF o.k # "arr" THEN {"anisotropic basis: " \o Exp(o)}
               ELSE LET tab == HarmTab(o.lmax, pix)  F == Responses(e.locs, pix)
                    IN  IF Len(o.v) # Len(tab) THEN {"anisotropic basis: " \o ToString(Len(o.v)) \o " matrices"}
                        ELSE UNION {MatBad("anisotropic basis, matrix " \o ToString(b), [k |-> "mat", v |-> o.v[b]], MapOrf(F, tab[b]), LAMBDA i, j : "1e-10") : b \in 1..Len(tab)}
          [] o.what = "isotropic" ->      \* approaches the function of Hellings and Downs
               IF o.k # "mat" THEN {"isotropic correlations: " \o Exp(o)}
               ELSE MatBad("isotropic correlations", o, TLCEval([a \in 1..Len(e.locs) |-> RVec([b \in 1..Len(e.locs) |->
                      IF a = b THEN R(1) ELSE OrfFn([f |-> "hd", kw |-> EmptyRec], "", [par |-> EmptyRec, c |-> EmptyRec], Dir(e.locs[a]), Dir(e.locs[b]))])]), LAMBDA i, j : o.tol)
  IN  UNION {one(e.obs[k]) : k \in 1..Len(e.obs)}

(* ---- noise and prior matrices ------------------------------------------------------------------------ *)
\* what is asked of an object: products of its inverse with given vectors and matrices
JKern(m, e) ==
  LET objs == Objs(SubSeq(m.ops, 1, e.at), <<>>)
      o == objs[e.i]
      I == InvOf(o)
      row(a) == [k \in 1..Len(a) |-> k]
      Rt == IF e.right.k = "vec" THEN <<RVec(e.right.v)>> ELSE Transpose(RMat(e.right.v))       \* columns
      NR == TLCEval([b \in 1..Len(Rt) |-> MatVec(I.inv, Rt[b])])
      Lt == CASE e.left.k = "none" -> <<>> [] e.left.k = "same" -> Rt [] e.left.k = "vec" -> <<RVec(e.left.v)>> [] e.left.k = "mat" -> Transpose(RMat(e.left.v))
      lk == IF e.left.k = "same" THEN e.right.k ELSE e.left.k
      LNR == TLCEval([a \in 1..Len(Lt) |-> RVec([b \in 1..Len(NR) |-> RDot(Lt[a], NR[b])])])
      sc == MatMaxAbs(I.inv)
      lab == "object " \o ToString(e.i) \o ", right " \o e.right.k \o ", left " \o e.left.k
      tol == RMul("1e-9", RMul(sc, RMul(Len(o.n), RMul(MatMaxAbs(Rt), IF Lt = <<>> THEN 1 ELSE MatMaxAbs(Lt)))))
      val == CASE e.left.k = "none" -> (IF e.right.k = "vec" THEN VecBad(lab, e.obs.r, NR[1], "1e-9", tol) ELSE MatBad(lab, e.obs.r, Transpose(NR), LAMBDA a, b : tol))
               [] lk = "vec" /\ e.right.k = "vec" -> NumBad(lab, e.obs.r, LNR[1][1], "1e-9", tol)
               [] lk = "vec" -> VecBad(lab, e.obs.r, LNR[1], "1e-9", tol)
               [] e.right.k = "vec" -> VecBad(lab, e.obs.r, [a \in 1..Len(LNR) |-> LNR[a][1]], "1e-9", tol)
               [] OTHER -> MatBad(lab, e.obs.r, LNR, LAMBDA a, b : tol)
      refusable == \/ e.method \in {"sm", "fsm"} /\ e.right.k = "mat" /\ e.left.k = "none"
                   \/ o.t = "mn" /\ (e.left.k = "none" \/ (e.right.k = "mat" /\ lk = "vec"))
  IN  IF e.obs.k # "ok" THEN (IF refusable THEN {} ELSE {lab \o ": " \o Exp(e.obs)})
      ELSE val \cup (IF e.ld THEN NumBad(lab \o ", log-determinant", e.obs.ld, I.ld, "1e-10", "1e-8") ELSE {})
\* a prior matrix: its entries, inverse and log-determinant (if it has one)
JPriorMat(m, e) ==
  LET o == Objs(SubSeq(m.ops, 1, e.at), <<>>)[e.i]
      n == Len(o.n)
      x == e.obs
      F == Factor(o.n, Identity(n))
      pd == \A k \in 1..n : RLt(RMul("1e-9", o.n[k][k]), F.d[k])
      I == InvOf(o)
  IN  MatBad("entries of the prior matrix", x.entries, o.n, LAMBDA a, b : RMul("1e-14", MatMaxAbs(o.n)))
           \cup (IF ~pd THEN {} ELSE
                  MatBad("inverse of the prior matrix", x.inv, I.inv, LAMBDA a, b : RMul("1e-7", MatMaxAbs(I.inv)))
                  \cup MatBad("inverse of the prior matrix, with log-determinant", x.inv2, I.inv, LAMBDA a, b : RMul("1e-7", MatMaxAbs(I.inv)))
                  \cup NumBad("log-determinant of the prior matrix", x.ld, I.ld, "1e-9", "1e-6"))

(* ---- metadata of pulsars --------------------------------------------------------------------------- *)
JMeta(m, e) ==
  LET x == e.src  o == e.obs
      n == Len(x.post)
      same(lab, a, b) == IF a = b THEN {} ELSE {lab \o ": expected " \o ToString(b) \o ", observed " \o ToString(a)}
      vec(lab, a, b, rel) == VecBad(lab, [k |-> "vec", v |-> a], b, rel, "1e-300")
      d == DirOf(x)
      \* vectors of tempo2 are in the coordinates of the par file (with its obliquity)
      turn(v) == IF x.pkg = "t2" /\ x.coords = "ecl" THEN TurnX(Deg("23.43704"), RVec(v)) ELSE RVec(v)
      body(b, k) == turn(InV([v |-> b.v[k], u |-> b.u]))
      speed(b, k) == turn(b.vel[k])
      rows(lab, a, b(_)) == IF Len(a) # n THEN {lab \o ": " \o ToString(Len(a)) \o " rows"}
                            ELSE UNION {VecBad(lab, [k |-> "vec", v |-> a[k]], b(k), "1e-11", RMul("1e-11", MaxAbs(b(k)))) : k \in 1..n}
      pl == SelectSeq(x.bodies, LAMBDA b : b.b # "sun")
      sun == SelectSeq(x.bodies, LAMBDA b : b.b = "sun")
      dmx == [k \in 1..Len(x.dmx) |-> x.dmx[k]]
      rel(k) == LET w == o.rel[k]  lab == "after " \o ToString(SubSeq(x.rel, 1, k)) IN
                IF w.k = "exc" THEN {lab \o ": " \o Exp(w)}
                ELSE (IF RangeOf(w.kept) = KeptAfter(x, SubSeq(x.rel, 1, k)) THEN {} ELSE {lab \o ", kept of the timing package: " \o ToString(w.kept)})
                     \cup (IF w.same THEN {} ELSE {lab \o ": the pulsar shows something else"})
                     \cup (IF x.rel[k] # "pickle" \/ (w.back /\ RangeOf(w.backkept) = KeptAfter(x, SubSeq(x.rel, 1, k))) THEN {} ELSE {lab \o ": the saved pulsar shows something else"})
  IN  IF MdImpossible(x) THEN (IF o.k = "exc" THEN {} ELSE {"planets that the timing package does not give"})
      ELSE IF o.k # "meta" THEN {"a pulsar: " \o Exp(o)}
      ELSE same("name", o.name, MdName(x)) \cup same("fitted parameters", o.fitpars, FitOf(x))
           \cup same("set parameters", SelectSeq(o.setpars, LAMBDA p : p # "PSR"), SetOf(x))
           \cup vec("distance", o.pdist, RVec(DistOf(x)), "1e-14")
           \cup (IF x.dm THEN NumBad("dispersion measure", o.dm, R(x.dmval), "1e-14", "0") ELSE same("dispersion measure", o.dm.k, "none"))
           \cup (IF x.dmx = <<>> THEN same("intervals of dispersion measure", o.dmx.k, "none")
                 ELSE IF o.dmx.k # "dmx" THEN {"intervals of dispersion measure: " \o Exp(o.dmx)} ELSE same("intervals of dispersion measure", o.dmx.v, dmx))
           \cup VecBad("position", [k |-> "vec", v |-> o.pos], d, "0", IF x.coords = "eq" THEN "1e-12" ELSE "1e-8") \cup VecBad("angles", [k |-> "vec", v |-> o.pos], UnitVec(o.phi, RSub(RDiv(RPi, 2), o.theta)), "0", "1e-12")
           \cup vec("times", o.toas, InV(x.toas), "1e-15") \cup vec("site times", o.stoas, InV(x.stoas), "1e-15")
           \cup vec("residuals", o.res, InV(x.res), "1e-14") \cup vec("errors", o.errs, InV(x.errs), "1e-14") \cup vec("frequencies", o.freqs, InV(x.freqs), "1e-14")
           \cup rows("direction with time", o.post, LAMBDA k : turn(x.post[k]))
           \cup (IF ~x.planets THEN same("planets", o.planets, <<>>) \cup same("Sun", o.sun, <<>>)
                 ELSE IF Len(o.planets) # Len(pl) \/ Len(o.sun) # 1 THEN {"planets or Sun missing"}
                 ELSE UNION {rows(pl[b].b, o.planets[b], LAMBDA k : body(pl[b], k)) : b \in 1..Len(pl)} \cup rows("Sun", o.sun[1], LAMBDA k : body(sun[1], k)))
           \cup (IF ~x.planets \/ x.pkg # "t2" \/ Len(o.planets) # Len(pl) THEN {}
                 ELSE UNION {rows("velocity of " \o pl[b].b, o.speeds[b], LAMBDA k : speed(pl[b], k)) : b \in 1..Len(pl)}
                      \cup rows("velocity of the Sun", o.sunspeed, LAMBDA k : speed(sun[1], k)))
           \cup same("telescopes", o.tel, x.tel) \cup same("flags", o.flags, FlagsOf(x))
           \cup (IF RangeOf(o.kept) = KeptFirst(x) THEN {} ELSE {"kept of the timing package: " \o ToString(o.kept)})
           \cup UNION {rel(k) : k \in 1..Len(x.rel)}

(* ---- composition ------------------------------------------------------------------------------ *)
\* m.ops is the session so far; e.obs[k] what object number e.is[k] shows of itself
Alg == INSTANCE Algebra
Same(label, o, e) == IF o = e THEN {} ELSE {label \o ": expected " \o ToString(e) \o ", observed " \o ToString(o)}
FirstIx(s, ok(_)) == LET is == {k \in 1..Len(s) : ok(s[k])} IN IF is = {} THEN 0 ELSE CHOOSE k \in is : \A l \in is : k <= l
JAccess(m, e) ==
  LET objs == Alg!Run(m.ops)
      one(i, o) ==
        LET x == objs[i]  lab == "object " \o ToString(i) \o ", " IN
        CASE x.t = "error" -> IF o.k = "exc" THEN {} ELSE {lab \o "a sum of a definition and an instance"}
          [] x.t = "bound" ->
             IF o.k # "bound" THEN {lab \o Exp(o)}
             ELSE LET ids == [k \in 1..Len(x.s) |-> SigId(m.sigs[x.s[k]])]
                      n == Len(ids)
                  IN  Same(lab \o "pulsar", o.psr, m.psrs[x.p].name)
                      \cup Same(lab \o "definitions of its signals", o.sigs, x.s)
                      \cup Same(lab \o "length", o.len, n)
                      \cup Same(lab \o "keys", o.keys, ids)
                      \cup Same(lab \o "items", o.items, [k \in 1..n |-> <<ids[k], k>>])
                      \cup Same(lab \o "values", o.values, [k \in 1..n |-> k])
                      \cup Same(lab \o "by position", o.bypos, [k \in 1..n |-> k])
                      \cup Same(lab \o "by position from the end", o.byneg, [k \in 1..n |-> n + 1 - k])
                      \cup Same(lab \o "by identifier", o.byid, [k \in 1..n |-> FirstIx(ids, LAMBDA d : d = ids[k])])
                      \cup Same(lab \o "by unknown identifier", o.unknown, "KeyError")
                      \cup Same(lab \o "by position too large", o.beyond, "IndexError")
          [] x.t = "array" ->
             IF o.k # "array" THEN {lab \o Exp(o)}
             ELSE LET ps == [k \in 1..Len(x.e) |-> m.psrs[objs[x.e[k]].p].name]
                      n == Len(ps)
                      flat == Concat([k \in 1..n |-> LET b == objs[x.e[k]] IN
                                [l \in 1..Len(b.s) |-> [name |-> ps[k] \o "_" \o SigId(m.sigs[b.s[l]]), a |-> k, j |-> l]]])
                      names == [k \in 1..Len(flat) |-> flat[k].name]
                      want == {flat[FirstIx(names, LAMBDA d : d = nm)] : nm \in RangeOf(names)}
                  IN  Same(lab \o "instances", o.inst, x.e)
                      \cup Same(lab \o "pulsars", o.pulsars, ps)
                      \cup Same(lab \o "keys", o.keys, ps)
                      \cup Same(lab \o "length", o.len, n)
                      \cup Same(lab \o "items", o.items, [k \in 1..n |-> <<ps[k], k>>])
                      \cup Same(lab \o "values", o.values, [k \in 1..n |-> k])
                      \cup Same(lab \o "by position", o.bypos, [k \in 1..n |-> k])
                      \cup Same(lab \o "by position from the end", o.byneg, [k \in 1..n |-> n + 1 - k])
                      \cup Same(lab \o "by pulsar", o.byid, [k \in 1..n |-> FirstIx(ps, LAMBDA d : d = ps[k])])
                      \cup Same(lab \o "by unknown pulsar", o.unknown, "KeyError")
                      \cup Same(lab \o "signals by name", RangeOf(o.signals), want)
                      \cup Same(lab \o "get_signal", RangeOf(o.getsig), want)
                      \cup Same(lab \o "unknown signal", o.nosig, "KeyError")
  IN  UNION {one(e.is[k], e.obs[k]) : k \in 1..Len(e.is)}

\* models that can be built
Accepts(m) == \A a \in 1..Len(m.arr) : \A s \in RangeOf(m.arr[a].s) : m.sigs[s].k = "wtm" => WTAccepts(Psr(m, a), m.sigs[s])

\* with e.arrof, the question is about that array of the session
JudgeEvent(m0, e, c) ==
  LET m == IF Has(e, "arrof") THEN [m0 EXCEPT !.arr = Alg!ArrOf(Alg!Run(m0.ops), e.arrof)] ELSE m0 IN
  LET env == [par |-> Get(e, "par", EmptyRec), c |-> c]
  IN
  CASE e.op = "lnl"     -> JLnl(m, e, env)
    [] e.op = "lnlof"   -> JLnl([m EXCEPT !.sigs = e.m], e, env)      \* of the model with other signals
    [] e.op = "joint"   -> JJoint(m, e, env)
    [] e.op = "names"   -> JNames(m, e, env)
    [] e.op = "map"     -> JMap(m, e, env)
    [] e.op = "lnprior" -> JLnPrior(m, e, env)
    [] e.op = "white"   -> JWhite(m, e, env)
    [] e.op = "prior"   -> JPrior(e, env)
    [] e.op = "quantile" -> JQuantile(e, env)
    [] e.op = "samples" -> JSamples(e, env)
    [] e.op = "resolve" -> JResolve(e)
    [] e.op = "draws"   -> JDrawsByName(e) \cup JDraws(e)
    [] e.op = "cube"    -> JCube(m, e, env)
    [] e.op = "tnt"     -> JTnt(m, e, env)
    [] e.op = "sigwhite" -> JSigWhite(m, e, env)
    [] e.op = "delay"   -> JDelay(m, e, env)
    [] e.op = "tphi"    -> JTphi(m, e, env)
    [] e.op = "share"   -> JShare(m, e, env)
    [] e.op = "phiinv"  -> JPhiInv(m, e, env)
    [] e.op = "bigphi"  -> JBigPhi(m, e, env)
    [] e.op = "cond"    -> JCond(m, e, env)
    [] e.op = "sigprior" -> JSigPrior(m, e, env)
    [] e.op = "pulsar"  -> JPulsar(m, e)
    [] e.op = "given"   -> JGiven(e)
    [] e.op = "same"    -> JSame(e)
    [] e.op = "access"  -> JAccess(m, e)
    [] e.op = "kern"    -> JKern(m, e)
    [] e.op = "priormat" -> JPriorMat(m, e)
    [] e.op = "meta"    -> JMeta(m, e)
    [] e.op = "show"    -> JShow(m, e, env)
    [] e.op = "ecc"     -> JEcc(e)
    [] e.op = "groups"  -> JGroups(e)
    [] e.op = "stable"  -> JStable(e)
    [] e.op = "orf"     -> JOrf(m, e, env)
    [] e.op = "antenna" -> JAntenna(e)
    [] e.op = "sphere"  -> JSphere(e)
    [] e.op = "frame"   -> JFrame(e)
    [] e.op = "refuse"  -> JRefuse(m, e, env)
    [] e.op = "basisfn" -> JBasisFn(m, e, env)
    [] e.op = "specfn"  -> JSpecFn(m, e, env)
    [] e.op = "wide"    -> JWide(m, e, env)
    [] e.op = "selcall" -> JSelCall(m, e, env)
    [] e.op = "masks"   -> JMasks(m, e, env)
    [] e.op = "setdef"  -> IF e.obs.k = "ok" THEN {} ELSE {"set_default_params: " \o Exp(e.obs)}
    [] e.op = "build"   -> IF Accepts(m)
                           THEN IF e.obs.k = "ok" THEN {} ELSE {"building the model: " \o Exp(e.obs)}
                           ELSE IF e.obs.k = "exc" THEN {} ELSE {"a model is built from unsupported data"}
    [] e.op = "flag"    -> IF e.obs.k = "ok" THEN {} ELSE {e.what \o ": " \o Exp(e.obs)}
=============================================================================
