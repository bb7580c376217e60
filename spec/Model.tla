------------------------------- MODULE Model --------------------------------
(* Reference semantics: what a composed pulsar-timing model means.            *)
(*                                                                            *)
(* A model is                                                                 *)
(*   psrs:  sequence of pulsars (name, toas, errs, res, freqs, bf, tel, flags,*)
(*          M, pos, ...)                                                      *)
(*   sigs:  sequence of signal definitions, kind k and name                   *)
(*     mn   measurement noise       efac, (eq), sel                           *)
(*     tneq additional white noise  eq, sel                                   *)
(*     eck  ECORR kernel            ec, sel, method                           *)
(*     gp   Gaussian process        prior, basis, sel, combine, coef          *)
(*     mtm  marginalized timing model   basis                                 *)
(*     cgp  common Gaussian process     prior, basis, orf, coef               *)
(*     det  deterministic delay     wf, sel                                   *)
(*     wtm  wideband timing model                                             *)
(*   arr:   sequence of [p |-> pulsar, s |-> sequence of signals], the array  *)
EXTENDS Orfs, Wideband, Ephemeris

SelOf(s) == Get(s, "sel", [s |-> "none"])
Groups(m, a, s) == TLCEval(Masks(SelOf(m.sigs[s]), m.psrs[m.arr[a].p]))
Psr(m, a) == m.psrs[m.arr[a].p]
NToa(m, a) == Len(Psr(m, a).toas)
Prefix(P, s, key) == JoinNE(<<P.name, s.name, key>>)
Embed(n, idx, v) == LET at == [i \in 1..n |-> 0]
                        RECURSIVE Put(_, _)
                        Put(x, k) == IF k > Len(idx) THEN x ELSE Put([x EXCEPT ![idx[k]] = v[k]], k + 1)
                    IN  RVec(Put(at, 1))
SumVecs(n, vs) == LET RECURSIVE F(_, _)
                      F(k, acc) == IF k > Len(vs) THEN acc ELSE F(k + 1, RVAdd(acc, vs[k]))
                  IN  F(1, Zeros(n))
SigsOf(m, a, kinds) == SelectSeq(m.arr[a].s, LAMBDA s : m.sigs[s].k \in kinds)

(* ---- white noise --------------------------------------------------------- *)
WhiteVar(m, a, s, env) ==
  LET P == Psr(m, a)  sg == m.sigs[s]  n == NToa(m, a)
      v(pre, i) ==
        IF sg.k = "mn"
        THEN LET e2 == Sq(Val(pre, "efac", sg.efac, env))
                 s2 == Sq(P.errs[i])
             IN  IF Has(sg, "eq") THEN RMul(e2, RAdd(s2, RPow10(RMul(2, Val(pre, "log10_t2equad", sg.eq, env)))))
                 ELSE RMul(e2, s2)
        ELSE RPow10(RMul(2, Val(pre, "log10_tnequad", sg.eq, env)))
      g == Groups(m, a, s)
  IN  SumVecs(n, [k \in 1..Len(g) |-> RVec([i \in 1..n |-> IF g[k][2][i] THEN v(Prefix(P, sg, g[k][1]), i) ELSE 0])])
\* epochs of every group with the variance they share: sequence of [idx, var]
EcorrPrefix(P, key) == JoinNE(<<P.name, key>>)
EcorrEpochs(m, a, s, env) ==
  LET P == Psr(m, a)  sg == m.sigs[s]  g == Groups(m, a, s)
  IN  Concat([k \in 1..Len(g) |->
        LET idx == Where(g[k][2])
            ep == IF idx = <<>> THEN <<>> ELSE Epochs(Pick(P.toas, idx), 1, 2)
            var == RPow10(RMul(2, Val(EcorrPrefix(P, g[k][1]), "log10_ecorr", sg.ec, env)))
        IN  [e \in 1..Len(ep) |-> [idx |-> Pick(idx, ep[e]), var |-> var]]])
NDiag(m, a, env) ==
  LET ws == SigsOf(m, a, {"mn", "tneq"})
  IN  SumVecs(NToa(m, a), [k \in 1..Len(ws) |-> WhiteVar(m, a, ws[k], env)])
NCov(m, a, env) ==
  LET es == SigsOf(m, a, {"eck"})
      ep == Concat([k \in 1..Len(es) |-> EcorrEpochs(m, a, es[k], env)])
      d == NDiag(m, a, env)
      n == NToa(m, a)
      off(i, j) == LET hit == SelectSeq(ep, LAMBDA e : {i, j} \subseteq RangeOf(e.idx))
                   IN  RSum(RVec([k \in 1..Len(hit) |-> hit[k].var]))
  IN  IF ep = <<>> THEN DiagMat(d)
      ELSE TLCEval([i \in 1..n |-> RVec([j \in 1..n |-> IF i = j THEN RAdd(d[i], off(i, i)) ELSE off(i, j)])])

(* ---- Gaussian processes --------------------------------------------------- *)
\* one entry per group: key, prefix, columns over all TOAs, labels, prior
GPParts(m, a, s, env) ==
  LET P == Psr(m, a)  sg == m.sigs[s]  g == Groups(m, a, s)  n == NToa(m, a)
  IN  TLCEval([k \in 1..Len(g) |->
        LET idx == Where(g[k][2])
            pre == Prefix(P, sg, g[k][1])
            b == BasisFn(P, sg.basis, pre, env, idx, "", Get(m, "phases", EmptyRec))
        IN  [key |-> g[k][1], pre |-> pre, labels |-> b.labels,
             cols |-> TLCEval([c \in 1..Len(b.cols) |-> Embed(n, idx, b.cols[c])])]])
DensePrior(fs) == IsDense(fs)
PartPhi(sg, part, env) == SpecFn(sg.prior, part.pre, env, part.labels)
PartCov(n, sg, part, env) ==
  IF part.cols = <<>> THEN ZeroMat(n, n)
  ELSE IF DensePrior(sg.prior)
  THEN Sandwich(n, n, part.cols, DenseFn(sg.prior, part.pre, env, part.labels), part.cols)
  ELSE OuterDiag(n, part.cols, PartPhi(sg, part, env))
SumMats(n, ms) == LET RECURSIVE F(_, _)
                      F(k, acc) == IF k > Len(ms) THEN acc ELSE F(k + 1, MatAdd(acc, ms[k]))
                  IN  F(1, ZeroMat(n, n))
GPCov(m, a, s, env) ==
  LET ps == GPParts(m, a, s, env)
  IN  SumMats(NToa(m, a), [k \in 1..Len(ps) |-> PartCov(NToa(m, a), m.sigs[s], ps[k], env)])
\* timing models have the improper prior 1e40
TMCov(m, a, s, env) == LET P == Psr(m, a)
                           b == TMBasis(P, m.sigs[s].basis, [i \in 1..NToa(m, a) |-> i])
                       IN  OuterDiag(NToa(m, a), b.cols, [k \in 1..Len(b.cols) |-> "1e40"])
IsTM(sg) == sg.k = "mtm" \/ (sg.k = "gp" /\ sg.basis.f = "tm")

(* ---- common processes ------------------------------------------------------ *)
Members(m, s) == SelectSeq([a \in 1..Len(m.arr) |-> a], LAMBDA a : s \in RangeOf(m.arr[a].s))
\* common processes without explicit span use the span of all pulsars that have it
\* (m.spanof, when given, names other pulsars for every pulsar: used to describe known findings)
CommonSpan(m, a, s) ==
  IF ~Get(m.sigs[s], "autospan", FALSE) THEN ""
  ELSE LET mem == Members(m, s)
           ps == IF Has(m, "spanof") THEN [k \in 1..Len(m.spanof[m.arr[a].p]) |-> m.psrs[m.spanof[m.arr[a].p][k]]]
                 ELSE [k \in 1..Len(mem) |-> Psr(m, mem[k])]
           all == Concat([k \in 1..Len(ps) |-> ps[k].toas])
       IN  RSub(TMax(all), TMin(all))
CBasis(m, a, s, env) ==
  LET P == Psr(m, a)  sg == m.sigs[s]
      sp == CommonSpan(m, a, s)
      fs == IF Get(sg, "autospan", FALSE)
            THEN [sg.basis EXCEPT !.kw = [x \in DOMAIN @ \cup {"Tspan"} |-> IF x = "Tspan" THEN [t |-> "lit", v |-> sp] ELSE @[x]]]
            ELSE sg.basis
  IN  IF sg.basis.f = "physeph" THEN EphBasis(P, sg.basis)
      ELSE BasisFn(P, fs, JoinNE(<<P.name, sg.name>>), env, [i \in 1..Len(P.toas) |-> i], "", Get(m, "phases", EmptyRec))
COrf(m, s, env, a, b) == OrfFn(m.sigs[s].orf, m.sigs[s].name, env, Psr(m, a).pos, Psr(m, b).pos)
CPrior(m, s, env, labels) == SpecFn(m.sigs[s].prior, m.sigs[s].name, env, labels)
CCross(m, s, env, a, b) ==      \* block between pulsars a and b
  LET A == CBasis(m, a, s, env)  B == CBasis(m, b, s, env)
      o == COrf(m, s, env, a, b)
      w == IF DensePrior(m.sigs[s].prior) THEN <<>> ELSE RScale(o, CPrior(m, s, env, A.labels))
      na == NToa(m, a)  nb == NToa(m, b)
      RECURSIVE F(_, _)
      F(k, acc) == IF k > Len(A.cols) THEN acc
                   ELSE F(k + 1, LET wc == RScale(w[k], A.cols[k])
                                 IN  TLCEval([i \in 1..na |-> RAxpy(wc[i], B.cols[k], acc[i])]))
  IN  IF DensePrior(m.sigs[s].prior)
      THEN Sandwich(na, nb, A.cols, MatScale(o, DenseFn(m.sigs[s].prior, m.sigs[s].name, env, A.labels)), B.cols)
      ELSE F(1, ZeroMat(na, nb))

(* ---- delays ---------------------------------------------------------------- *)
CoefName(pre) == pre \o "_coefficients"
LinComb(n, cols, c) == SumVecs(n, [k \in 1..Len(cols) |-> RScale(c[k], cols[k])])
DetDelay(m, a, s, env) ==
  LET P == Psr(m, a)  sg == m.sigs[s]  g == Groups(m, a, s)  n == NToa(m, a)
  IN  SumVecs(n, [k \in 1..Len(g) |->
        LET idx == Where(g[k][2])
        IN  Embed(n, idx, Waveform(P, sg.wf, Prefix(P, sg, g[k][1]), env, idx))])
CoefDelay(m, a, s, env) ==
  LET ps == GPParts(m, a, s, env)  n == NToa(m, a)
  IN  SumVecs(n, [k \in 1..Len(ps) |-> LinComb(n, ps[k].cols, VecOf(env.par[CoefName(ps[k].pre)]))])
CCoefDelay(m, a, s, env) ==
  LET sg == m.sigs[s]  P == Psr(m, a)
      nm == IF Has(sg, "coefname") THEN sg.coefname ELSE CoefName(JoinNE(<<P.name, sg.name>>))
  IN  LinComb(NToa(m, a), CBasis(m, a, s, env).cols, VecOf(env.par[nm]))
IsCoef(sg) == Get(sg, "coef", FALSE)
SigDelay(m, a, s, env) ==
  LET sg == m.sigs[s]
  IN  CASE sg.k = "det" -> DetDelay(m, a, s, env)
        [] sg.k = "eph" -> EphSignal(Psr(m, a), sg, env)
        [] sg.k = "wtm" -> WTDelay(Psr(m, a), sg, env)
        [] sg.k = "gp" /\ IsCoef(sg) -> CoefDelay(m, a, s, env)
        [] sg.k = "cgp" /\ IsCoef(sg) -> CCoefDelay(m, a, s, env)
        [] OTHER -> Zeros(NToa(m, a))
Delay(m, a, env) ==
  LET ds == SelectSeq(m.arr[a].s, LAMBDA s : m.sigs[s].k \in {"det", "eph", "wtm"} \/ IsCoef(m.sigs[s]))
  IN  SumVecs(NToa(m, a), [k \in 1..Len(ds) |-> SigDelay(m, a, ds[k], env)])
DetRes(m, a, env) == RVSub(RVec(Psr(m, a).res), Delay(m, a, env))

(* ---- covariance and likelihood ---------------------------------------------- *)
Correlated(m) == SelectSeq([s \in 1..Len(m.sigs) |-> s],
                    LAMBDA s : m.sigs[s].k = "cgp" /\ ~IsCoef(m.sigs[s]) /\ Len(Members(m, s)) > 1)
SigCov(m, a, s, env) ==
  LET sg == m.sigs[s]
  IN  CASE IsTM(sg) /\ ~IsCoef(sg) -> TMCov(m, a, s, env)
        [] sg.k = "gp" /\ ~IsCoef(sg) -> GPCov(m, a, s, env)
        [] sg.k = "wtm" -> WTCov(Psr(m, a), sg, env)
        [] sg.k = "cgp" /\ ~IsCoef(sg) -> CCross(m, s, env, a, a)
        [] OTHER -> ZeroMat(NToa(m, a), NToa(m, a))
HasCov(m, s) == LET sg == m.sigs[s] IN (sg.k \in {"gp", "cgp"} /\ ~IsCoef(sg)) \/ sg.k \in {"mtm", "wtm"}
ProperGP(m, s) == HasCov(m, s) /\ ~IsTM(m.sigs[s]) /\ m.sigs[s].k # "wtm"
CovOf(m, a, ss, env) == SumMats(NToa(m, a), [k \in 1..Len(ss) |-> SigCov(m, a, ss[k], env)])
PsrCov(m, a, env) ==
  MatAdd(NCov(m, a, env), CovOf(m, a, SelectSeq(m.arr[a].s, LAMBDA s : HasCov(m, s)), env))
SigPrior(m, a, env) ==
  LET ws == SigsOf(m, a, {"wtm"})
  IN  RSum(RVec([k \in 1..Len(ws) |-> WTLogPrior(Psr(m, a), m.sigs[ws[k]], env)]))
GaussLn(C, r) == LET q == Quad(C, r) IN RMul("-0.5", RAdd(q.q, q.ld))
RowBlock(m, env, cs, a) ==       \* rows of the joint covariance that belong to pulsar a
  LET n == NToa(m, a)
      block(b) == IF a = b THEN PsrCov(m, a, env)
                  ELSE LET both == SelectSeq(cs, LAMBDA s : {a, b} \subseteq RangeOf(Members(m, s)))
                           RECURSIVE F(_, _)
                           F(k, acc) == IF k > Len(both) THEN acc ELSE F(k + 1, MatAdd(acc, CCross(m, both[k], env, a, b)))
                       IN  F(1, ZeroMat(n, NToa(m, b)))
      bs == TLCEval([b \in 1..Len(m.arr) |-> block(b)])
  IN  TLCEval([i \in 1..n |-> Concat([b \in 1..Len(m.arr) |-> bs[b][i]])])
JointCov(m, env) ==
  LET cs == Correlated(m) IN Concat([a \in 1..Len(m.arr) |-> RowBlock(m, env, cs, a)])
LnLike(m, env) ==
  LET na == Len(m.arr)
      pr == RSum(RVec([a \in 1..na |-> SigPrior(m, a, env)]))
  IN  IF Correlated(m) = <<>>
      THEN RAdd(pr, RSum(RVec([a \in 1..na |-> GaussLn(PsrCov(m, a, env), DetRes(m, a, env))])))
      ELSE RAdd(pr, GaussLn(JointCov(m, env), Concat([a \in 1..na |-> DetRes(m, a, env)])))

(* ---- parameters --------------------------------------------------------------- *)
\* get(pre, kw, ps) is Free, Direct or Consts; fn(fs, pre) the same for functions
Collect(m, a, s, get(_, _, _), fn(_, _)) ==
  LET P == Psr(m, a)  sg == m.sigs[s]
      keys == IF sg.k \in {"mn", "tneq", "eck", "gp", "det"} THEN {g[1] : g \in RangeOf(Groups(m, a, s))} ELSE {""}
      pre(key) == Prefix(P, sg, key)
  IN
  CASE sg.k = "mn" -> UNION {get(pre(k), "efac", sg.efac) \cup (IF Has(sg, "eq") THEN get(pre(k), "log10_t2equad", sg.eq) ELSE {}) : k \in keys}
    [] sg.k = "tneq" -> UNION {get(pre(k), "log10_tnequad", sg.eq) : k \in keys}
    [] sg.k = "eck" -> UNION {get(EcorrPrefix(P, k), "log10_ecorr", sg.ec) : k \in keys}
    [] sg.k = "gp" -> UNION {fn(sg.prior, pre(k)) \cup fn(sg.basis, pre(k)) : k \in keys}
    [] sg.k = "cgp" -> fn(sg.prior, sg.name) \cup fn(sg.orf, sg.name) \cup fn(sg.basis, JoinNE(<<P.name, sg.name>>))
    [] sg.k = "det" -> UNION {fn(sg.wf, pre(k)) : k \in keys}
    [] sg.k = "eph" -> fn(sg.wf, pre(""))
    [] sg.k = "wtm" -> WTParams(P, sg, get)
    [] OTHER -> {}
\* coefficients of a hierarchical process
CoefParams(m, a, s, env) ==
  LET sg == m.sigs[s]  P == Psr(m, a)
  IN  IF ~IsCoef(sg) THEN {}
      ELSE IF sg.k = "cgp" THEN {[name |-> IF Has(sg, "coefname") THEN sg.coefname ELSE CoefName(JoinNE(<<P.name, sg.name>>)),
                                  size |-> Len(CBasis(m, a, s, env).cols), pr |-> IF Has(sg, "coefname") THEN sg.coefpr ELSE [d |-> "C"]]}
      ELSE {[name |-> CoefName(ps.pre), size |-> Len(ps.cols), pr |-> [d |-> "C"]] : ps \in RangeOf(GPParts(m, a, s, env))}
SigFree(m, a, s, env) == Collect(m, a, s, Free, FnFree) \cup CoefParams(m, a, s, env)
SigDirect(m, a, s, env) == Collect(m, a, s, Direct, FnDirect) \cup CoefParams(m, a, s, env)
SigConsts(m, a, s) == Collect(m, a, s, Consts, FnConsts)
FreeParams(m, env) == UNION {UNION {SigFree(m, a, s, env) : s \in RangeOf(m.arr[a].s)} : a \in 1..Len(m.arr)}
ConstRecs(m, a) == UNION {SigConsts(m, a, s) : s \in RangeOf(m.arr[a].s)}
ConstNames(m, a) == {k.name : k \in ConstRecs(m, a)}
ParamNames(m, env) == Expand(SortByName(FreeParams(m, env)))

(* ---- log prior ------------------------------------------------------------------ *)
\* log prior of the coefficients of process s: normalized Gaussian, flat for timing models
CoefLnPrior(m, a, s, env) ==
  LET sg == m.sigs[s]  ps == GPParts(m, a, s, env)
      one(part) ==
        LET c == RVec(VecOf(env.par[CoefName(part.pre)]))
            phi == PartPhi(sg, part, env)
            l2p == RMul(Len(c), RLn(TwoPi))
        IN  IF DensePrior(sg.prior)
            THEN LET q == Quad(DenseFn(sg.prior, part.pre, env, part.labels), c)
                 IN  RMul("-0.5", RAdd(RAdd(q.q, q.ld), l2p))
            ELSE RMul("-0.5", RAdd(RSum(RVec([k \in 1..Len(c) |-> RAdd(RDiv(Sq(c[k]), phi[k]), RLn(phi[k]))])), l2p))
  IN  IF IsTM(sg) THEN R(0) ELSE RSum(RVec([k \in 1..Len(ps) |-> one(ps[k])]))
LnPrior(m, env) ==
  LET fp == SetToSeq({p \in FreeParams(m, env) : p.pr.d # "C"})
      plain == RSum(RVec([k \in 1..Len(fp) |-> RLn(PdfOf(fp[k], env.par[fp[k].name], env))]))
      cs == Concat([a \in 1..Len(m.arr) |->
              LET ss == SelectSeq(m.arr[a].s, LAMBDA s : m.sigs[s].k = "gp" /\ IsCoef(m.sigs[s]))
              IN  [k \in 1..Len(ss) |-> CoefLnPrior(m, a, ss[k], env)]])
  IN  RAdd(plain, RSum(RVec(cs)))
=============================================================================
