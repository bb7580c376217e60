------------------------------ MODULE Wideband ------------------------------
(* Wideband timing model: TOAs with DM measurements.                          *)
(* P.wb = [dm0, ppdm, ppdme, bins], bins a sequence of [lo, hi, dmx, par];    *)
(* P.stoas in seconds; P.fit names of the design-matrix columns.              *)
EXTENDS Spectra
K == "2.41e-4"
LOCAL NN(P) == Len(P.toas)
WTGroups(P, sel) == Masks(sel, P)
WTPre(P, key) == JoinNE(<<P.name, key>>)
GroupSum(P, sel, g(_, _)) ==             \* sum over groups of value * mask
  LET ms == WTGroups(P, sel)
      RECURSIVE F(_, _)
      F(k, acc) == IF k > Len(ms) THEN acc
                   ELSE LET v == g(WTPre(P, ms[k][1]), ms[k][1])
                        IN  F(k + 1, RVAdd(acc, RVec([i \in 1..NN(P) |-> IF ms[k][2][i] THEN v ELSE 0])))
  IN  F(1, Zeros(NN(P)))
JumpSpec(sg, key) == IF Get(sg, "ref", "?") = key THEN [t |-> "const", v |-> 0] ELSE sg.dmjump
WTDm(P, sg, env) ==
  RVAdd(P.wb.ppdm, IF Has(sg, "dmjump")
                   THEN GroupSum(P, sg.jsel, LAMBDA pre, key : Val(pre, "dmjump", JumpSpec(sg, key), env))
                   ELSE Zeros(NN(P)))
WTDme2(P, sg, env) ==
  LET ef == GroupSum(P, sg.sel, LAMBDA pre, key : Val(pre, "dmefac", sg.dmefac, env))
      eq == IF Has(sg, "dmequad")
            THEN GroupSum(P, sg.sel, LAMBDA pre, key : RPow10(Val(pre, "log10_dmequad", sg.dmequad, env)))
            ELSE Zeros(NN(P))
  IN  RVec([i \in 1..NN(P) |-> RMul(Sq(ef[i]), RAdd(Sq(P.wb.ppdme[i]), Sq(eq[i])))])
\* intervals are half open, in days
BinIdx(P, b) == Where([i \in 1..NN(P) |-> LET d == RDiv(P.stoas[i], 86400)
                                         IN  RLe(P.wb.bins[b].lo, d) /\ RLt(d, P.wb.bins[b].hi)])
BinStat(P, sg, env) ==                   \* per interval: TOAs, weighted mean and its variance
  LET dm == WTDm(P, sg, env)  v == WTDme2(P, sg, env)
  IN  TLCEval([b \in 1..Len(P.wb.bins) |->
        LET idx == BinIdx(P, b)
            w == RSum(RVec([k \in 1..Len(idx) |-> RDiv(1, v[idx[k]])]))
            s == RSum(RVec([k \in 1..Len(idx) |-> RDiv(dm[idx[k]], v[idx[k]])]))
        IN  [idx |-> idx, var |-> RDiv(1, w), mean |-> RDiv(s, w)]])
\* the parameter in every design-matrix column: 0 or its interval
WTCol(P, j) == LET bs == {b \in 1..Len(P.wb.bins) : P.wb.bins[b].par = P.fit[j]}
               IN  IF bs = {} THEN 0 ELSE CHOOSE b \in bs : TRUE
WTPhi(P, sg, env) ==
  LET st == BinStat(P, sg, env)
  IN  TLCEval([j \in 1..Len(P.fit) |-> IF WTCol(P, j) = 0 THEN R("1e40") ELSE st[WTCol(P, j)].var])
WTCols(P) == TLCEval([j \in 1..NCols(P.M) |-> RVec([i \in 1..NN(P) |-> P.M[i][j]])])
WTCov(P, sg, env) == OuterDiag(NN(P), WTCols(P), WTPhi(P, sg, env))
WTPerToa(P, st, g(_)) ==
  RVec([i \in 1..NN(P) |-> LET bs == {b \in 1..Len(st) : i \in RangeOf(st[b].idx)}
                           IN  IF bs = {} THEN 0 ELSE g(st[CHOOSE b \in bs : TRUE])])
WTMeanDm(P, sg, env) == WTPerToa(P, BinStat(P, sg, env), LAMBDA x : x.mean)
WTMeanDme(P, sg, env) == WTPerToa(P, BinStat(P, sg, env), LAMBDA x : RSqrt(x.var))
WTDelay(P, sg, env) ==
  LET st == BinStat(P, sg, env)
  IN  RVec([i \in 1..NN(P) |->
        LET bs == {b \in 1..Len(st) : i \in RangeOf(st[b].idx)}
        IN  IF bs = {} THEN R(0)
            ELSE LET b == CHOOSE x \in bs : TRUE
                 IN  RDiv(RSub(st[b].mean, RAdd(P.wb.dm0, P.wb.bins[b].dmx)), RMul(K, Sq(P.freqs[i])))])
WTLogPrior(P, sg, env) ==
  LET dm == WTDm(P, sg, env)  v == WTDme2(P, sg, env)  st == BinStat(P, sg, env)
      t1 == RSum(RVec([i \in 1..NN(P) |-> RAdd(RDiv(Sq(dm[i]), v[i]), RLn(v[i]))]))
      t2 == RSum(RVec([b \in 1..Len(st) |-> RAdd(RDiv(Sq(st[b].mean), st[b].var), RLn(st[b].var))]))
  IN  RMul("0.5", RSub(t2, t1))
\* rounding of a sum of terms this large in double precision
WTRound(P, sg, env) ==
  LET dm == WTDm(P, sg, env)  v == WTDme2(P, sg, env)
  IN  RMul("2e-15", RSum(RVec([i \in 1..NN(P) |-> RDiv(Sq(dm[i]), v[i])])))
WTParams(P, sg, get(_, _, _)) ==
  UNION {get(WTPre(P, g[1]), "dmefac", sg.dmefac)
           \cup (IF Has(sg, "dmequad") THEN get(WTPre(P, g[1]), "log10_dmequad", sg.dmequad) ELSE {})
         : g \in RangeOf(WTGroups(P, sg.sel))}
  \cup (IF Has(sg, "dmjump")
        THEN UNION {get(WTPre(P, g[1]), "dmjump", JumpSpec(sg, g[1])) : g \in RangeOf(WTGroups(P, sg.jsel))} ELSE {})

\* what can be modelled: every interval has a fitted parameter, every TOA is in one interval, the
\* dispersion measure itself is not fitted, and jumps have groups to distinguish
WTAccepts(P, sg) ==
  /\ ~P.wb.missing
  /\ \A b \in 1..Len(P.wb.bins) : P.wb.bins[b].par \in RangeOf(P.fit)
  /\ \A i \in 1..NN(P) : Cardinality({b \in 1..Len(P.wb.bins) : i \in RangeOf(BinIdx(P, b))}) = 1
  /\ "DM" \notin RangeOf(P.fit)
  /\ (Has(sg, "dmjump") => ~(Len(WTGroups(P, sg.jsel)) = 1 /\ WTGroups(P, sg.jsel)[1][1] = ""))
\* the residual dispersion measures, and their chi-squared
WTDelta(P, sg, env, mean) ==
  LET st == BinStat(P, sg, env)  dm == WTDm(P, sg, env)
      at(i) == CHOOSE b \in 1..Len(st) : i \in RangeOf(st[b].idx)
  IN  RVec([i \in 1..NN(P) |-> RSub(IF mean THEN st[at(i)].mean ELSE dm[i], RAdd(P.wb.dm0, P.wb.bins[at(i)].dmx))])
WTChi2(P, sg, env, mean) ==
  LET st == BinStat(P, sg, env)  v == WTDme2(P, sg, env)  d == WTDelta(P, sg, env, mean)
  IN  IF mean THEN RSum(RVec([b \in 1..Len(st) |-> RDiv(Sq(RSub(st[b].mean, RAdd(P.wb.dm0, P.wb.bins[b].dmx))), st[b].var)]))
      ELSE RSum(RVec([i \in 1..NN(P) |-> RDiv(Sq(d[i]), v[i])]))

(* ---- the joint model of TOAs and DMs, from first principles ---------------- *)
\* data (r, dm): r = M xi + noise, dm_i = DM + DMX_b + x_b + noise, the column of x_b in M
\* being 1/(K f^2) in the interval of b; all timing parameters with variance 1e40.
WTJointLn(P, sg, env, Nr, r) ==
  LET n == NN(P)  np == Len(P.fit)
      dm == WTDm(P, sg, env)  v == WTDme2(P, sg, env)
      nb == Len(P.wb.bins)
      inb(i, b) == i \in RangeOf(BinIdx(P, b))
      cols == TLCEval([j \in 1..np |-> RVec([i \in 1..2 * n |->
                 IF i <= n THEN P.M[i][j]
                 ELSE IF WTCol(P, j) # 0 /\ inb(i - n, WTCol(P, j)) THEN 1 ELSE 0])])
      N2 == BlockDiag(<<Nr, DiagMat(v)>>)
      C == MatAdd(N2, OuterDiag(2 * n, cols, [j \in 1..np |-> "1e40"]))
      off == RVec([i \in 1..n |-> LET bs == {b \in 1..nb : inb(i, b)}
                                  IN  IF bs = {} THEN 0 ELSE RSub(dm[i], RAdd(P.wb.dm0, P.wb.bins[CHOOSE b \in bs : TRUE].dmx))])
      q == Quad(C, r \o off)
  IN  RAdd(RMul("-0.5", RAdd(q.q, q.ld)), RMul(RMul("0.5", nb), RLn("1e40")))
=============================================================================
