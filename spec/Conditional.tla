---------------------------- MODULE Conditional -----------------------------
(* The posterior of the coefficients of all Gaussian processes of a model at  *)
(* given parameters: normal with precision  phi^-1 + F'N^-1 F  and mean       *)
(* (phi^-1 + F'N^-1 F)^-1 F'N^-1 r.  Coefficients are ordered by pulsar, then *)
(* by signal, then by column.                                                 *)
EXTENDS Model
SigId(sg) == CASE sg.k = "gp" /\ sg.basis.f = "tm" /\ sg.basis.tm = "svd" -> sg.name \o "_svd"
               [] sg.k = "mn" -> JoinNE(<<"measurement_noise", sg.name>>)
               [] sg.k = "tneq" -> JoinNE(<<"tnequad", sg.name>>)
               [] sg.k = "eck" -> JoinNE(<<"ecorr", sg.name, sg.method>>)
               [] sg.k = "eph" -> JoinNE(<<"phys_ephem", sg.name>>)
               [] OTHER -> sg.name
SigName(m, a, s) == Psr(m, a).name \o "_" \o SigId(m.sigs[s])
\* the processes: pulsar, signal, columns, block of the prior with every other one
Processes(m) == Concat([a \in 1..Len(m.arr) |->
                  LET ss == SelectSeq(m.arr[a].s, LAMBDA s : m.sigs[s].k \in {"gp", "cgp"} /\ HasCov(m, s))
                  IN  [k \in 1..Len(ss) |-> [a |-> a, s |-> ss[k]]]])
PCols(m, p, env) ==
  IF m.sigs[p.s].k = "cgp" THEN CBasis(m, p.a, p.s, env).cols
  ELSE LET g == GPParts(m, p.a, p.s, env) IN Concat([k \in 1..Len(g) |-> g[k].cols])
DirectSum(Bs) ==           \* of square matrices
  LET n == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + Len(Bs[j]) IN S(Len(Bs))
      RECURSIVE F(_, _, _)
      F(k, off, acc) == IF k > Len(Bs) THEN acc
        ELSE LET B == Bs[k]
             IN  F(k + 1, off + Len(B),
                   acc \o [i \in 1..Len(B) |-> Zeros(off) \o B[i] \o Zeros(n - off - Len(B))])
  IN  TLCEval(F(1, 0, <<>>))
Phi2(m, p, env) ==         \* prior of one process in one pulsar
  LET sg == m.sigs[p.s] IN
  IF sg.k = "cgp"
  THEN LET A == CBasis(m, p.a, p.s, env)  o == COrf(m, p.s, env, p.a, p.a)
       IN  IF DensePrior(sg.prior) THEN MatScale(o, DenseFn(sg.prior, sg.name, env, A.labels))
           ELSE DiagMat(RScale(o, CPrior(m, p.s, env, A.labels)))
  ELSE LET g == GPParts(m, p.a, p.s, env)
       IN  DirectSum([k \in 1..Len(g) |-> IF DensePrior(sg.prior) THEN DenseFn(sg.prior, g[k].pre, env, g[k].labels)
                                          ELSE DiagMat(PartPhi(sg, g[k], env))])
Cross2(m, p, q, env) ==    \* prior between the same process of two pulsars
  LET sg == m.sigs[p.s]  A == CBasis(m, p.a, p.s, env)  o == COrf(m, p.s, env, p.a, q.a)
  IN  IF DensePrior(sg.prior) THEN MatScale(o, DenseFn(sg.prior, sg.name, env, A.labels))
      ELSE DiagMat(RScale(o, CPrior(m, p.s, env, A.labels)))
Posterior(m, env) ==
  LET ps == Processes(m)
      cols == TLCEval([k \in 1..Len(ps) |-> PCols(m, ps[k], env)])
      len(k) == Len(cols[k])
      blk(k, l) == IF k = l THEN Phi2(m, ps[k], env)
                   ELSE IF ps[k].s = ps[l].s /\ m.sigs[ps[k].s].k = "cgp" THEN Cross2(m, ps[k], ps[l], env)
                   ELSE ZeroMat(len(k), len(l))
      row(k) == LET bs == TLCEval([l \in 1..Len(ps) |-> blk(k, l)])
                IN  [i \in 1..len(k) |-> Concat([l \in 1..Len(ps) |-> bs[l][i]])]
      phi == TLCEval(Concat([k \in 1..Len(ps) |-> row(k)]))
      \* products with the white noise, per pulsar
      Fa(a) == LET mine == SelectSeq([k \in 1..Len(ps) |-> k], LAMBDA k : ps[k].a = a)
                   F == Concat([j \in 1..Len(mine) |-> cols[mine[j]]])
               IN  [F |-> F, X |-> Factor(NCov(m, a, env), Transpose(RMat(<<DetRes(m, a, env)>> \o F)))]
      fa == TLCEval([a \in 1..Len(m.arr) |-> Fa(a)])
      FNF(a) == LET n == Len(fa[a].F) IN TLCEval(FGramMat(fa[a].X, [i \in 1..n |-> i + 1], [i \in 1..n |-> i + 1]))
      FNr(a) == RVec([i \in 1..Len(fa[a].F) |-> FGram(fa[a].X, 1, i + 1)])
      P == MatAdd(MatInverse(phi), DirectSum([a \in 1..Len(m.arr) |-> FNF(a)]))
      S == MatInverse(P)
  IN  [ps |-> ps, cols |-> cols, P |-> P, S |-> S,
       mean |-> MatVec(S, Concat([a \in 1..Len(m.arr) |-> FNr(a)]))]
Offset(po, k) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE S(j - 1) + Len(po.cols[j]) IN S(k - 1)
=============================================================================
