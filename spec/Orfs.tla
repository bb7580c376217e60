-------------------------------- MODULE Orfs --------------------------------
(* Overlap reduction functions.                                              *)
EXTENDS Spectra
Dot3(p, q) == RSum(RVMul(p, q))
OrfFn(fs, pre, env, p, q) ==
  LET same == \A a \in 1..3 : REq(p[a], q[a])
      d == RVSub(RVec(p), RVec(q))
      w == RDiv(Dot3(d, d), 4)          \* (1 - cosine of the angle) / 2
  IN
  CASE fs.f = "hd"   -> IF same THEN R(1)
                        ELSE RAdd(RSub(RMul(RMul("1.5", w), RLn(w)), RMul("0.25", w)), "0.5")
    [] fs.f = "dipole"   -> IF same THEN R("1.00001") ELSE Dot3(p, q)
    [] fs.f = "monopole" -> IF same THEN R("1.00001") ELSE R(1)
    [] fs.f = "anis" ->  \* basis matrices per (l, m), monopole coefficient 2 sqrt(pi)
         LET i == CHOOSE k \in 1..Len(fs.pos) : \A a \in 1..3 : REq(fs.pos[k][a], p[a])
             j == CHOOSE k \in 1..Len(fs.pos) : \A a \in 1..3 : REq(fs.pos[k][a], q[a])
             c == VecOf(Arg(fs, pre, "params", env, <<>>))
             nb == (fs.lmax + 1) * (fs.lmax + 1)
         IN  RSum(RVec([b \in 1..nb |-> RMul(IF b = 1 THEN RMul(2, RSqrt(RPi)) ELSE c[b - 1], fs.basis[b][i][j])]))
    [] fs.f = "mix" ->   \* a mixture: 1 within a pulsar, w hd between pulsars
         IF same THEN R(1) ELSE RMul(Arg(fs, pre, "w", env, 1),
                                     RAdd(RSub(RMul(RMul("1.5", w), RLn(w)), RMul("0.25", w)), "0.5"))
=============================================================================
