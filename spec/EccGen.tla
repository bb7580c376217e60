------------------------------- MODULE EccGen -------------------------------
(* Binaries to ask about.  TLC enumerates the kinds of questions and, on some  *)
(* exactly given binaries, checks what the reference must satisfy.             *)
EXTENDS Eccentric, Json, IOUtils
VARIABLES x, done
vars == <<x, done>>
Ecc == {"zero", "small", "middle", "high"}
Cases ==
  {[kind |-> "rate", f |-> f, ecc |-> e, arr |-> a] : f \in {"edot", "Fdot", "gammadot"}, e \in Ecc, a \in {"none", "mc", "F", "e"}}
  \cup {[kind |-> "eqns", f |-> f, ecc |-> e] : f \in {"constant", "coupled"}, e \in Ecc}
  \cup {[kind |-> "solve", f |-> f, ecc |-> e, chirp |-> c] : f \in {"constant", "coupled"}, e \in Ecc, c \in {"slow", "fast"}}
  \cup {[kind |-> "coef", f |-> f, ecc |-> e, amp |-> a, arr |-> v] : f \in {"an", "bn", "cn"}, e \in Ecc, a \in {"distance", "strain"}, v \in {"none", "n", "mc"}}
  \cup {[kind |-> "wave", ecc |-> e, amp |-> a, nmax |-> n, inc |-> i, prec |-> p, arr |-> v] :
          v \in {"none", "angles"}, e \in Ecc, a \in {"distance", "strain"}, n \in {2, 3, 6, 11}, i \in {"face", "edge", "back", "any"}, p \in {"zero", "up"}}
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ PrintT("SCN " \o ToJson(x))
Spec == Init /\ [][Next]_vars
Near(a, b, tol) == RLe(RAbs(RSub(a, b)), RMul(tol, RMax(RAbs(a), RAbs(b))))
\* the harmonics carry the enhanced power of an eccentric binary
Power == \A e \in {"0.05", "0.3", "0.5"} : Near(RSum(RVec([n \in 1..24 |-> PowerIn(n, R(e))])), Enhancement(R(e)), "1e-4")
\* a circular binary radiates at twice its frequency only
Circular == \A n \in 1..6 : LET p == PowerIn(n, R(0)) IN IF n = 2 THEN REq(p, 1) ELSE REq(p, 0)
\* Bessel functions: recurrence, and the sum of squares
Bessel == \A y \in {"0.4", "3", "9"} : /\ \A n \in -2..8 : RLe(RAbs(RSub(RAdd(BesselJ(n - 1, R(y)), BesselJ(n + 1, R(y))), RDiv(RMul(2 * n, BesselJ(n, R(y))), y))), "1e-35")
                                       /\ RLe(RAbs(RSub(RAdd(RMul(BesselJ(0, R(y)), BesselJ(0, R(y))),
                                               RSum(RVec([n \in 1..40 |-> RMul(2, RMul(BesselJ(n, R(y)), BesselJ(n, R(y))))]))), 1)), "1e-30")
\* evolution: Peters' invariant is conserved; orbits shrink and become rounder; nearly circular ones follow the closed form
Track(e0) == Evolve(RVec(<<"3e-8", e0, "0.1", "0.2">>), RVec(<<0, "1e8", "3e8">>), 12, R("1e9"), R("0.5"))
Evolution == \A e0 \in {"1e-6", "0.3", "0.6"} :
   LET y == TLCEval(Track(e0)) IN
     /\ \A k \in 2..3 : /\ Near(Peters(y[k][1], y[k][2]), Peters(y[1][1], y[1][2]), "1e-7")
                        /\ RLt(y[k - 1][1], y[k][1]) /\ RLt(y[k][2], y[k - 1][2]) /\ RLt(y[k - 1][3], y[k][3]) /\ RLt(y[k - 1][4], y[k][4])
     /\ (e0 = "1e-6") => LET c == ConstAt(R("3e-8"), R(e0), R("0.2"), R("1e9"), R("3e8"))
                         IN  Near(c[1], y[3][1], "1e-8") /\ Near(c[2], y[3][4], "1e-8")
\* the closed form solves its equations
Closed == LET at(t) == ConstAt(R("2e-8"), R("0.4"), R(1), R("5e9"), R(t))
              f0 == at("1e8")  f1 == at("1.0001e8")
          IN  Near(RDiv(RSub(f1[1], f0[1]), "1e4"), FDot(f0[1], R("5e9"), R("0.4")), "1e-3") /\ Near(RDiv(RSub(f1[2], f0[2]), "1e4"), RMul(RMul(2, RPi), f0[1]), "1e-3")
\* residuals are antiderivatives: their slope is the strain
Xb == [mc |-> R("1e9"), dl |-> R(100), h0 |-> <<>>, F |-> R("1e-8"), e |-> R("0.4"), l0 |-> R("0.3"), gamma |-> R("0.7"), gammadot |-> R("2e-9"), inc |-> R("1.1")]
Slope == LET d == "1"  ns == <<1, 2, 3>>
             a == Residual(ns, Xb, R("1e7"))  b == Residual(ns, Xb, RAdd("1e7", d))
             t == RAdd("1e7", "0.5")  ci == RCos(Xb.inc)
             l == RAdd(Xb.l0, RMul(RMul(RMul(2, RPi), Xb.F), t))  g == RAdd(Xb.gamma, RMul(Xb.gammadot, t))
             hp(n) == LET A == An(n, Xb.mc, Xb.dl, <<>>, Xb.F, Xb.e)  B == Bn(n, Xb.mc, Xb.dl, <<>>, Xb.F, Xb.e)  C == Cn(n, Xb.mc, Xb.dl, <<>>, Xb.F, Xb.e)
                      IN  RAdd(RMul(RNeg(RAdd(1, RMul(ci, ci))), RSub(RMul(A, RMul(RCos(RMul(n, l)), RCos(RMul(2, g)))), RMul(B, RMul(RSin(RMul(n, l)), RSin(RMul(2, g)))))),
                               RMul(RMul(RSub(1, RMul(ci, ci)), RMul(C, RMul(n, RMul(RMul(2, RPi), Xb.F)))), RCos(RMul(n, l))))
             hc(n) == LET A == An(n, Xb.mc, Xb.dl, <<>>, Xb.F, Xb.e)  B == Bn(n, Xb.mc, Xb.dl, <<>>, Xb.F, Xb.e)
                      IN  RMul(RMul(2, ci), RAdd(RMul(A, RMul(RCos(RMul(n, l)), RSin(RMul(2, g)))), RMul(B, RMul(RSin(RMul(n, l)), RCos(RMul(2, g))))))
         IN  /\ Near(RSub(b[1], a[1]), RSum(RVec([n \in 1..3 |-> hp(n)])), "1e-9")
             /\ Near(RSub(b[2], a[2]), RSum(RVec([n \in 1..3 |-> hc(n)])), "1e-9")
ASSUME Power
ASSUME Circular
ASSUME Bessel
ASSUME Evolution
ASSUME Closed
ASSUME Slope
=============================================================================
