----------------------------- MODULE Eccentric -------------------------------
(* Eccentric binaries: evolution by gravitational radiation (Peters 1964,      *)
(* Barack & Cutler 2004) and the residuals they cause (Taylor et al. 2016).    *)
(* Masses are given in solar masses, distances in Mpc, everything else in SI.  *)
EXTENDS Util, LinAlg, Integers
LightSpeed == 299792458
TSun == RDiv("1.327124400e20", RMul(LightSpeed, RMul(LightSpeed, LightSpeed)))
MpcSec == RDiv("3.0856775814913673e22", LightSpeed)
LOCAL P2 == RMul(2, RPi)
LOCAL Pw(x, a, b) == RPow(x, RDiv(a, b))
LOCAL Sq1(x) == RSub(1, RMul(x, x))                    \* 1 - x^2
LOCAL Poly(x, cs) == LET RECURSIVE H(_)               \* cs[1] + cs[2] x + ...
                         H(k) == IF k = Len(cs) THEN R(cs[k]) ELSE RAdd(cs[k], RMul(x, H(k + 1)))
                     IN  H(1)
(* ---- rates ------------------------------------------------------------------ *)
\* w = 2 pi F M, dimensionless
EDot(F, mc, e) ==
  LET M == RMul(mc, TSun)  w == RMul(P2, RMul(F, M))
  IN  RNeg(RDiv(RMul(RDiv(304, 15), RMul(RDiv(Pw(w, 8, 3), M), RMul(e, Poly(RMul(e, e), <<1, RDiv(121, 304)>>)))), Pw(Sq1(e), 5, 2)))
Enhancement(e) == RDiv(Poly(RMul(e, e), <<1, RDiv(73, 24), RDiv(37, 96)>>), Pw(Sq1(e), 7, 2))
FDot(F, mc, e) ==
  LET M == RMul(mc, TSun)  w == RMul(P2, RMul(F, M))
  IN  RMul(RDiv(48, RMul(RMul(5, RPi), RMul(M, M))), RMul(Pw(w, 11, 3), Enhancement(e)))
GammaDot(F, mc, q, e) ==
  LET tot == RMul(Pw(RDiv(RMul(RAdd(1, q), RAdd(1, q)), q), 3, 5), RMul(mc, TSun))
      v2 == Pw(RMul(P2, RMul(F, tot)), 2, 3)
      x == RDiv(v2, Sq1(e))
  IN  RMul(RMul(RMul(6, RPi), F), RMul(x, RAdd(1, RMul(RDiv(x, 4), RSub(26, RMul(15, RMul(e, e)))))))
(* ---- evolution ---------------------------------------------------------------- *)
\* at constant eccentricity: in closed form
ConstAt(F0, e0, phase0, mc, t) ==
  LET K == RDiv(FDot(F0, mc, e0), Pw(F0, 11, 3))
      F == RPow(RSub(RPow(F0, RDiv(-8, 3)), RMul(RDiv(8, 3), RMul(K, t))), RDiv(-3, 8))
  IN  <<F, RAdd(phase0, RMul(P2, RMul(RDiv(3, RMul(5, K)), RSub(RPow(F0, RDiv(-5, 3)), RPow(F, RDiv(-5, 3))))))>>
\* in general: y = <<F, e, gamma, phase>>, integrated with fourth order Runge-Kutta steps
Deriv(y, mc, q) == <<FDot(y[1], mc, y[2]), EDot(y[1], mc, y[2]), GammaDot(y[1], mc, q, y[2]), RMul(P2, y[1])>>
LOCAL Rk4(y, h, mc, q) ==
  LET a == TLCEval(Deriv(y, mc, q))
      b == TLCEval(Deriv(RAxpy(RDiv(h, 2), a, y), mc, q))
      c == TLCEval(Deriv(RAxpy(RDiv(h, 2), b, y), mc, q))
      d == TLCEval(Deriv(RAxpy(h, c, y), mc, q))
  IN  TLCEval(RAxpy(RDiv(h, 6), RVAdd(RVAdd(a, d), RScale(2, RVAdd(b, c))), y))
Advance(y, dt, steps, mc, q) ==
  LET h == RDiv(dt, steps)
      RECURSIVE G(_, _)
      G(k, x) == IF k = 0 THEN x ELSE G(k - 1, Rk4(x, h, mc, q))
  IN  G(steps, y)
\* states at times ts, the first of which is where y0 holds
Evolve(y0, ts, steps, mc, q) ==
  LET RECURSIVE G(_, _)
      G(k, acc) == IF k > Len(ts) THEN acc ELSE G(k + 1, Append(acc, Advance(acc[k - 1], RSub(ts[k], ts[k - 1]), steps, mc, q)))
  IN  G(2, <<y0>>)
\* conserved along the evolution (Peters): F^(-2/3) / g(e)
Peters(F, e) == RDiv(RPow(F, RDiv(-2, 3)),
                     RMul(RDiv(Pw(e, 12, 19), Sq1(e)), Pw(Poly(RMul(e, e), <<1, RDiv(121, 304)>>), 870, 2299)))
(* ---- harmonics ------------------------------------------------------------------ *)
\* Bessel function of integer order, by its series: arguments here are at most about 20
LOCAL BesPos(n, x) ==
  LET h == RDiv(x, 2)  h2 == RNeg(RMul(h, h))
      RECURSIVE Fact(_), Terms(_, _, _)
      Fact(k) == IF k <= 1 THEN R(1) ELSE RMul(k, Fact(k - 1))
      Terms(k, t, acc) == IF k > 80 \/ RLe(RAbs(t), "1e-45") THEN acc
                          ELSE LET u == RDiv(RMul(t, h2), (k + 1) * (n + k + 1)) IN Terms(k + 1, u, RAdd(acc, u))
      RECURSIVE IPow(_)
      IPow(k) == IF k = 0 THEN R(1) ELSE RMul(h, IPow(k - 1))
  IN  RDiv(RMul(IPow(n), Terms(0, R(1), R(1))), Fact(n))
BesselJ(n, x) == IF n < 0 THEN IF (-n) % 2 = 1 THEN RNeg(BesPos(-n, x)) ELSE BesPos(-n, x) ELSE BesPos(n, x)
LOCAL Z(mc, dl, h0, F) == \* M^(5/3) omega^(2/3) / d, or half the given amplitude
  IF h0 # <<>> THEN RDiv(h0[1], 2)
  ELSE RDiv(RMul(Pw(RMul(mc, TSun), 5, 3), Pw(RMul(P2, F), 2, 3)), RMul(dl, MpcSec))
BracketA(n, e) ==
  LET J(k) == BesselJ(k, RMul(n, e))
  IN  RAdd(RSub(J(n - 2), J(n + 2)), RAdd(RMul(RMul(2, e), RSub(J(n + 1), J(n - 1))), RMul(RDiv(2, n), J(n))))
BracketB(n, e) ==
  LET J(k) == BesselJ(k, RMul(n, e))
  IN  RMul(RSqrt(Sq1(e)), RAdd(RSub(J(n - 2), RMul(2, J(n))), J(n + 2)))
An(n, mc, dl, h0, F, e) == RNeg(RMul(n, RMul(Z(mc, dl, h0, F), BracketA(n, e))))
Bn(n, mc, dl, h0, F, e) == RNeg(RMul(n, RMul(Z(mc, dl, h0, F), BracketB(n, e))))
Cn(n, mc, dl, h0, F, e) == RDiv(RMul(RMul(2, Z(mc, dl, h0, F)), BesselJ(n, RMul(n, e))), RMul(n, RMul(P2, F)))
\* power in the n-th harmonic, relative to a circular binary
PowerIn(n, e) ==
  LET a == BracketA(n, e)  b == BracketB(n, e)  j == BesselJ(n, RMul(n, e))
  IN  RMul(RDiv(n * n * n * n, 32), RAdd(RAdd(RMul(a, a), RMul(b, b)), RMul(RDiv(4, 3 * n * n), RMul(j, j))))
\* integrals over time of cos/sin(n l) cos/sin(2 gamma), for l = l0 + omega t and gamma linear in time
Residual(ns, x, t) ==
  LET om == RMul(P2, x.F)
      l == RAdd(x.l0, RMul(om, t))  g2 == RMul(2, RAdd(x.gamma, RMul(x.gammadot, t)))
      ci == RCos(x.inc)
      one(n) ==
        LET a == An(n, x.mc, x.dl, x.h0, x.F, x.e)  b == Bn(n, x.mc, x.dl, x.h0, x.F, x.e)  c == Cn(n, x.mc, x.dl, x.h0, x.F, x.e)
            up == RAdd(RMul(n, l), g2)  dn == RSub(RMul(n, l), g2)
            wu == RAdd(RMul(n, om), RMul(2, x.gammadot))  wd == RSub(RMul(n, om), RMul(2, x.gammadot))
            ccI == RAdd(RDiv(RSin(dn), RMul(2, wd)), RDiv(RSin(up), RMul(2, wu)))          \* cos nl cos 2g
            ssI == RSub(RDiv(RSin(dn), RMul(2, wd)), RDiv(RSin(up), RMul(2, wu)))          \* sin nl sin 2g
            csI == RSub(RDiv(RCos(dn), RMul(2, wd)), RDiv(RCos(up), RMul(2, wu)))          \* cos nl sin 2g
            scI == RNeg(RAdd(RDiv(RCos(dn), RMul(2, wd)), RDiv(RCos(up), RMul(2, wu))))    \* sin nl cos 2g
        IN  <<RAdd(RMul(RNeg(RAdd(1, RMul(ci, ci))), RSub(RMul(a, ccI), RMul(b, ssI))), RMul(RSub(1, RMul(ci, ci)), RMul(c, RSin(RMul(n, l))))),
              RMul(RMul(2, ci), RAdd(RMul(a, csI), RMul(b, scI)))>>
      hs == TLCEval([k \in 1..Len(ns) |-> one(ns[k])])
  IN  <<RSum(RVec([k \in 1..Len(ns) |-> hs[k][1]])), RSum(RVec([k \in 1..Len(ns) |-> hs[k][2]]))>>
=============================================================================
