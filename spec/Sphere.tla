------------------------------- MODULE Sphere -------------------------------
(* Real spherical harmonics on pixels, the response of pulsars to a pixelated *)
(* background, and correlations of pulsars for a sky map of power.            *)
(* Directions are [theta, phi]; pixels are directions of propagation.         *)
EXTENDS Ephemeris
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN R(1) ELSE RMul(n, Fact(n - 1))
RECURSIVE PowInt(_, _)
PowInt(x, n) == IF n = 0 THEN R(1) ELSE RMul(x, PowInt(x, n - 1))
RECURSIVE OddFact(_)        \* (2m - 1)!!
OddFact(m) == IF m = 0 THEN R(1) ELSE RMul(2 * m - 1, OddFact(m - 1))
\* associated Legendre function with the Condon-Shortley phase
Legendre(l, m, x) ==
  LET pmm == RMul(RMul(IF m % 2 = 0 THEN 1 ELSE -1, OddFact(m)), IF m = 0 THEN 1 ELSE PowInt(RSqrt(RSub(1, Sq(x))), m))
      RECURSIVE Up(_, _, _)
      Up(k, a, b) == IF k = l THEN b       \* a = P(k-1, m), b = P(k, m)
                     ELSE Up(k + 1, b, RDiv(RSub(RMul(RMul(2 * k + 1, x), b), RMul(k + m, a)), k + 1 - m))
  IN  Up(m, R(0), pmm)
Ylm(l, m, d) ==
  LET am == IF m < 0 THEN -m ELSE m
      nrm == RSqrt(RDiv(RMul(2 * l + 1, Fact(l - am)), RMul(RMul(4, RPi), Fact(l + am))))
      p == RMul(nrm, Legendre(l, am, RCos(d.theta)))
  IN  IF m = 0 THEN p
      ELSE RMul(RMul(RSqrt(2), p), IF m > 0 THEN RCos(RMul(am, d.phi)) ELSE RSin(RMul(am, d.phi)))
LMs(lmax) == Concat([k \in 1..lmax + 1 |-> [j \in 1..2 * k - 1 |-> [l |-> k - 1, m |-> j - k]]])
Dir(d) == LET s == RSin(d.theta) IN RVec(<<RMul(s, RCos(d.phi)), RMul(s, RSin(d.phi)), RCos(d.theta)>>)
\* response of a pulsar to the two polarizations of a wave that propagates along k, with the
\* normalization of Hellings and Downs
Response(p, k, npix) ==
  LET ct == RCos(k.theta)  st == RSin(k.theta)  cp == RCos(k.phi)  sp == RSin(k.phi)
      mp == RSub(RMul(cp, p[2]), RMul(sp, p[1]))
      np == RSub(RMul(st, p[3]), RMul(ct, RAdd(RMul(cp, p[1]), RMul(sp, p[2]))))
      om == RNeg(RAdd(RMul(st, RAdd(RMul(cp, p[1]), RMul(sp, p[2]))), RMul(ct, p[3])))
      c == RSqrt(RDiv("1.5", npix))
  IN  [plus |-> RDiv(RMul(RMul("0.5", c), RSub(Sq(np), Sq(mp))), RSub(1, om)),
       cross |-> RDiv(RMul(c, RMul(mp, np)), RSub(1, om))]
Responses(locs, pix) ==
  LET n == Len(pix)
  IN  TLCEval([a \in 1..Len(locs) |-> LET p == Dir(locs[a]) IN
        LET r == TLCEval([k \in 1..n |-> Response(p, pix[k], n)])
        IN  [plus |-> RVec([k \in 1..n |-> r[k].plus]), cross |-> RVec([k \in 1..n |-> r[k].cross])]])
\* correlations for a map of power; the pulsar term doubles the diagonal
MapOrf(F, h) ==
  TLCEval([a \in 1..Len(F) |-> RVec([b \in 1..Len(F) |->
    LET v == RAdd(RDot(RVMul(F[a].plus, h), F[b].plus), RDot(RVMul(F[a].cross, h), F[b].cross))
    IN  IF a = b THEN RMul(2, v) ELSE v])])
HarmTab(lmax, pix) == LET q == LMs(lmax) IN TLCEval([b \in 1..Len(q) |-> RVec([k \in 1..Len(pix) |-> Ylm(q[b].l, q[b].m, pix[k])])])
MapOf(clm, tab) ==
  LET n == Len(tab[1])
      RECURSIVE S(_)
      S(b) == IF b > Len(clm) THEN Zeros(n) ELSE RAxpy(clm[b], tab[b], S(b + 1))
  IN  S(1)
ClmOf(h, tab) == RVec([b \in 1..Len(tab) |-> RDiv(RMul(RMul(4, RPi), RDot(h, tab[b])), Len(h))])
=============================================================================
