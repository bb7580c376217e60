------------------------------ MODULE Ephemeris -----------------------------
(* Deterministic waveforms and the solar-system ephemeris delay.              *)
(* P.planets: per TOA the position vectors of Earth, Jupiter, Saturn, Uranus, *)
(* Neptune; P.post: per TOA the pulsar direction; P.orb: [times, jup, sat],   *)
(* orbital-element perturbations (six elements, per time, three components).  *)
EXTENDS Orfs
Acc3(p, q) == RVAdd(p, q)
Obliquity == RDiv(RMul("23.43704", RPi), 180)
ToEcl(x) == LET c == RCos(Obliquity)  s == RSin(Obliquity)
            IN  RVec(<<x[1], RAdd(RMul(c, x[2]), RMul(s, x[3])), RSub(RMul(c, x[3]), RMul(s, x[2]))>>)
ToEq(x)  == LET c == RCos(Obliquity)  s == RSin(Obliquity)
            IN  RVec(<<x[1], RSub(RMul(c, x[2]), RMul(s, x[3])), RAdd(RMul(s, x[2]), RMul(c, x[3]))>>)
RotZ(z, x) == LET c == RCos(z)  s == RSin(z)
              IN  RVec(<<RSub(RMul(c, x[1]), RMul(s, x[2])), RAdd(RMul(s, x[1]), RMul(c, x[2])), x[3]>>)
\* right-handed rotations about the three axes
Turn(axis, a, x) ==
  LET c == RCos(a)  s == RSin(a)
  IN  CASE axis = 1 -> RVec(<<x[1], RSub(RMul(c, x[2]), RMul(s, x[3])), RAdd(RMul(s, x[2]), RMul(c, x[3]))>>)
        [] axis = 2 -> RVec(<<RAdd(RMul(c, x[1]), RMul(s, x[3])), x[2], RSub(RMul(c, x[3]), RMul(s, x[1]))>>)
        [] axis = 3 -> RotZ(a, x)
Euler(z, y, x, v) == Turn(1, x, Turn(2, y, Turn(3, z, v)))
\* a position turned by ecliptic angles, the first of which grows by dz per year from 2010 on, and moved
DriftAngle(mjd, z, dz) == RAdd(z, RMul(dz, RDiv(RSub(mjd, 55197), "365.25")))
FrameRotate(mjd, v, x, y, z, dz, off, eq) ==
  LET w == RVAdd(off, Euler(DriftAngle(mjd, z, dz), y, x, IF eq THEN ToEcl(v) ELSE v))
  IN  IF eq THEN ToEq(w) ELSE w
\* piecewise linear interpolation of vectors, constant outside
InterpAt(ts, val(_), t) ==
  LET n == Len(ts)
  IN  IF RLe(t, ts[1]) THEN RVec(val(1))
      ELSE IF RLe(ts[n], t) THEN RVec(val(n))
      ELSE LET k == CHOOSE k \in 1..n - 1 : RLe(ts[k], t) /\ RLt(t, ts[k + 1])
               w == RDiv(RSub(t, ts[k]), RSub(ts[k + 1], ts[k]))
           IN  RVAdd(RScale(RSub(1, w), val(k)), RScale(w, val(k + 1)))
SumElem(c, tab, k) ==       \* sum over the six elements of c_e * tab[e][k]
  LET RECURSIVE F(_, _)
      F(e, acc) == IF e > 6 THEN acc ELSE F(e + 1, RAxpy(c[e], tab[e][k], acc))
  IN  F(1, Zeros(3))
JupMass == "0.0009547918983127075"
SatMass == "0.00028588567008942334"
\* delay at time t (s) with planets pl (5 vectors) and direction q
EphDelayIn(t, pl, q, a(_), orb, eq) ==
  LET mjd == RDiv(t, 86400)
      z == RMul(a("frame_drift_rate"), RDiv(RSub(mjd, 55197), "365.25"))
      e0 == RVec(pl[1])
      e1 == IF eq THEN ToEq(RotZ(z, ToEcl(e0))) ELSE RotZ(z, e0)
      ms == RVAdd(RVAdd(RScale(a("d_jupiter_mass"), pl[2]), RScale(a("d_saturn_mass"), pl[3])),
                  RVAdd(RScale(a("d_uranus_mass"), pl[4]), RScale(a("d_neptune_mass"), pl[5])))
      jc == a("jup_orb_elements")  sc == a("sat_orb_elements")
      pj == IF jc = <<>> THEN Zeros(3) ELSE RScale(JupMass, InterpAt(orb.times, LAMBDA k : SumElem(jc, orb.jup, k), mjd))
      ps == IF sc = <<>> THEN Zeros(3) ELSE RScale(SatMass, InterpAt(orb.times, LAMBDA k : SumElem(sc, orb.sat, k), mjd))
      e2 == RVAdd(RVAdd(e1, ms), RVAdd(pj, ps))
  IN  RDot(RVSub(e0, e2), q)
EphDelay(t, pl, q, a(_), orb) == EphDelayIn(t, pl, q, a, orb, TRUE)
EphArg(fs, pre, env, kw) ==
  IF kw \in {"jup_orb_elements", "sat_orb_elements"}
  THEN IF Given(fs, kw) THEN VecOf(Arg(fs, pre, kw, env, <<>>)) ELSE <<>>
  ELSE IF Given(fs, kw) THEN R(Arg(fs, pre, kw, env, 0)) ELSE R(0)
EphAt(P, fs, pre, env, idx) ==
  RVec([k \in 1..Len(idx) |-> EphDelay(P.toas[idx[k]], P.planets[idx[k]], P.post[idx[k]],
                                       LAMBDA kw : EphArg(fs, pre, env, kw), P.orb)])
\* at the mean time of every epoch, all TOAs of the epoch alike
EphEpochs(P, fs, pre, env) ==
  LET n == Len(P.toas)
      ep == Epochs(P.toas, 1, 1)
      mean(e) == RDiv(RSum(RVec(Pick(P.toas, e))), Len(e))
      o == TimeOrder(P.toas)
      ts == RVec([k \in 1..n |-> P.toas[o[k]]])
      at(e) == LET t == mean(e)
               IN  EphDelay(t, [b \in 1..5 |-> InterpAt(ts, LAMBDA k : P.planets[o[k]][b], t)],
                            InterpAt(ts, LAMBDA k : P.post[o[k]], t),
                            LAMBDA kw : EphArg(fs, pre, env, kw), P.orb)
      v == RVec([k \in 1..Len(ep) |-> at(ep[k])])
  IN  RVec([i \in 1..n |-> v[CHOOSE k \in 1..Len(ep) : i \in RangeOf(ep[k])]])
EphSignal(P, sg, env) ==
  LET pre == JoinNE(<<P.name, sg.name>>)
  IN  IF sg.epochs THEN EphEpochs(P, sg.wf, pre, env)
      ELSE EphAt(P, sg.wf, pre, env, [i \in 1..Len(P.toas) |-> i])

(* ---- linearized ephemeris process: gradient of the delay, label = prior sigma *)
EphNames == <<"frame_drift_rate", "d_jupiter_mass", "d_saturn_mass", "d_uranus_mass", "d_neptune_mass",
              "jup_orb_elements", "sat_orb_elements">>
EphGrad(P, name, el, i) ==
  LET q == P.post[i]  pl == P.planets[i]
      mjd == RDiv(P.toas[i], 86400)
      h(k) == IF k = el THEN 1 ELSE 0
      unit == [k \in 1..6 |-> h(k)]
  IN  CASE name = "frame_drift_rate" ->
             LET x == ToEcl(pl[1])
                 dx == RVec(<<RNeg(x[2]), x[1], 0>>)
             IN  RNeg(RMul(RDiv(RSub(mjd, 55197), "365.25"), RDot(ToEq(dx), q)))
        [] name = "d_jupiter_mass" -> RNeg(RDot(pl[2], q))
        [] name = "d_saturn_mass"  -> RNeg(RDot(pl[3], q))
        [] name = "d_uranus_mass"  -> RNeg(RDot(pl[4], q))
        [] name = "d_neptune_mass" -> RNeg(RDot(pl[5], q))
        [] name = "jup_orb_elements" ->
             RNeg(RMul(JupMass, RDot(InterpAt(P.orb.times, LAMBDA k : SumElem(unit, P.orb.jup, k), mjd), q)))
        [] name = "sat_orb_elements" ->
             RNeg(RMul(SatMass, RDot(InterpAt(P.orb.times, LAMBDA k : SumElem(unit, P.orb.sat, k), mjd), q)))
EphBasis(P, fs) ==         \* fs.sig: name -> sigma, absent when excluded
  LET used == SelectSeq(EphNames, LAMBDA n : n \in DOMAIN fs.sig)
      els(n) == IF n \in {"jup_orb_elements", "sat_orb_elements"} THEN 6 ELSE 1
      flat == Concat([k \in 1..Len(used) |-> [e \in 1..els(used[k]) |-> <<used[k], e>>]])
  IN  [cols |-> TLCEval([c \in 1..Len(flat) |-> RVec([i \in 1..Len(P.toas) |-> EphGrad(P, flat[c][1], flat[c][2], i)])]),
       labels |-> RVec([c \in 1..Len(flat) |-> fs.sig[flat[c][1]]])]

(* ---- gravitational-wave burst with memory ------------------------------------ *)
\* antenna patterns for pulsar direction p and source (theta, phi) given by cos, sin of theta
Antenna(p, ct, st, ph) ==
  LET cp == RCos(ph)  sp == RSin(ph)
      mp == RSub(RMul(sp, p[1]), RMul(cp, p[2]))
      np == RSub(RMul(st, p[3]), RMul(ct, RAdd(RMul(cp, p[1]), RMul(sp, p[2]))))
      om == RNeg(RAdd(RMul(st, RAdd(RMul(cp, p[1]), RMul(sp, p[2]))), RMul(ct, p[3])))
  IN  [plus |-> RDiv(RMul("0.5", RSub(Sq(mp), Sq(np))), RAdd(1, om)),
       cross |-> RDiv(RMul(mp, np), RAdd(1, om)), cosmu |-> RNeg(om)]
\* a pattern of the user's own, used in conformance runs
Pattern(p, ct, st, ph) ==
  [plus |-> RAdd(RMul(p[1], ct), RMul("0.1", ph)), cross |-> RSub(RMul(p[2], st), RMul("0.2", p[3]))]
BwmDelay(P, fs, pre, env, idx, Ant(_, _, _, _)) ==
  LET a(kw, d) == Arg(fs, pre, kw, env, d)
      ct == R(a("cos_gwtheta", 0))
      st == RSqrt(RSub(1, Sq(ct)))
      an == Ant(P.pos, ct, st, R(a("gwphi", 0)))
      g2 == RMul(2, a("gwpol", 0))
      amp == RMul(RPow10(a("log10_h", -14)), RAdd(RMul(RCos(g2), an.plus), RMul(RSin(g2), an.cross)))
      t0 == RMul(86400, a("t0", 55000))
  IN  RVec([k \in 1..Len(idx) |-> LET t == P.toas[idx[k]]
                                  IN  IF RLt(t0, t) THEN RMul(amp, RSub(t, t0)) ELSE R(0)])
Waveform(P, fs, pre, env, idx) ==
  LET a(kw, d) == Arg(fs, pre, kw, env, d)
  IN
  CASE fs.f = "bwm"  -> BwmDelay(P, fs, pre, env, idx, Antenna)
    [] fs.f = "bwmfn" -> BwmDelay(P, fs, pre, env, idx, Pattern)
    [] fs.f = "ramp" -> \* a + b (t - t0) / year
         RVec([k \in 1..Len(idx) |-> RAdd(a("a", 0), RMul(a("b", 0), RDiv(RSub(P.toas[idx[k]], RMul(86400, a("t0", 53000))), "31557600")))])
    [] fs.f = "drift" ->  \* a (t - first of the group) / year
         LET tm == TMin([k \in 1..Len(idx) |-> P.toas[idx[k]]])
         IN  RVec([k \in 1..Len(idx) |-> RMul(a("a", 0), RDiv(RSub(P.toas[idx[k]], tm), "31557600"))])
    [] fs.f = "taylor" -> \* sum of a[k] ((t - t0) / year)^(k - 1)
         LET c == VecOf(a("a", 0))
         IN  RVec([k \in 1..Len(idx) |->
               LET y == RDiv(RSub(P.toas[idx[k]], RMul(86400, a("t0", 53000))), "31557600")
                   RECURSIVE F(_)
                   F(j) == IF j > Len(c) THEN R(0) ELSE RAdd(c[j], RMul(y, F(j + 1)))
               IN  F(1)])
    [] fs.f = "disp" -> \* a (1400 / freq)^2
         RVec([k \in 1..Len(idx) |-> RMul(a("a", 0), Sq(RDiv(1400, P.freqs[idx[k]])))])
    [] fs.f = "eph"  -> EphAt(P, fs, pre, env, idx)
=============================================================================
