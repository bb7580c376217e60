------------------------------- MODULE FrameGen -----------------------------
(* Rotations of positions, errors of the solar-system ephemeris.  TLC          *)
(* enumerates the questions; on exactly representable vectors it checks what   *)
(* rotations and delays must satisfy.                                          *)
EXTENDS Ephemeris, Json, IOUtils
VARIABLES x, done
vars == <<x, done>>
Sizes == {1, 2, 3, 6}
How == {"zero", "number", "array"}
Masses == {"d_jupiter_mass", "d_saturn_mass", "d_uranus_mass", "d_neptune_mass"}
Elements == {"jup_orb_elements", "sat_orb_elements"}
Names == {"frame_drift_rate"} \cup Masses \cup Elements
Cases ==
  {[kind |-> "frame", f |-> f, n |-> n] : f \in {"ecl2eq", "eq2ecl"}, n \in Sizes}
  \cup {[kind |-> "euler", z |-> z, y |-> y, x |-> a, n |-> n] : z \in How, y \in How, a \in How, n \in {1, 3, 4}}
  \cup {[kind |-> "rotate", z |-> z, y |-> y, x |-> a, rate |-> r, off |-> o, eq |-> q, n |-> n] :
          z \in {"zero", "number"}, y \in {"zero", "number"}, a \in {"zero", "number"}, r \in {"zero", "number"},
          o \in {"none", "list", "array"}, q \in {"out", "true", "false"}, n \in {1, 3, 5}}
  \cup {[kind |-> "delay", given |-> g, eq |-> q, cols |-> c] :
          g \in {g \in SUBSET Names : Cardinality(g) <= 2} \cup {Names, Masses, Elements}, q \in {"out", "true", "false"}, c \in {3, 6}}
  \cup {[kind |-> "design", without |-> g, how |-> h, model |-> m] :
          g \in {g \in SUBSET Names : Cardinality(g) <= 1} \cup {Masses, Elements, Names \ {"d_uranus_mass"}}, h \in {"none", "zero"},
          m \in {"setIII", "orbel", "orbel-v2", "setIII_1980"}}
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ PrintT("SCN " \o ToJson(x))
Spec == Init /\ [][Next]_vars
Near(a, b) == RLe(RAbs(RSub(a, b)), "1e-40")
VNear(a, b) == \A k \in 1..3 : Near(a[k], b[k])
Vs == {RVec(v) : v \in {<<"1", "0", "0">>, <<"0", "0.6", "0.8">>, <<"480.5", "-120", "33">>, <<"-0.28", "0", "0.96">>}}
As == {"0", "0.3", "-2", "1e-9", "3.5"}
\* rotations keep scalar products, undo each other and add up about one axis
Rotations ==
  /\ \A v, w \in Vs : Near(RDot(ToEq(v), ToEq(w)), RDot(v, w)) /\ VNear(ToEcl(ToEq(v)), v) /\ VNear(ToEq(ToEcl(v)), v)
  /\ \A z \in As : \A v, w \in Vs : \A T \in {1, 2, 3} : Near(RDot(Turn(T, z, v), Turn(T, z, w)), RDot(v, w)) /\ VNear(Turn(T, RNeg(z), Turn(T, z, v)), v)
  /\ \A y, z \in As : \A v \in Vs : \A T \in {1, 2, 3} : VNear(Turn(T, y, Turn(T, z, v)), Turn(T, RAdd(y, z), v))
\* the axis stays; a quarter turn is cyclic
Axes == \A T \in {1, 2, 3} : LET e(k) == RVec([j \in 1..3 |-> IF j = k THEN 1 ELSE 0])
                                  q == RDiv(RPi, 2)
                              IN  VNear(Turn(T, "0.7", e(T)), e(T)) /\ VNear(Turn(T, q, e((T % 3) + 1)), e(((T + 1) % 3) + 1))
\* the equinox is common to both frames; the pole of the ecliptic has no right ascension but 18 h
Poles == VNear(ToEq(RVec(<<1, 0, 0>>)), RVec(<<1, 0, 0>>)) /\ LET p == ToEq(RVec(<<0, 0, 1>>)) IN Near(p[1], 0) /\ RLt(p[2], 0) /\ RLt("0.9", p[3])
\* delays: none without errors; those of masses and elements add up
Planets == <<<<"-300", "350.5", "152">>, <<"1200", "-2000", "-900">>, <<"-3000", "-3500", "-1300">>, <<"9000", "2500", "1000">>, <<"14000", "-4000", "-2000">>>>
Orb == [times |-> <<"55000", "55400">>, jup |-> [e \in 1..6 |-> <<<<e, "1", "0">>, <<"2", e, "-1">>>>], sat |-> [e \in 1..6 |-> <<<<"-1", e, "3">>, <<e, "2", "5">>>>]]
Q == <<"0.48", "0.64", "-0.6">>
D(arg, f) == EphDelayIn(RMul(86400, "55100"), Planets, RVec(Q), LAMBDA kw : IF kw \in DOMAIN arg THEN arg[kw] ELSE IF kw \in Elements THEN <<>> ELSE R(0), Orb, f)
V1(kw) == IF kw \in Elements THEN RVec(<<"0.1", "0.2", "0", "-0.3", "0.05", "1">>) ELSE R("0.001")
Delays ==
  /\ \A f \in BOOLEAN : Near(D(EmptyRec, f), 0)
  /\ \A a, b \in Masses \cup Elements : a # b =>
       Near(D([k \in {a, b} |-> V1(k)], TRUE), RAdd(D([k \in {a} |-> V1(k)], TRUE), D([k \in {b} |-> V1(k)], TRUE)))
  /\ \A a \in Masses \cup Elements : Near(D([k \in {a} |-> V1(k)], TRUE), D([k \in {a} |-> V1(k)], FALSE))
ASSUME Rotations /\ Axes /\ Poles /\ Delays
=============================================================================
