------------------------------- MODULE GeoGen -------------------------------
(* Geometries: pairs of directions, a source and a pulsar, pixelated skies.   *)
(* TLC enumerates them; on exactly representable directions it checks what    *)
(* the reference functions must satisfy.                                      *)
EXTENDS Sphere, Json, IOUtils
VARIABLES x, done
vars == <<x, done>>
Places == {"generic", "axis", "pole", "southpole", "equator"}
Rel == {"same", "opposite", "orthogonal", "generic", "near2", "near4", "near6", "near8", "near10", "nearopposite"}
Cases ==
  {[kind |-> "orf", f |-> f, place |-> p, rel |-> r] : f \in {"hd", "dipole", "monopole"}, p \in Places, r \in Rel}
  \cup {[kind |-> "antenna", place |-> p, rel |-> r] : p \in Places, r \in Rel \ {"same", "near6", "near8", "near10"}}
  \cup {[kind |-> "anis", lmax |-> l, given |-> g, place |-> p, rel |-> r] : l \in 0..3, g \in {"array", "list"}, p \in {"generic", "pole"}, r \in {"same", "generic", "opposite"}}
  \cup {[kind |-> "sphere", lmax |-> l, nside |-> n, psr |-> k] : l \in 0..3, n \in {1, 2, 4}, k \in 1..3}
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ PrintT("SCN " \o ToJson(x))
Spec == Init /\ [][Next]_vars
(* exact unit vectors *)
D == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<0, 0, -1>>, <<"0.6", "0.8", 0>>, <<"0.6", 0, "-0.8">>, <<0, "-0.28", "0.96">>, <<"0.48", "0.64", "-0.6">>,
       <<-1, 0, 0>>, <<"-0.6", "-0.8", 0>>>>
Env == [par |-> EmptyRec, c |-> EmptyRec]
O(f, i, j) == OrfFn([f |-> f, kw |-> EmptyRec], "", Env, RVec(D[i]), RVec(D[j]))
Near(a, b) == RLe(RAbs(RSub(a, b)), "1e-40")
Opp(i, j) == \A a \in 1..3 : REq(D[i][a], RNeg(D[j][a]))
N == 1..Len(D)
Correlations ==
  \A i, j \in N :
    /\ \A f \in {"hd", "dipole", "monopole"} : REq(O(f, i, j), O(f, j, i))
    /\ (i = j) => (REq(O("hd", i, j), 1) /\ RLe(1, O("dipole", i, j)) /\ RLe(1, O("monopole", i, j)))
    /\ (i # j) => (RLt("-0.16", O("hd", i, j)) /\ RLt(O("hd", i, j), "0.5"))
    /\ Opp(i, j) => (Near(O("hd", i, j), "0.25") /\ REq(O("dipole", i, j), -1))
\* sources at exactly representable angles: cos, sin of theta; phi is 0
A2 == <<<<"0.6", "0.8">>, <<"-0.28", "0.96">>, <<0, 1>>, <<1, 0>>>>
Patterns ==
  \A i \in N : \A t \in 1..4 :
    LET a == Antenna(RVec(D[i]), R(A2[t][1]), R(A2[t][2]), R(0))
    IN  REq(a.cosmu, 1) \/ Near(RAdd(Sq(a.plus), Sq(a.cross)), Sq(RDiv(RAdd(1, a.cosmu), 2)))
\* addition theorem
Harmonics ==
  \A d \in {[theta |-> "0.3", phi |-> "1.1"], [theta |-> "1.5", phi |-> "4"], [theta |-> "3", phi |-> "0"], [theta |-> "0", phi |-> "2"]} :
    \A l \in 0..4 : Near(RSum(RVec([k \in 1..2 * l + 1 |-> Sq(Ylm(l, k - l - 1, d))])), RDiv(2 * l + 1, RMul(4, RPi)))
ASSUME Correlations /\ Patterns /\ Harmonics
=============================================================================
