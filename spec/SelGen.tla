------------------------------- MODULE SelGen -------------------------------
(* Small pulsars, TOA by TOA, in any order and with ties, for selections.     *)
EXTENDS Selections, Json, IOUtils, Randomization
Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]
VARIABLES P, done
vars == <<P, done>>
Toa == IF Prof.full
       THEN [t : 1..6, bf : {"A", "GASP", "Rcvr_PUPPI", "ASP", "S_ZUPPI", "VEGAS"}, B : {"10CM", "20CM", ""}, fe : {"R1", "R10"},
             tel : {"GBT", "AO"}, f : {400, 999, 1000, 1500, 2000, 3000, 9999, 10000}]
       ELSE {[t |-> 1, bf |-> "A", B |-> "10CM", fe |-> "R1", tel |-> "GBT", f |-> 1000],
             [t |-> 2, bf |-> "A", B |-> "20CM", fe |-> "R10", tel |-> "GBT", f |-> 999],
             [t |-> 2, bf |-> "GASP", B |-> "20CM", fe |-> "R1", tel |-> "AO", f |-> 3000],
             [t |-> 3, bf |-> "GASP", B |-> "10CM", fe |-> "R10", tel |-> "GBT", f |-> 2000],
             [t |-> 3, bf |-> "S_PUPPI", B |-> "10CM", fe |-> "R1", tel |-> "AO", f |-> 1999],
             [t |-> 5, bf |-> "S_PUPPI", B |-> "20CM", fe |-> "R1", tel |-> "GBT", f |-> 10000],
             [t |-> 4, bf |-> "ASP", B |-> "", fe |-> "R10", tel |-> "AO", f |-> 400]}
Init == P = <<>> /\ done = FALSE
Add == ~done /\ Len(P) < Prof.n /\ \E x \in (IF Prof.full THEN RandomSubset(3, Toa) ELSE Toa) : P' = Append(P, x) /\ done' = FALSE
Finish == ~done /\ (IF Prof.full THEN Len(P) = Prof.n ELSE Len(P) > 1) /\ done' = TRUE /\ P' = P /\ PrintT("SCN " \o ToJson(P))
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
Col(k) == [i \in 1..Len(P) |-> P[i][k]]
Psr == [toas |-> Col("t"), freqs |-> Col("f"), bf |-> Col("bf"), tel |-> Col("tel"), flags |-> [k \in {"B", "fe"} |-> Col(k)]]
Sels == {[s |-> k] : k \in {"none", "backend", "nanograv", "customall", "telescope", "band", "frontend", "half", "freq"}}
\* every TOA in exactly one group, or at most in one
Groups(s, i) == Cardinality({k \in 1..Len(Masks(s, Psr)) : Masks(s, Psr)[k][2][i]})
Partition == Len(P) > 0 => \A s \in Sels, i \in 1..Len(P) : IF s.s \in {"nanograv", "freq"} THEN Groups(s, i) <= 1 ELSE Groups(s, i) = 1
\* no group is empty, except halves
NonEmpty == Len(P) > 0 => \A s \in Sels \ {[s |-> "half"]} : \A k \in 1..Len(Masks(s, Psr)) : \E i \in 1..Len(P) : Masks(s, Psr)[k][2][i]
\* what a group contains does not depend on the order of the TOAs
Swap == Len(P) > 1 =>
  LET Q == [Psr EXCEPT !.toas = Reverse(@), !.freqs = Reverse(@), !.bf = Reverse(@), !.tel = Reverse(@),
                       !.flags = [k \in {"B", "fe"} |-> Reverse(@[k])]]
  IN  \A s \in Sels : MaskMap(s, Q) = [k \in DOMAIN MaskMap(s, Psr) |-> Reverse(MaskMap(s, Psr)[k])]
=============================================================================
