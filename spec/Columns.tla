------------------------------ MODULE Columns -------------------------------
(* Combined bases.  Signals are placed one after another; each of their       *)
(* columns is new or shares the combined column of an equal one of an earlier *)
(* signal.  Any layout allowed here represents the sum of the covariances of  *)
(* the signals at every value of the basis parameter c (which scales the      *)
(* columns of varying signals); layouts that share columns within a signal or *)
(* with a varying one do not.  Numbers are small integers.                    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils, Randomization
Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]
Alphabet == << <<1, 0, 0>>, <<0, 1, 1>>, <<1, 2, 0>> >>
Sigs == {[cols |-> c, comb |-> b, var |-> v, dense |-> d] :
           c \in UNION {[1..n -> 1..3] : n \in 1..Prof.ncol}, b \in BOOLEAN, v \in BOOLEAN, d \in BOOLEAN}
VARIABLES sigs, idx, nT, done
vars == <<sigs, idx, nT, done>>
Init == sigs = <<>> /\ idx = <<>> /\ nT = 0 /\ done = FALSE
\* who owns combined column t: the first signal that uses it
Users(id, t) == {k \in 1..Len(id) : \E x \in 1..Len(id[k]) : id[k][x] = t}
ColAt(sg, id, t) == LET k == CHOOSE k \in Users(id, t) : TRUE
                        x == CHOOSE x \in 1..Len(id[k]) : id[k][x] = t
                    IN  sg[k].cols[x]
MayShare(sg, id, s, t, x) ==
  /\ ~s.var
  /\ \A k \in Users(id, t) : ~sg[k].var
  /\ ColAt(sg, id, t) = s.cols[x]
  /\ s.comb \/ \E k \in Users(id, t) : sg[k].comb
\* all layouts of the columns of s: sequences of combined columns, none used twice
RECURSIVE Layouts(_, _, _, _, _, _)
Layouts(sg, id, n, s, x, acc) ==
  IF x > Len(s.cols) THEN {[m |-> acc, n |-> n]}
  ELSE Layouts(sg, id, n + 1, s, x + 1, Append(acc, n + 1))
       \cup UNION {Layouts(sg, id, n, s, x + 1, Append(acc, t)) :
                     t \in {t \in 1..nT : MayShare(sg, id, s, t, x) /\ \A y \in 1..Len(acc) : acc[y] # t}}
Place == /\ ~done /\ Len(sigs) < Prof.nsig
         /\ \E s \in (IF Prof.full THEN RandomSubset(4, Sigs) ELSE Sigs) : (Len(s.cols) = 1 => ~s.dense) /\ \E l \in Layouts(sigs, idx, nT, s, 1, <<>>) :
              sigs' = Append(sigs, s) /\ idx' = Append(idx, l.m) /\ nT' = l.n
         /\ UNCHANGED done
Finish == /\ ~done /\ Len(sigs) = Prof.nsig /\ done' = TRUE /\ UNCHANGED <<sigs, idx, nT>>
          /\ (IF Prof.print /\ nT = Cardinality({<<k, x>> \in (1..Prof.nsig) \X (1..Prof.ncol) : x <= Len(sigs[k].cols)})
              THEN PrintT("SCN " \o ToJson(sigs)) ELSE TRUE)
Next == Place \/ Finish
Spec == Init /\ [][Next]_vars

(* ---- what the layouts mean ------------------------------------------------ *)
\* prior of signal k: distinct small integers, off the diagonal only if dense
Phi(k, x, y) == IF x = y THEN 3 * k + x ELSE IF sigs[k].dense THEN 1 ELSE 0
F(k, x, c, i) == Alphabet[sigs[k].cols[x]][i] * (IF sigs[k].var THEN c ELSE 1)
SumOver(S, f(_)) == MapThenSumSet(f, S)
Own(c, i, j) == SumOver({<<k, x, y>> \in (1..Len(sigs)) \X (1..Prof.ncol) \X (1..Prof.ncol) :
                          x <= Len(sigs[k].cols) /\ y <= Len(sigs[k].cols)},
                       LAMBDA e : F(e[1], e[2], c, i) * Phi(e[1], e[2], e[3]) * F(e[1], e[3], c, j))
\* combined: the last signal writes a column; entries of the prior add up once per pair of combined columns
T(id, c, i, t) == LET k == CHOOSE k \in Users(id, t) : \A l \in Users(id, t) : l <= k
                      x == CHOOSE x \in 1..Len(id[k]) : id[k][x] = t /\ \A y \in 1..Len(id[k]) : id[k][y] = t => y <= x
                  IN  F(k, x, c, i)
CPhi(id, t, u) == SumOver({k \in 1..Len(sigs) : k \in Users(id, t) \cap Users(id, u)},
                         LAMBDA k : LET last(v) == CHOOSE x \in 1..Len(id[k]) : id[k][x] = v /\ \A y \in 1..Len(id[k]) : id[k][y] = v => y <= x
                                    IN  Phi(k, last(t), last(u)))
Combined(id, n, c, i, j) == SumOver((1..n) \X (1..n), LAMBDA e : T(id, c, i, e[1]) * CPhi(id, e[1], e[2]) * T(id, c, j, e[2]))
Same == (done /\ (~Prof.full \/ nT < 8)) => \A c \in {3}, i \in 1..3, j \in 1..3 : i <= j => Combined(idx, nT, c, i, j) = Own(c, i, j)
\* every signal's columns are there
Present == done => \A k \in 1..Len(sigs) : \A x \in 1..Len(sigs[k].cols), c \in {1, 3}, i \in 1..3 : T(idx, c, i, idx[k][x]) = F(k, x, c, i)
\* the restrictions are needed: repeated columns of one signal, or a varying one, cannot be merged
Merge(t, u) == [k \in 1..Len(idx) |-> [x \in 1..Len(idx[k]) |-> IF idx[k][x] = u THEN t ELSE idx[k][x]]]
Without(u) == (1..nT) \ {u}
CombinedM(id, u, c, i, j) == SumOver(Without(u) \X Without(u), LAMBDA e : T(id, c, i, e[1]) * CPhi(id, e[1], e[2]) * T(id, c, j, e[2]))
Clash(t, u) == \/ Users(idx, t) \cap Users(idx, u) # {}
               \/ (\E k \in Users(idx, t) : sigs[k].var) # (\E k \in Users(idx, u) : sigs[k].var)
Needed == (done /\ ~Prof.full) => \A t \in 1..nT, u \in 1..nT :
  (t < u /\ ColAt(sigs, idx, t) = ColAt(sigs, idx, u) /\ Clash(t, u))
  => \E c \in {3}, i \in 1..3, j \in 1..3 : CombinedM(Merge(t, u), u, c, i, j) # Own(c, i, j)
=============================================================================
