-------------------------------- MODULE Util --------------------------------
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Text

Has(rec, f) == f \in DOMAIN rec
Get(rec, f, default) == IF f \in DOMAIN rec THEN rec[f] ELSE default
RangeOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE JoinNE(_)                    \* join the non-empty strings with "_"
JoinNE(ss) ==
  IF ss = <<>> THEN ""
  ELSE LET h == Head(ss)  t == JoinNE(Tail(ss))
       IN  IF h = "" THEN t ELSE IF t = "" THEN h ELSE h \o "_" \o t
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
\* the strings of a set, in code-point order
SortStrings(S) == SetToSortSeq(S, StrLess)
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Where(mask) == SelectSeq([i \in 1..Len(mask) |-> i], LAMBDA i : mask[i])
Pick(v, idx) == [k \in 1..Len(idx) |-> v[idx[k]]]
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
MergeEnv(a, b) == [x \in DOMAIN a \cup DOMAIN b |-> IF x \in DOMAIN b THEN b[x] ELSE a[x]]
EmptyRec == [x \in {} |-> 0]
=============================================================================
