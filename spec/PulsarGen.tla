----------------------------- MODULE PulsarGen -------------------------------
(* Histories of a pulsar's data: a table, TOA by TOA, then operations.  The    *)
(* arrays as kept must always show what the table says.                        *)
EXTENDS PulsarData, Json, IOUtils, Randomization
Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]
VARIABLES tab, sort, s, c, ops, done
vars == <<tab, sort, s, c, ops, done>>
FlagSets == IF Has(Prof, "noflag") THEN {EmptyRec} ELSE IF Prof.full
            THEN {[f |-> "A"], [f |-> "B2", fe |-> "R1", be |-> "ASP"], [fe |-> "R1", be |-> "LONGNAME_WITH_MORE_THAN_32_CHARACTERS"], [fe |-> "R1"], [g |-> "gg", f |-> "A"],
                  [group |-> "G1", i |-> "ii", sys |-> "ss"], [i |-> "ii", f |-> "B2"], [sys |-> "ss", i |-> "ii", g |-> ""], [pta |-> "X"]}
            ELSE {[f |-> "A"], [fe |-> "R1", be |-> "ASP"]}
\* a column that is 1 everywhere, two that are not zero on some TOAs only
Nz(t) == IF Prof.full THEN <<TRUE, t < 3, t > 2, t # 2>> ELSE <<TRUE, t < 2, t > 1>>
Times == 1..(IF Prof.full THEN 6 ELSE 3)
Choice == [t : Times, f : FlagSets]
Init == tab = <<>> /\ sort \in BOOLEAN /\ s = [rows |-> <<>>] /\ c = s /\ ops = <<>> /\ done = "adding"
Adding == done = "adding"
Add == /\ Adding /\ Len(tab) < Prof.ntoa
       /\ \E x \in (IF Prof.full THEN RandomSubset(3, Choice) ELSE Choice) : tab' = Append(tab, [t |-> x.t, f |-> x.f, nz |-> Nz(x.t)])
       /\ UNCHANGED <<sort, s, c, ops, done>>
Start == /\ Adding /\ Len(tab) >= (IF Prof.full THEN 2 ELSE 1) /\ (Prof.full => Len(tab) = Prof.ntoa)
         /\ s' = New(tab) /\ c' = Raw(tab, sort) /\ done' = "live" /\ UNCHANGED <<tab, sort, ops>>
\* values are labelled by operation and position
Val(k) == ToString(Len(ops)) \o "v" \o ToString(k)
Sets == {[op |-> "set", name |-> n, vals |-> [k \in 1..Len(s.rows) |-> IF n = "g" /\ k % 2 = 0 THEN "" ELSE Val(k)]] : n \in {"g", "new"}}
Cuts == {[op |-> "filter", lo |-> a] : a \in Times} \cup {[op |-> "filter", hi |-> b] : b \in Times} \cup {[op |-> "filter"]}
        \cup {[op |-> "filter", lo |-> a, hi |-> b] : <<a, b>> \in Times \X Times}
Ops == Sets \cup Cuts \cup {[op |-> "sort"]}
Step == /\ done = "live" /\ Len(ops) < Prof.nop
        /\ \E op \in (IF Prof.full THEN RandomSubset(2, Sets) \cup RandomSubset(2, Cuts) \cup {[op |-> "sort"]} ELSE Ops) :
             /\ (Prof.full /\ op.op = "filter" => \E k \in 1..Len(s.rows) : Inside(op, tab[s.rows[k]].t))
             /\ ops' = Append(ops, op) /\ s' = Do(s, sort, tab, op) /\ c' = RawDo(c, sort, tab, op)
        /\ UNCHANGED <<tab, sort, done>>
Finish == /\ done = "live" /\ Len(ops) = Prof.nop /\ Prof.print /\ done' = "printed"
          /\ PrintT("SCN " \o ToJson([tab |-> tab, sort |-> sort, ops |-> ops])) /\ UNCHANGED <<tab, sort, s, c, ops>>
Next == Add \/ Start \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Live == done # "adding"
Refines == Live => RawView(c) = View(s, sort, tab)
Sorted == Live /\ sort => \A k \in 1..(Len(s.rows) - 1) : RawView(c).t[k] <= RawView(c).t[k + 1]
Inverses == Live => \A k \in 1..Len(c.isort) : c.isort[c.iisort[k]] = k /\ c.iisort[c.isort[k]] = k
\* what was set last is what is shown
AsGiven == Live /\ ops # <<>> /\ ops[Len(ops)].op = "set" => RawView(c).flags[ops[Len(ops)].name] = ops[Len(ops)].vals
=============================================================================
