------------------------------- MODULE Trace --------------------------------
(* Replays recorded scenarios against the reference semantics.  A state is a  *)
(* position in a scenario plus the defaults set so far; each step judges one  *)
(* observed event.  All scenarios are initial states, so TLC explores them in *)
(* parallel; a complete run has one distinct state per event plus one per     *)
(* scenario.  Broken clauses are printed.                                     *)
EXTENDS Judge, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, c, bad
vars == <<i, l, c, bad>>
Init == i \in 1..Len(Scn) /\ l = 0 /\ c = EmptyRec /\ bad = {}
Ev == Scn[i].ev[l + 1]
\* setting defaults affects the constants of the addressed part of the array
Settable(m, e) == IF e.target = 0 THEN UNION {ConstNames(m, a) : a \in 1..Len(m.arr)} ELSE ConstNames(m, e.target)
Update == IF Ev.op = "setdef"
          THEN LET st == Settable(Scn[i].m, Ev)
                   hit == {n \in DOMAIN Ev.vals : n \in st}
               IN  [n \in DOMAIN c \cup hit |-> IF n \in hit THEN Ev.vals[n] ELSE c[n]]
          ELSE c
Next ==
  /\ l < Len(Scn[i].ev)
  /\ l' = l + 1
  /\ i' = i
  /\ c' = Update
  /\ bad' = JudgeEvent(Scn[i].m, Ev, c)
  /\ bad' = {} \/ PrintT("BAD " \o ToJson([id |-> Scn[i].id, ev |-> l + 1, bad |-> SetToSeq(bad')]))
Spec == Init /\ [][Next]_vars
=============================================================================
