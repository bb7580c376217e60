------------------------------ MODULE LoadTrace ------------------------------
(* Judges recorded loads: obs has the readers called, whether the load failed, *)
(* the working directory before and after, and what the package was given.     *)
EXTENDS Loading, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, bad
vars == <<i, l, bad>>
Ev == Scn[i].ev[l + 1]
Judge(x, o) ==
  LET want == Reader(x)
  IN  (IF o.home = o.after THEN {} ELSE {"the working directory was " \o o.home \o " and is " \o o.after \o " after " \o o.out})
      \cup (IF Fails(x) = (o.out # "pulsar") THEN {} ELSE {"loading gave " \o o.out \o " instead of " \o (IF Fails(x) THEN "an exception" ELSE "a pulsar by " \o want)})
      \cup (IF want = "rejected" /\ o.called # <<>> THEN {"called " \o ToString(o.called)} ELSE {})
      \cup (IF want # "rejected" /\ ~Fails(x) /\ o.called # <<want>> THEN {"called " \o ToString(o.called) \o " instead of " \o want} ELSE {})
      \cup UNION {LET c == o.calls[k] IN
             (IF c.par = x.par THEN {} ELSE {"par file " \o c.par \o " instead of " \o x.par})
             \cup (IF c.tim = x.tim THEN {} ELSE {"tim file " \o c.tim \o " instead of " \o x.tim})
             \cup (IF c.cwd = x.timdir THEN {} ELSE {"read in " \o c.cwd})
             \cup (IF c.kw = x.kw[want] THEN {} ELSE {"arguments " \o ToString(c.kw) \o " instead of " \o ToString(x.kw[want])})
             \cup (IF Has(c, "maxobs") THEN IF c.maxobs >= Observations(x.tree, "main") THEN {}
                       ELSE {"at most " \o ToString(c.maxobs) \o " observations of " \o ToString(Observations(x.tree, "main"))} ELSE {})
             : k \in 1..Len(o.calls)}
      \cup (IF Has(o, "texts") /\ o.texts # x.texts THEN {"par and tim texts kept: " \o ToString(o.texts)} ELSE {})
Init == i \in 1..Len(Scn) /\ l = 0 /\ bad = {}
Next ==
  /\ l < Len(Scn[i].ev)
  /\ l' = l + 1 /\ i' = i
  /\ bad' = Judge(Scn[i], Ev.obs)
  /\ bad' = {} \/ PrintT("BAD " \o ToJson([id |-> Scn[i].id, ev |-> l + 1, bad |-> SetToSeq(bad')]))
=============================================================================
