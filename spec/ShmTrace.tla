------------------------------ MODULE ShmTrace -------------------------------
(* Judges recorded histories of real processes sharing pulsars.               *)
EXTENDS Shm, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, s, bad
vars == <<i, l, s, bad>>
Ev == Scn[i].ev[l + 1]
\* obs: err; objs: what the objects of every process show; segs: memory of every deflation, in order
Judge(x, t, e) ==
  (IF e.obs.err = "" THEN {} ELSE {e.op \o ": " \o e.obs.err})
  \cup UNION {LET o == t.obj[q][p]
                  key == ToString(q) \o "," \o ToString(p)
              IN  IF ~Readable(o) \/ ~t.alive[q] THEN {}
                  ELSE IF key \notin DOMAIN e.obs.objs THEN {"process " \o ToString(q) \o " does not have pulsar " \o ToString(p)}
                  ELSE IF e.obs.objs[key] = x.data[p] THEN {}
                  ELSE {"process " \o ToString(q) \o " sees other data for pulsar " \o ToString(p) \o ": " \o ToString(e.obs.objs[key])}
              : q \in DOMAIN t.obj, p \in 1..x.npsr}
  \cup UNION {LET g == e.obs.segs[n]
              IN  IF g.total > 0 /\ g.exist = (IF t.seg[n] = "live" THEN g.total ELSE 0) THEN {}
                  ELSE {"block " \o ToString(n) \o " is " \o t.seg[n] \o ", but " \o ToString(g.exist) \o " of " \o ToString(g.total) \o " arrays are in memory"}
              : n \in 1..Len(t.seg)}
Init == i \in 1..Len(Scn) /\ l = 0 /\ s = Start(Scn[i].nproc, Scn[i].npsr) /\ bad = {}
Next ==
  /\ l < Len(Scn[i].ev)
  /\ l' = l + 1 /\ i' = i
  /\ Assert(Enabled(s, Ev), "not a history of Shm")
  /\ s' = Do(s, Ev)
  /\ bad' = IF Len(Ev.obs.segs) # Len(s'.seg) THEN {"no memory was created"} ELSE Judge(Scn[i], s', Ev)
  /\ bad' = {} \/ PrintT("BAD " \o ToJson([id |-> Scn[i].id, ev |-> l + 1, bad |-> SetToSeq(bad')]))
=============================================================================
