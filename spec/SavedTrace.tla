----------------------------- MODULE SavedTrace ------------------------------
(* Judges recorded histories of real pulsars saved to and loaded from files.  *)
EXTENDS Saved, RealNum, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, s, bad
vars == <<i, l, s, bad>>
Ev == Scn[i].ev[l + 1]
Names(x) == x.names
Same(x, k, o, view) ==
  LET d == x.data[o.psr]
  IN  {"object " \o ToString(k) \o ": " \o f \o " is " \o ToString(IF f \in DOMAIN view THEN view[f] ELSE "missing") \o " instead of " \o ToString(d[f]) :
         f \in {f \in DOMAIN d : f \notin DOMAIN view \/ view[f] # d[f]}}
      \cup (IF view.noise = o.noise \/ (DOMAIN o.noise = {} /\ DOMAIN view.noise = {}) THEN {}
            ELSE {"object " \o ToString(k) \o ": noise parameters " \o ToString(view.noise) \o " instead of " \o ToString(o.noise)})
Judge(x, t, e) ==
  (IF e.err = "" THEN {} ELSE {e.op \o ": " \o e.err})
  \cup (IF Len(e.views) # Len(t.obj) THEN {"no object was loaded"}
        ELSE UNION {Same(x, k, t.obj[k], e.views[k]) : k \in 1..Len(t.obj)})
  \cup (IF e.op # "model" \/ e.err # "" THEN {}
        ELSE LET want == x.lnl[t.obj[e.o].psr]
             IN  {"model on object " \o ToString(e.o) \o ": " \o n \o " is " \o ToString(e.lnl[n]) \o " instead of " \o ToString(want[n]) :
                  n \in {n \in DOMAIN want : n \notin DOMAIN e.lnl \/ e.lnl[n].k # want[n].k
                            \/ (want[n].k = "num" /\ ~RLe(RAbs(RSub(e.lnl[n].v, want[n].v)), RMul("1e-9", RAbs(want[n].v))))}})
Init == i \in 1..Len(Scn) /\ l = 0 /\ bad = {}
        /\ s = [obj |-> [k \in 1..Scn[i].npsr |-> [psr |-> k, noise |-> EmptyRec]], file |-> EmptyRec]
Next ==
  /\ l < Len(Scn[i].ev)
  /\ l' = l + 1 /\ i' = i
  /\ s' = Do(s, Scn[i].names, Ev)
  /\ bad' = Judge(Scn[i], s', Ev)
  /\ bad' = {} \/ PrintT("BAD " \o ToJson([id |-> Scn[i].id, ev |-> l + 1, bad |-> SetToSeq(bad')]))
=============================================================================
