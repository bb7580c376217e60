-------------------------------- MODULE Shm ----------------------------------
(* Life of pulsars whose arrays are kept in shared memory.  Processes hold     *)
(* objects; a deflation creates a block that every copy of the deflated object *)
(* refers to, and only an explicit destruction removes it.  Next to what must  *)
(* happen, the state follows how the code does it: every process has a         *)
(* resource tracker that removes the blocks still registered when the process  *)
(* ends.                                                                       *)
EXTENDS Util, Integers
None == [st |-> "none", seg |-> 0]
\* st: none, pristine, deflated, inflated, own (a pickled copy of an inflated object), destroyed
Start(nproc, npsr) ==
  [obj |-> [q \in 1..nproc |-> [p \in 1..npsr |-> IF q = 1 THEN [st |-> "pristine", seg |-> 0] ELSE None]],
   file |-> [p \in 1..npsr |-> None], alive |-> [q \in 1..nproc |-> q = 1],
   seg |-> <<>>,                          \* blocks: "live" or "gone"
   own |-> <<>>,                          \* whose data they hold
   shm |-> {}, reg |-> [q \in 1..nproc |-> {}]]
Readable(o) == o.st \in {"pristine", "inflated", "own"}
Enabled(s, a) ==
  CASE a.op = "start"   -> ~s.alive[a.q]
    [] a.op = "exit"    -> s.alive[a.q]
    [] a.op = "load"    -> s.alive[a.q] /\ s.obj[a.q][a.p] = None /\ s.file[a.p] # None
    [] a.op = "destroy" -> IF s.alive[a.q] /\ s.obj[a.q][a.p].st = "deflated" THEN s.seg[s.obj[a.q][a.p].seg] = "live" ELSE FALSE
    [] a.op = "inflate" -> s.alive[a.q] /\ s.obj[a.q][a.p] # None
                           /\ (IF s.obj[a.q][a.p].st = "deflated" THEN s.seg[s.obj[a.q][a.p].seg] = "live" ELSE TRUE)
    [] OTHER            -> s.alive[a.q] /\ s.obj[a.q][a.p] # None
Set(s, a, o) == [s EXCEPT !.obj[a.q][a.p] = o]
Do(s, a) ==
  LET o == IF Has(a, "p") THEN s.obj[a.q][a.p] ELSE None
  IN  CASE a.op = "start" -> [s EXCEPT !.alive[a.q] = TRUE]
        [] a.op = "exit" -> [s EXCEPT !.alive[a.q] = FALSE, !.obj[a.q] = [p \in DOMAIN @ |-> None],
                                      !.shm = @ \ s.reg[a.q], !.reg[a.q] = {}]
        [] a.op = "drop" -> Set(s, a, None)
        [] a.op = "load" -> Set(s, a, s.file[a.p])
        [] a.op = "dump" -> [s EXCEPT !.file[a.p] = IF o.st = "inflated" THEN [st |-> "own", seg |-> 0] ELSE o]
        [] a.op = "deflate" ->
             IF o.st # "pristine" THEN s
             ELSE LET n == Len(s.seg) + 1
                  IN  [Set(s, a, [st |-> "deflated", seg |-> n]) EXCEPT
                         !.seg = Append(@, "live"), !.own = Append(@, a.p), !.shm = @ \cup {n},
                         !.reg[a.q] = (@ \cup {n}) \ {n}]          \* created, then taken off the tracker
        [] a.op = "inflate" ->
             IF o.st # "deflated" THEN s
             ELSE [Set(s, a, [st |-> "inflated", seg |-> o.seg]) EXCEPT !.reg[a.q] = (@ \cup {o.seg}) \ {o.seg}]
        [] a.op = "destroy" -> [Set(s, a, [st |-> "destroyed", seg |-> o.seg]) EXCEPT !.seg[o.seg] = "gone", !.shm = @ \ {o.seg}]
\* the memory is there from deflation to destruction, whoever comes and goes
Lives(s) == s.shm = {n \in 1..Len(s.seg) : s.seg[n] = "live"}
\* objects refer to blocks of their own pulsar
Own(s) == \A q \in DOMAIN s.obj : \A p \in DOMAIN s.obj[q] : s.obj[q][p].seg # 0 => s.own[s.obj[q][p].seg] = p
=============================================================================
