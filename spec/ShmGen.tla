------------------------------- MODULE ShmGen --------------------------------
EXTENDS Shm, Json, IOUtils
Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]
VARIABLES s, h, fin
vars == <<s, h, fin>>
Init == s = Start(Prof.nproc, Prof.npsr) /\ h = <<>> /\ fin = FALSE
Acts == [op : {"start", "exit"}, q : 1..Prof.nproc]
        \cup [op : {"drop", "load", "dump", "deflate", "inflate", "destroy"}, q : 1..Prof.nproc, p : 1..Prof.npsr]
Useful(a) == /\ Enabled(s, a)
             /\ (IF a.op = "start" THEN \A q \in 1..(a.q - 1) : s.alive[q] ELSE TRUE)
             /\ (IF a.op = "deflate" THEN Len(s.seg) < Prof.nseg ELSE TRUE)
             /\ (IF a.op = "dump" THEN s.obj[a.q][a.p].st # "destroyed" ELSE TRUE)
             /\ (IF Prof.full /\ h # <<>> THEN h[Len(h)] # a ELSE TRUE)
Step == ~fin /\ Len(h) < Prof.nop /\ \E a \in Acts : Useful(a) /\ s' = Do(s, a) /\ h' = (IF Prof.full THEN Append(h, a) ELSE <<>>) /\ fin' = FALSE
Finish == /\ Prof.full /\ ~fin /\ Len(h) = Prof.nop /\ fin' = TRUE /\ UNCHANGED <<s, h>>
          /\ PrintT("SCN " \o ToJson([ops |-> h, nproc |-> Prof.nproc, npsr |-> Prof.npsr]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Memory == Lives(s)
Refer == Own(s)
\* destruction is the only step that removes memory, and removes one block
OnlyDestroyed == [][s.shm \ s'.shm # {} => \E n \in 1..Len(s.seg) : s.seg[n] = "live" /\ s'.seg[n] = "gone" /\ s.shm \ s'.shm = {n}]_vars
=============================================================================
