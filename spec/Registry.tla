------------------------------ MODULE Registry -------------------------------
(* The free parameters of every scenario's model: the space its points are in. *)
EXTENDS Model, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
\* sizes of coefficient vectors do not depend on the values of other parameters: any will do
Dummy(m) == LET ps == UNION {UNION {Collect(m, a, s, Free, FnFree) : s \in RangeOf(m.arr[a].s)} : a \in 1..Len(m.arr)}
            IN  [n \in {p.name : p \in ps} |-> LET p == CHOOSE p \in ps : p.name = n
                                               IN  IF p.size = 0 THEN 1 ELSE [k \in 1..p.size |-> 1]]
Init == /\ i \in 1..Len(Scn)
        /\ LET m == Scn[i].m
           IN  PrintT("REG " \o ToJson([id |-> Scn[i].id,
                 consts |-> [a \in 1..Len(m.arr) |-> SortByName(ConstRecs(m, a))],
                 free |-> SortByName(FreeParams(m, [par |-> Dummy(m), c |-> EmptyRec]))]))
Next == UNCHANGED i
=============================================================================
