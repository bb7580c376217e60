------------------------------- MODULE LoadGen -------------------------------
EXTENDS Loading, Json, IOUtils, Randomization
Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]
VARIABLES x, r
vars == <<x, r>>
Fails0 == {"", "par", "tim", "include", "package", "reader", "feather"}
Seqs == UNION {[1..n -> Kinds] : n \in 0..Prof.nargs}
Line == {[k |-> "toa", n |-> 1], [k |-> "toa", n |-> 60], [k |-> "toa", n |-> 130], [k |-> "com"], [k |-> "fmt"], [k |-> "blank"], [k |-> "mode"]}
Files == [a : Line, b : Line, c : Line, i1 : {0, 1, 2}, i2 : BOOLEAN, flag : BOOLEAN]
Tree(t) == [main |-> <<[k |-> "fmt"], t.a>> \o [j \in 1..t.i1 |-> [k |-> "inc", f |-> "one"]] \o <<t.b>>,
            one |-> <<t.b, [k |-> "toa", n |-> 7]>> \o (IF t.i2 THEN <<[k |-> "inc", f |-> "two"], t.c>> ELSE <<>>),
            two |-> <<t.c, [k |-> "toa", n |-> 90]>>]
Init == /\ r = Begin
        /\ IF Prof.files
           THEN \E t \in Files : x = [args |-> <<"par", "tim">>, pkg |-> "tempo2", fp |-> FALSE, t2 |-> TRUE, pint |-> TRUE, fail |-> "", tree |-> Tree(t), inflag |-> t.flag]
           ELSE \E a \in Seqs, p \in {"", "tempo2", "pint", "other"}, fp \in BOOLEAN, t2 \in BOOLEAN, pint \in BOOLEAN, f \in Fails0 :
                  /\ (IF fp THEN p = "" ELSE TRUE)
                  /\ x = [args |-> a, pkg |-> p, fp |-> fp, t2 |-> t2, pint |-> pint, fail |-> f]
Step == r.pc # "done" /\ r' = Run(x, r) /\ x' = x
Finish == r.pc = "done" /\ Prof.print /\ r' = [r EXCEPT !.pc = "printed"] /\ x' = x /\ PrintT("SCN " \o ToJson(x))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Restored == r.pc = "done" => r.cwd = "home"
ByRule == r.pc = "done" => /\ r.failed = Fails(x)
                           /\ (Reader(x) = "rejected" => r.called = "")
                           /\ (r.called # "" => r.called = Reader(x))
=============================================================================
