------------------------------ MODULE SavedGen -------------------------------
(* Histories of saving and loading; and file layouts of every small pulsar.    *)
EXTENDS Saved, Json, IOUtils, Randomization
Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]
VARIABLES s, h, fin
vars == <<s, h, fin>>
Names == <<"J1909-3744", "B1855+09", "J0030+0451">>
FlagNames == {"f", "fe", "", "toas", "Mmat_0", "planetssb_0_0", "_x", "flags_f", "a_b"}
Val(a, b) == a * 1000 + b
Pulsar(y) ==
  [plain |-> <<[name |-> "toas", val |-> 1], [name |-> "stoas", val |-> 2], [name |-> "telescope", val |-> 3]>>,
   vector |-> <<[name |-> "Mmat", val |-> [k \in 1..y.ncol |-> Val(1, k)]], [name |-> "sunssb", val |-> [k \in 1..6 |-> Val(2, k)]],
                [name |-> "pos_t", val |-> [k \in 1..3 |-> Val(3, k)]]>>,
   tensor |-> <<[name |-> "planetssb", val |-> [r \in 1..y.npl |-> [k \in 1..6 |-> Val(3 + r, k)]]]>>,
   flags |-> LET f == SetToSeq(y.fl) IN [k \in 1..Len(f) |-> [name |-> f[k], val |-> Val(50, k)]]]
Noises == [a : {[x \in {} |-> ""], ("J1909-3744_efac" :> "1.5" @@ "B1855+09_efac" :> "1.25" @@ "gw_log10_A" :> "-14.5"),
                ("B1855+09_A_log10_ecorr" :> "-6.5"), ("J0030+0451_x" :> "vector" @@ "J1909-3744_n" :> "integer")}]
Empty == [x \in {} |-> ""]
Init == /\ h = <<>>
        /\ IF Prof.layouts
           THEN fin = TRUE /\ s \in {[ncol |-> a, npl |-> b, fl |-> c] : <<a, b, c>> \in {1, 2, 3, 11, 12} \X {0, 2, 9} \X {F \in SUBSET FlagNames : Cardinality(F) <= 3}}
           ELSE fin = FALSE /\ s = [obj |-> [k \in 1..Prof.npsr |-> [psr |-> k, noise |-> Empty]], file |-> Empty]
Files == {"a.feather", "b.feather", "a.pkl"}
Acts == LET os == 1..Len(s.obj)
        IN  (IF Has(Prof, "pickles") THEN {} ELSE [op : {"save"}, o : os, file : {"a.feather", "b.feather"}]
            \cup {[op |-> "save", o |-> o, file |-> f, noise |-> n.a] : <<o, f, n>> \in os \X {"a.feather", "b.feather"} \X Noises})
            \cup [op : {"pickle"}, o : os, file : {"a.pkl"}]
            \cup [op : {"load"}, file : DOMAIN s.file]
            \cup [op : {"model"}, o : os]
            \cup {[op |-> "noise", o |-> o, noise |-> n.a] : <<o, n>> \in os \X Noises}
Step == /\ ~fin /\ Len(h) < Prof.nop
        /\ \E a \in (IF Prof.full THEN RandomSubset(4, Acts) ELSE Acts) :
             /\ (IF a.op = "load" THEN Len(s.obj) < Prof.npsr + 4 ELSE IF a.op = "model" THEN Prof.full ELSE TRUE)
             /\ s' = Do(s, Names, a) /\ h' = (IF Prof.full THEN Append(h, a) ELSE Append(h, "x")) /\ fin' = FALSE
Finish == /\ Prof.full /\ ~fin /\ Len(h) = Prof.nop /\ fin' = TRUE /\ UNCHANGED <<s, h>>
          /\ PrintT("SCN " \o ToJson([ops |-> h, npsr |-> Prof.npsr]))
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Layouts == Prof.layouts => Distinguished(Pulsar(s)) /\ Recovered(Pulsar(s))
\* noise dictionaries of loaded objects are about their pulsar, unless pickled
OwnNoise == ~Prof.layouts => \A f \in DOMAIN s.file : s.file[f].kind = "feather" =>
              \A k \in DOMAIN s.file[f].noise : StrPrefix(Names[s.file[f].psr], k)
\* saving what was loaded gives the same file
Stable == ~Prof.layouts => \A f \in DOMAIN s.file : s.file[f].kind = "feather" =>
              Save(Load(s.file[f]), Names, [op |-> "save"]) = s.file[f]
=============================================================================
