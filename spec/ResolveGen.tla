----------------------------- MODULE ResolveGen -----------------------------
(* Declarations of functions (mode "call") and of hierarchical parameters     *)
(* (mode "draw"), node by node, up to PROFILE.nodes nodes.                    *)
EXTENDS Resolve, Json, IOUtils
Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]
VARIABLES nodes, mode, done
vars == <<nodes, mode, done>>
Key(u, k) == u * 4 + (CHOOSE i \in 1..3 : Kws[i] = k)
RECURSIVE Depth(_)
Depth(i) == IF i = 0 THEN 0 ELSE 1 + Depth(nodes[i].up)
CanHave(u) == IF u = 0 THEN TRUE ELSE nodes[u].t \in {"par", "inst", "fn", "finst"}
Kinds == IF mode = "draw" THEN {"lit", "par", "inst", "fn", "ref", "copy"}
         ELSE {"lit", "par", "inst", "const", "cinst", "fn", "finst", "ref", "copy"}
\* everything a node uses
RECURSIVE Reach(_)
Reach(i) == {i} \cup UNION {Reach(Def(nodes, c)) : c \in Kids(nodes, i)}
Add == /\ ~done /\ Len(nodes) < Prof.nodes
       /\ \E u \in {0} \cup 1..Len(nodes), k \in RangeOf(Prof.kws), t \in Kinds :
          \E r \in {0} \cup 1..Len(nodes), q \in (IF t \in {"fn", "finst"} THEN {"", "q"} ELSE {""}) :
            /\ CanHave(u) /\ Depth(u) < Prof.depth
            /\ (IF Len(nodes) = 0 THEN TRUE ELSE Key(u, k) > Key(nodes[Len(nodes)].up, nodes[Len(nodes)].kw))
            /\ t \in (IF mode = "draw" /\ u = 0 THEN {"par", "inst", "ref", "copy"} ELSE Kinds)
            /\ (r > 0) <=> (t \in {"ref", "copy"})
            /\ (IF r = 0 THEN TRUE
                ELSE /\ nodes[r].t \in (IF t = "ref" THEN {"inst", "finst"} ELSE {"par", "fn"})
                     /\ u \notin Reach(r)
                     /\ (IF mode = "draw" /\ u = 0 THEN IsPar(nodes, r) ELSE TRUE))
            /\ nodes' = Append(nodes, [up |-> u, kw |-> k, t |-> t, ref |-> r, fname |-> q])
       /\ UNCHANGED <<mode, done>>
Finish == /\ ~done /\ Len(nodes) > 0 /\ done' = TRUE /\ UNCHANGED <<nodes, mode>>
          /\ (IF Prof.exact THEN Len(nodes) = Prof.nodes ELSE TRUE)
          /\ PrintT("SCN " \o ToJson([mode |-> mode, nodes |-> nodes]))
Init == nodes = <<>> /\ mode \in RangeOf(Prof.modes) /\ done = FALSE
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
(* ---- what the resolution guarantees, on every declaration ----------------- *)
Given0 == [x \in {} |-> ""]
All(name) == {p.name : p \in Pars(nodes, 0, name)}
Vals(S) == [n \in S |-> "<" \o n \o ">"]
\* a value depends only on the parameters listed, and giving all of them never leaves a listed parameter at its default
OnlyListed == LET x == FnVal(nodes, 0, "p", Given0, Vals(All("p"))) IN x = FnVal(nodes, 0, "p", Given0, Vals(All("p") \cup {"a", "b", "p", "p_c"} ))
\* two instances with different names share only instances
Apart == \A n \in All("p") \cap All("o") : \E i \in 1..Len(nodes) : n = "I" \o ToString(i) \/ StrPrefix("I" \o ToString(i) \o "_", n)
\* every declaration of hyperparameters can be drawn: some order exists (no deadlock of the state machine)
RECURSIVE Drawable(_, _)
Drawable(all, drawn) ==
  IF {p.name : p \in all} \subseteq DOMAIN drawn THEN TRUE
  ELSE LET w == {p \in all : CanDraw(nodes, p, drawn)}
       IN  w # {} /\ Drawable(all, MergeEnv(drawn, [n \in {p.name : p \in w} |-> "v"]))
NoDeadlock == Drawable(Pars(nodes, 0, "p"), EmptyRec)
=============================================================================
