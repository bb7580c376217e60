----------------------------- MODULE AlgebraGen ------------------------------
(* Composition sessions over the definitions 1..Prof.nl and pulsars 1..Prof.np. *)
(* The first definition is white noise: only collections with it are bound.    *)
EXTENDS Algebra, Json, IOUtils, FiniteSets, TLC
Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]
VARIABLES objs, ops, asks, done
vars == <<objs, ops, asks, done>>
Leaf == 1..Prof.nl
RSet(s) == {s[i] : i \in 1..Len(s)}
Kind(t) == {i \in 1..Len(objs) : objs[i].t = t}
Do(op) == /\ ops' = Append(ops, op) /\ objs' = Apply(objs, op) /\ UNCHANGED <<asks, done>>
Room(t, n) == ~done /\ Cardinality(Kind(t)) < n
Disj(i, j) == RSet(objs[i].s) \cap RSet(objs[j].s) = {}
PsrsOf(i) == {objs[b].p : b \in RSet(Elems(objs, i))}
Init == /\ ops = [k \in Leaf |-> [op |-> "leaf", k |-> k]]
        /\ objs = [k \in Leaf |-> [t |-> "group", s |-> <<k>>]] /\ asks = <<>> /\ done = FALSE
SumDefs == Room("group", Prof.groups) /\ \E i, j \in Kind("group") : Disj(i, j) /\ Do([op |-> "sum", i |-> i, j |-> j])
ListDefs == Room("group", Prof.groups) /\ \E n \in RSet(Prof.lists) : \E is \in [1..n -> Leaf] :
              /\ Cardinality(RSet(is)) = n /\ Do([op |-> "list", is |-> is])
Bind == Room("bound", Prof.bounds) /\ \E i \in Kind("group"), p \in 1..Prof.np :
              1 \in RSet(objs[i].s) /\ Len(objs[i].s) > 1 /\ Do([op |-> "bind", i |-> i, p |-> p])
Join == Room("array", Prof.arrays) /\ \E i, j \in Kind("bound") \cup Kind("array") :
              PsrsOf(i) \cap PsrsOf(j) = {} /\ Do([op |-> "sum", i |-> i, j |-> j])
Array == Room("array", Prof.arrays) /\ \E n \in RSet(Prof.sizes) : \E is \in [1..n -> Kind("bound")] :
              /\ Cardinality({objs[is[k]].p : k \in 1..n}) = n
              /\ \E then \in RSet(Prof.then) : Do([op |-> "array", is |-> is, then |-> then])
Bad == Room("error", Prof.errors) /\ \E i \in Kind("group"), j \in Kind("bound") \cup Kind("array") :
              \E sw \in BOOLEAN : Do([op |-> "sum", i |-> IF sw THEN j ELSE i, j |-> IF sw THEN i ELSE j])
Ask == /\ ~done /\ Prof.asks > Len(asks)
       /\ \E i \in Kind("array"), q \in RSet(Prof.q), pt \in 1..2 :
            asks' = Append(asks, [at |-> Len(ops), i |-> i, q |-> q, pt |-> pt])
       /\ UNCHANGED <<objs, ops, done>>
Finish == /\ ~done /\ Kind("array") # {} /\ Len(asks) = Prof.asks
          /\ done' = TRUE /\ UNCHANGED <<objs, ops, asks>>
          /\ (Prof.print => PrintT("SCN " \o ToJson([ops |-> ops, asks |-> asks])))
Next == SumDefs \/ ListDefs \/ Bind \/ Join \/ Array \/ Bad \/ Ask \/ Finish
Spec == Init /\ [][Next]_vars
(* ---- what holds of the design ------------------------------------------------- *)
\* objects never change once made
Unchanged == [][\A i \in 1..Len(objs) : objs'[i] = objs[i]]_vars
\* adding is associative, in both worlds
Assoc == Prof.print \/ \A i, j, k \in Kind("group") : Disj(i, j) /\ Disj(j, k) /\ Disj(i, k) =>
           LET l == Append(objs, Sum(objs, i, j))  r == Append(objs, Sum(objs, j, k))  n == Len(objs) + 1
           IN  Sum(l, n, k) = Sum(r, i, n)
AssocArrays == Prof.print \/ \A i, j, k \in Kind("bound") \cup Kind("array") :
           LET l == Append(objs, Sum(objs, i, j))  r == Append(objs, Sum(objs, j, k))  n == Len(objs) + 1
           IN  Sum(l, n, k) = Sum(r, i, n)
\* every array element is an instance made before, with each pulsar once
WellFormed == Prof.print \/ \A i \in Kind("array") : /\ \A b \in RSet(objs[i].e) : b < i /\ objs[b].t = "bound"
                                       /\ Cardinality(PsrsOf(i)) = Len(objs[i].e)
\* the history alone determines the objects
Replays == Prof.print \/ Run(ops) = objs
=============================================================================
