------------------------------ MODULE Algebra --------------------------------
(* Composition: definitions of signals are added into collections, collections *)
(* are instantiated with pulsars, and instances are joined into arrays.  An    *)
(* object is                                                                   *)
(*   [t |-> "group", s]     a definition (one signal) or a sum of definitions  *)
(*   [t |-> "bound", p, s]  the signals s of pulsar p                          *)
(*   [t |-> "array", e]     instances (numbers of bound objects) in order      *)
(*   [t |-> "error"]        a sum that makes no sense                          *)
(* Operations only ever add an object: operands stay what they are.            *)
EXTENDS Naturals, Sequences
LOCAL RS(s) == {s[i] : i \in 1..Len(s)}
Elems(objs, i) == IF objs[i].t = "bound" THEN <<i>> ELSE objs[i].e
Sum(objs, i, j) ==
  LET a == objs[i]  b == objs[j]
  IN  CASE a.t = "group" /\ b.t = "group" -> [t |-> "group", s |-> a.s \o b.s]
        [] a.t \in {"bound", "array"} /\ b.t \in {"bound", "array"} -> [t |-> "array", e |-> Elems(objs, i) \o Elems(objs, j)]
        [] OTHER -> [t |-> "error"]
Result(objs, op) ==
  CASE op.op = "leaf"  -> [t |-> "group", s |-> <<op.k>>]
    [] op.op = "list"  -> [t |-> "group", s |-> [n \in 1..Len(op.is) |-> objs[op.is[n]].s[1]]]     \* SignalCollection([..])
    [] op.op = "sum"   -> Sum(objs, op.i, op.j)
    [] op.op = "bind"  -> [t |-> "bound", p |-> op.p, s |-> objs[op.i].s]
    [] op.op = "array" -> [t |-> "array", e |-> op.is]                                             \* PTA([..])
  \* op.then, what becomes of the caller's list afterwards, changes nothing
Apply(objs, op) == Append(objs, Result(objs, op))
RECURSIVE RunFrom(_, _, _)
RunFrom(objs, ops, n) == IF n > Len(ops) THEN objs ELSE RunFrom(Apply(objs, ops[n]), ops, n + 1)
Run(ops) == RunFrom(<<>>, ops, 1)
\* the array as pulsars with their signals
ArrOf(objs, i) == [n \in 1..Len(Elems(objs, i)) |-> LET b == objs[Elems(objs, i)[n]] IN [p |-> b.p, s |-> b.s]]
\* what every leaf becomes: the order of addition, however it was grouped
Leaves(objs, i) == IF objs[i].t = "group" THEN objs[i].s ELSE objs[i].e
=============================================================================
