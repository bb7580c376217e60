------------------------------ MODULE Resolve -------------------------------
(* How a function gets the values of its arguments.  Declarations form a     *)
(* forest of nodes [up, kw, t, ref, fname, pos]: node i is given as keyword kw *)
(* of node up (0: of the outermost function).  Kinds of nodes:                *)
(*   lit a value          const, cinst a constant, its own name in cinst      *)
(*   par, inst a parameter (an instance keeps its name), whose prior may have *)
(*       arguments in turn (hyperparameters)                                  *)
(*   fn, finst a nested function        ref the same instance as node ref     *)
(*   copy the same class as node ref                                          *)
(* Values are symbolic: a function returns its own name applied to what it got.*)
EXTENDS Util
Kws == <<"a", "b", "c">>
Def(N, i) == IF i > 0 /\ N[i].t \in {"ref", "copy"} THEN N[i].ref ELSE i
Kind(N, i) == N[Def(N, i)].t
IsPar(N, i) == Kind(N, i) \in {"par", "inst"}
IsFn(N, i) == Kind(N, i) \in {"fn", "finst"}
Kids(N, d) == {i \in 1..Len(N) : N[i].up = d}
Kid(N, d, k) == CHOOSE i \in Kids(N, d) : N[i].kw = k
HasKid(N, d, k) == \E i \in Kids(N, d) : N[i].kw = k
FName(N, d) == IF d = 0 THEN "" ELSE N[d].fname
\* name of node i used by an owner called pre (function names included)
NameOf(N, i, pre) ==
  IF N[i].t \in {"inst", "finst", "cinst", "ref"} THEN "I" \o ToString(Def(N, i)) ELSE JoinNE(<<pre, N[i].kw>>)
\* what the arguments of an object called name are prefixed with
PreOf(N, d, name) == IF d > 0 /\ IsFn(N, d) THEN JoinNE(<<name, FName(N, d)>>) ELSE name
RECURSIVE Text_(_, _)
Text_(ps, k) == IF k > Len(ps) THEN "" ELSE (IF k = 1 THEN "" ELSE ",") \o ps[k] \o Text_(ps, k + 1)
RECURSIVE ArgVal(_, _, _, _, _, _), FnVal(_, _, _, _, _)
\* value of keyword k of object d with prefix pre: explicitly given, else as declared, else the default
ArgVal(N, d, pre, k, given, par) ==
  IF k \in DOMAIN given THEN given[k]
  ELSE IF ~HasKid(N, d, k) THEN "d" \o ToString(d) \o k
  ELSE LET i == Kid(N, d, k)  j == Def(N, i)  n == NameOf(N, i, pre)
       IN  CASE N[j].t = "lit" -> "L" \o ToString(j)
             [] N[j].t \in {"const", "cinst"} -> "C" \o ToString(j)
             [] IsPar(N, j) -> IF n \in DOMAIN par THEN par[n] ELSE "d" \o ToString(d) \o k
             [] IsFn(N, j) -> \* a nested function gets what was given explicitly for keywords it declares
                  LET own == {N[c].kw : c \in Kids(N, j)}
                  IN  FnVal(N, j, n, [x \in DOMAIN given \cap own |-> given[x]], par)
FnVal(N, d, name, given, par) ==
  "f" \o ToString(d) \o "(" \o Text_([k \in 1..3 |-> Kws[k] \o "=" \o ArgVal(N, d, PreOf(N, d, name), Kws[k], given, par)], 1) \o ")"
\* parameters below object d: set of [name, at, pre]; hyperparameters included
RECURSIVE Pars(_, _, _)
Pars(N, d, name) ==
  UNION {LET j == Def(N, i)  n == NameOf(N, i, PreOf(N, d, name))
         IN  (IF IsPar(N, j) THEN {[name |-> n, at |-> j]} ELSE {})
             \cup (IF IsPar(N, j) \/ IsFn(N, j) THEN Pars(N, j, n) ELSE {})
         : i \in Kids(N, d)}
\* names of the parameters the object d itself depends on (nested functions included)
RECURSIVE Needs(_, _, _)
Needs(N, d, name) ==
  UNION {LET j == Def(N, i)  n == NameOf(N, i, PreOf(N, d, name))
         IN  (IF IsPar(N, j) THEN {n} ELSE {}) \cup (IF IsFn(N, j) THEN Needs(N, j, n) ELSE {})
         : i \in Kids(N, d)}

(* ---- drawing parameters jointly: a state machine ------------------------- *)
\* drawn: name -> value.  A parameter is drawn once, after everything its prior depends on
CanDraw(N, p, drawn) == p.name \notin DOMAIN drawn /\ Needs(N, p.at, p.name) \subseteq DOMAIN drawn
DrawArgs(N, p, drawn) == [k \in {"a", "b", "c"} |-> ArgVal(N, p.at, PreOf(N, p.at, p.name), k, EmptyRec, drawn)]
\* the observed draws are a behaviour of it
RECURSIVE DrawsBad(_, _, _, _, _)
DrawsBad(N, all, tr, k, drawn) ==
  IF k > Len(tr) THEN IF DOMAIN drawn = {p.name : p \in all} THEN {} ELSE {"not all parameters drawn"}
  ELSE LET w == {p \in all : p.name \notin DOMAIN drawn /\ p.at = tr[k].at /\ CanDraw(N, p, drawn) /\ DrawArgs(N, p, drawn) = tr[k].args}
       IN  IF w = {} THEN {"draw " \o ToString(k) \o " of node " \o ToString(tr[k].at) \o " with " \o ToString(tr[k].args) \o " is not possible"}
           ELSE \* several parameters of one class may match: any assignment consistent with the result
                LET outs == {DrawsBad(N, all, tr, k + 1, MergeEnv(drawn, [x \in {p.name} |-> tr[k].v])) : p \in w}
                IN  IF {} \in outs THEN {} ELSE CHOOSE o \in outs : TRUE
JDraws(e) ==
  LET all == UNION {LET n == NameOf(e.nodes, i, "") IN {[name |-> n, at |-> Def(e.nodes, i)]} \cup Pars(e.nodes, Def(e.nodes, i), n)
                    : i \in Kids(e.nodes, 0)}
  IN  IF e.obs.k # "draws" THEN {"joint sample: " \o e.obs.v}
      ELSE DrawsBad(e.nodes, all, e.obs.tr, 1, EmptyRec)
           \cup (IF DOMAIN e.obs.v = {p.name : p \in all} THEN {} ELSE {"sample: parameters " \o ToString(DOMAIN e.obs.v)})
           \cup (IF \A t \in RangeOf(e.obs.tr) : \E n \in DOMAIN e.obs.v : e.obs.v[n] = t.v THEN {} ELSE {"a value drawn is not in the sample"})
\* replay by name: the value in the sample identifies the draw
JDrawsByName(e) ==
  IF e.obs.k # "draws" THEN {} ELSE
  LET at(v) == {n \in DOMAIN e.obs.v : e.obs.v[n] = v}
      tr == e.obs.tr
      before(k) == [n \in UNION {at(tr[j].v) : j \in 1..k - 1} |-> e.obs.v[n]]
      all == UNION {LET n == NameOf(e.nodes, i, "") IN {[name |-> n, at |-> Def(e.nodes, i)]} \cup Pars(e.nodes, Def(e.nodes, i), n)
                    : i \in Kids(e.nodes, 0)}
  IN  UNION {IF Cardinality(at(tr[k].v)) # 1 THEN {"draw " \o ToString(k) \o " is the value of " \o ToString(at(tr[k].v))}
             ELSE LET n == CHOOSE x \in at(tr[k].v) : TRUE
                      ps == {p \in all : p.name = n}
                  IN  IF \E p \in ps : CanDraw(e.nodes, p, before(k)) /\ DrawArgs(e.nodes, p, before(k)) = tr[k].args THEN {}
                      ELSE {n \o " was drawn with " \o ToString(tr[k].args)}
             : k \in 1..Len(tr)}
JResolve(e) ==
  LET x == FnVal(e.nodes, 0, e.name, e.given, e.par)
      ns == {p.name : p \in Pars(e.nodes, 0, e.name)}
  IN  (IF e.obs.k = "str" /\ e.obs.v = x THEN {} ELSE {"expected " \o x \o ", observed " \o e.obs.v})
      \cup (IF RangeOf(e.params) = ns THEN {} ELSE {"parameters: expected " \o ToString(ns) \o ", observed " \o ToString(e.params)})
=============================================================================
