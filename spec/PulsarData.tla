----------------------------- MODULE PulsarData ------------------------------
(* The data of one pulsar.  A table gives, for every TOA, its time and what    *)
(* belongs to it; a pulsar is the TOAs kept, the design columns kept and the   *)
(* flags, and everything it shows is the table read in one order.              *)
EXTENDS Util, Integers
\* ---- what the pulsar is and shows --------------------------------------------
\* tab[i].t: time; tab[i].f: flags (a record of strings); tab[i].nz: design columns that are not zero
New(tab) == [rows |-> [i \in 1..Len(tab) |-> i],
             cols |-> IF tab = <<>> THEN <<>> ELSE [k \in 1..Len(tab[1].nz) |-> k],
             flags |-> LET names == UNION {DOMAIN tab[i].f : i \in 1..Len(tab)}
                       IN  [n \in names |-> [i \in 1..Len(tab) |-> Get(tab[i].f, n, "")]]]
\* time order with ties in input order, or input order
Order(s, sort, tab) ==
  IF ~sort THEN s.rows
  ELSE SortSeq(s.rows, LAMBDA a, b : tab[a].t < tab[b].t \/ (tab[a].t = tab[b].t /\ a < b))
\* the user gives values in the order the pulsar shows
SetFlag(s, sort, tab, name, vals) ==
  LET o == Order(s, sort, tab)
      f == [i \in 1..Len(tab) |-> IF \E k \in 1..Len(o) : o[k] = i THEN vals[IndexIn(o, i)] ELSE ""]
  IN  [s EXCEPT !.flags = [n \in DOMAIN s.flags \cup {name} |-> IF n = name THEN f ELSE s.flags[n]]]
\* closed interval; an end that is not given does not restrict
Inside(op, t) == (Has(op, "lo") => op.lo <= t) /\ (Has(op, "hi") => t <= op.hi)
Filter(s, tab, op) ==
  LET kept == SelectSeq(s.rows, LAMBDA i : Inside(op, tab[i].t))
  IN  [s EXCEPT !.rows = kept, !.cols = SelectSeq(s.cols, LAMBDA c : \E k \in 1..Len(kept) : tab[kept[k]].nz[c])]
Do(s, sort, tab, op) ==
  CASE op.op = "set" -> SetFlag(s, sort, tab, op.name, op.vals)
    [] op.op = "filter" -> Filter(s, tab, op)
    [] OTHER -> s
Flag(s, o, name) == [k \in 1..Len(o) |-> s.flags[name][o[k]]]
\* the first of the ranked flags that is set for the TOA
Ranked == <<"group", "g", "sys", "i", "f">>
Backend(s, i) ==
  LET v(n) == IF n \in DOMAIN s.flags THEN s.flags[n][i] ELSE ""
      hit == {k \in 1..Len(Ranked) : v(Ranked[k]) # ""}
  IN  IF hit # {} THEN v(Ranked[CHOOSE k \in hit : \A j \in hit : k <= j])
      ELSE IF v("fe") # "" /\ v("be") # "" THEN v("fe") \o "_" \o v("be") ELSE ""
\* ---- how it is kept: arrays in input order and two permutations ----------------
\* ids stands for every per-TOA array, nz for the design matrix
StableArgsort(t) == SortSeq([i \in 1..Len(t) |-> i], LAMBDA a, b : t[a] < t[b] \/ (t[a] = t[b] /\ a < b))
InvPerm(p) == [i \in 1..Len(p) |-> IndexIn(p, i)]
Ident(n) == [i \in 1..n |-> i]
SortData(c, sort) == LET p == IF sort THEN StableArgsort(c.t) ELSE Ident(Len(c.t))
                     IN  [c EXCEPT !.isort = p, !.iisort = InvPerm(p)]
Raw(tab, sort) ==
  LET s == New(tab)
  IN  SortData([t |-> [i \in 1..Len(tab) |-> tab[i].t], ids |-> Ident(Len(tab)), cols |-> s.cols, flags |-> s.flags,
                isort |-> <<>>, iisort |-> <<>>], sort)
RawDo(c, sort, tab, op) ==
  CASE op.op = "set" -> [c EXCEPT !.flags = [n \in DOMAIN c.flags \cup {op.name} |-> IF n = op.name THEN Pick(op.vals, c.iisort) ELSE c.flags[n]]]
    [] op.op = "filter" ->
         LET k == SelectSeq(Ident(Len(c.t)), LAMBDA i : Inside(op, c.t[i]))
             ids == Pick(c.ids, k)
         IN  SortData([c EXCEPT !.t = Pick(c.t, k), !.ids = ids, !.flags = [n \in DOMAIN c.flags |-> Pick(c.flags[n], k)],
                                !.cols = SelectSeq(c.cols, LAMBDA q : \E j \in 1..Len(ids) : tab[ids[j]].nz[q])], sort)
    [] OTHER -> SortData(c, sort)
RawView(c) == [rows |-> Pick(c.ids, c.isort), t |-> Pick(c.t, c.isort), cols |-> c.cols,
               flags |-> [n \in DOMAIN c.flags |-> Pick(c.flags[n], c.isort)]]
View(s, sort, tab) == LET o == Order(s, sort, tab)
                      IN  [rows |-> o, t |-> [k \in 1..Len(o) |-> tab[o[k]].t], cols |-> s.cols,
                           flags |-> [n \in DOMAIN s.flags |-> Flag(s, o, n)]]
=============================================================================
