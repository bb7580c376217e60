-------------------------------- MODULE Saved --------------------------------
(* Pulsars saved to files and loaded back: an object is somebody's data and a  *)
(* dictionary of noise parameters, whatever files it went through.  The second *)
(* part is the layout of a feather file: how arrays become named columns and   *)
(* how they are found again.                                                   *)
EXTENDS Util, Integers
\* ---- objects and files ----------------------------------------------------------
\* o = [psr, noise]: noise maps names to values
Kept(name, noise) == [k \in {k \in DOMAIN noise : StrPrefix(name, k)} |-> noise[k]]
\* what a feather file keeps: of the noise dictionary given, or else the object's, what is the pulsar's
Save(o, names, arg) == [kind |-> "feather", psr |-> o.psr, noise |-> Kept(names[o.psr], IF Has(arg, "noise") THEN arg.noise ELSE o.noise)]
Pickle(o) == [kind |-> "pickle", psr |-> o.psr, noise |-> o.noise]
Load(f) == [psr |-> f.psr, noise |-> f.noise]
\* s: [obj |-> sequence of objects, file |-> file name -> content]
Do(s, names, a) ==
  CASE a.op = "save"   -> [s EXCEPT !.file = [x \in DOMAIN @ \cup {a.file} |-> IF x = a.file THEN Save(s.obj[a.o], names, a) ELSE s.file[x]]]
    [] a.op = "pickle" -> [s EXCEPT !.file = [x \in DOMAIN @ \cup {a.file} |-> IF x = a.file THEN Pickle(s.obj[a.o]) ELSE s.file[x]]]
    [] a.op = "load"   -> [s EXCEPT !.obj = Append(@, Load(s.file[a.file]))]
    [] a.op = "noise"  -> [s EXCEPT !.obj[a.o].noise = a.noise]
    [] OTHER           -> s
\* ---- columns ------------------------------------------------------------------------
\* x: [plain: name -> value, vector: name -> sequence, tensor: name -> sequence of sequences, flags: name -> value]
Words(ws) == IF ws = <<>> THEN "" ELSE FoldSeq(LAMBDA w, acc : IF acc = "" THEN w ELSE acc \o "_" \o w, "", ws)
Digit(k) == ToString(k)
Columns(x) ==       \* sequence of [name, val] in the order they are written
  [k \in 1..Len(x.plain) |-> [name |-> x.plain[k].name, val |-> x.plain[k].val]]
  \o Concat([v \in 1..Len(x.vector) |-> [k \in 1..Len(x.vector[v].val) |-> [name |-> x.vector[v].name \o "_" \o Digit(k - 1), val |-> x.vector[v].val[k]]]])
  \o Concat([t \in 1..Len(x.tensor) |->
       Concat([r \in 1..Len(x.tensor[t].val) |-> [k \in 1..Len(x.tensor[t].val[r]) |->
               [name |-> x.tensor[t].name \o "_" \o Digit(r - 1) \o "_" \o Digit(k - 1), val |-> x.tensor[t].val[r][k]]]])])
  \o [k \in 1..Len(x.flags) |-> [name |-> "flags_" \o x.flags[k].name, val |-> x.flags[k].val]]
Starting(cols, p) == SelectSeq(cols, LAMBDA c : StrPrefix(p, c.name))
Vals(cs) == [k \in 1..Len(cs) |-> cs[k].val]
FindPlain(cols, n) == LET h == SelectSeq(cols, LAMBDA c : c.name = n) IN h[1].val
FindVector(cols, n) == Vals(Starting(cols, n))
\* rows are the names without the last part, in string order, and their columns those that start with the row's name
FindTensor(cols, n, nrow) ==
  LET rows == SortStrings({n \o "_" \o Digit(r - 1) : r \in 1..nrow})
  IN  [r \in 1..Len(rows) |-> Vals(Starting(cols, rows[r]))]
FlagOf(cols, nm) == LET h == SelectSeq(cols, LAMBDA c : c.name = "flags_" \o nm) IN h[1].val
Distinguished(x) == LET c == Columns(x) IN Distinct([k \in 1..Len(c) |-> c[k].name])
Recovered(x) ==
  LET c == Columns(x)
  IN  /\ \A k \in 1..Len(x.plain) : FindPlain(c, x.plain[k].name) = x.plain[k].val
      /\ \A v \in 1..Len(x.vector) : FindVector(c, x.vector[v].name) = x.vector[v].val
      /\ \A t \in 1..Len(x.tensor) : FindTensor(c, x.tensor[t].name, Len(x.tensor[t].val)) = x.tensor[t].val
      /\ \A k \in 1..Len(x.flags) : FlagOf(c, x.flags[k].name) = x.flags[k].val
=============================================================================
