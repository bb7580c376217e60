------------------------------ MODULE Inspect --------------------------------
(* What a model says of itself: the table of its signals (PTA.summary) and the *)
(* short forms of signals, collections and arrays.  Both are views of the same *)
(* model that is evaluated: its signals, their parameters, constants and bases.*)
EXTENDS Conditional
LOCAL Diff(lab, o, e) == IF o = e THEN {} ELSE {lab \o ": expected " \o ToString(e) \o ", shown " \o ToString(o)}
(* ---- a parameter: name, type, size and arguments of its prior --------------- *)
LOCAL TypeOf(d) == CASE d = "U" -> "Uniform" [] d = "N" -> "Normal" [] d = "LE" -> "LinearExp" [] d = "TN" -> "TruncNormal"
                     [] d = "IG" -> "InvGamma" [] d = "C" -> "GPCoefficients" [] OTHER -> "UserParameter"
LOCAL ArgsOf(d) == CASE d \in {"U", "LE"} -> {"pmin", "pmax"} [] d = "N" -> {"mu", "sigma"}
                     [] d = "TN" -> {"mu", "sigma", "pmin", "pmax"} [] OTHER -> {}
LOCAL SameNums(x, o) == LET a == VecOf(x)  b == VecOf(o)
                        IN  Len(a) = Len(b) /\ \A k \in 1..Len(a) : REq(a[k], b[k])
\* o: a shown argument; it is given as a number, or by the name of a parameter
LOCAL ShownArg(n, kw, pr, o) ==
  IF kw \notin DOMAIN pr.kw THEN o.k = "num" /\ REq(PrDefault(pr.d, kw), o.v)
  ELSE LET ps == pr.kw[kw]
       IN  CASE ps.t = "lit" -> o.k \in {"num", "vec"} /\ SameNums(ps.v, o.v)
             [] ps.t \in {"par", "const"} -> o.k = "par" /\ o.v = PName(n, kw, ps)
             [] OTHER -> TRUE
LOCAL ShownPar(lab, p, o) ==
  LET l == lab \o "parameter " \o p.name IN
  Diff(l \o ", type", o.type, TypeOf(p.pr.d)) \cup Diff(l \o ", size", o.size, p.size)
  \cup UNION {IF kw \notin DOMAIN o.args THEN {l \o ": " \o kw \o " is not shown"}
              ELSE IF ShownArg(p.name, kw, p.pr, o.args[kw]) THEN {} ELSE {l \o ": " \o kw \o " is shown as " \o ToString(o.args[kw])}
              : kw \in ArgsOf(p.pr.d)}
\* values of constants, as they are now
LOCAL ShownConsts(m, a, s, env, lab, os) ==
  LET sh == [n \in {o.name : o \in RangeOf(os)} |-> os[CHOOSE k \in 1..Len(os) : os[k].name = n]]
      RECURSIVE Bad(_, _, _)
      Bad(pre, kw, ps) ==
        CASE ps.t = "const" ->
               LET n == PName(pre, kw, ps)
                   o == sh[n]
                   e == IF n \in DOMAIN env.c THEN <<env.c[n]>> ELSE IF Has(ps, "v") THEN <<ps.v>> ELSE <<>>
               IN  IF n \notin DOMAIN sh THEN {}            \* reported by name
                   ELSE IF (IF e = <<>> THEN o.k = "none" ELSE o.k \in {"num", "vec"} /\ SameNums(e[1], o.v)) THEN {}
                   ELSE {lab \o "constant " \o n \o " is shown as " \o ToString(o)}
          [] ps.t = "fn" -> UNION {Bad(JoinNE(<<pre, kw>>), a1, ps.kw[a1]) : a1 \in DOMAIN ps.kw}
          [] OTHER -> {}
      FnBad(fs, pre) == UNION {Bad(pre, kw, fs.kw[kw]) : kw \in DOMAIN fs.kw}
  IN  Collect(m, a, s, Bad, FnBad)
LOCAL Cols(m, a, s, env) == LET ps == GPParts(m, a, s, env)
                                RECURSIVE N(_)
                                N(k) == IF k = 0 THEN 0 ELSE N(k - 1) + Len(ps[k].cols)
                            IN  N(Len(ps))
LOCAL Rows(m) == Concat([a \in 1..Len(m.arr) |-> [j \in 1..Len(m.arr[a].s) |-> [a |-> a, j |-> j, s |-> m.arr[a].s[j]]]])
LOCAL Names(ps) == {p.name : p \in ps}
JShow(m, e, env) ==
  LET o == e.obs
      rows == Rows(m)
      one(k) ==
        LET r == rows[k]  x == o.sigs[k]  P == Psr(m, r.a)  sg == m.sigs[r.s]
            dir == SigDirect(m, r.a, r.s, env)
            lab == "signal " \o ToString(<<r.a, r.j>>) \o ", "
            exp == Expand(SortByName(dir))
        IN  Diff(lab \o "name", x.name, P.name \o "_" \o SigId(sg))
            \cup Diff(lab \o "number of parameters", x.n, Len(exp))
            \cup Diff(lab \o "parameters", Names(RangeOf(x.pars)), Names(dir))
            \cup Diff(lab \o "constants", Names(RangeOf(x.consts)), Names(SigConsts(m, r.a, r.s)))
            \cup UNION {UNION {ShownPar(lab, p, y) : y \in {y \in RangeOf(x.pars) : y.name = p.name}} : p \in dir}
            \cup ShownConsts(m, r.a, r.s, env, lab, x.consts)
            \cup (IF x.shape = <<>> THEN IF sg.k = "gp" /\ ~IsCoef(sg) /\ sg.basis.f \notin {"tm", "quant"}
                                        THEN {lab \o "shape of the basis not shown"} ELSE {} ELSE Diff(lab \o "shape of the basis", x.shape, <<NToa(m, r.a), Cols(m, r.a, r.s, env)>>))
            \cup (IF x.sel < 0 THEN IF sg.k = "gp" /\ sg.basis.f \notin {"tm", "quant"} THEN {lab \o "number of selected TOAs not shown"} ELSE {} ELSE Diff(lab \o "number of selected TOAs", x.sel,
                     Cardinality(UNION {RangeOf(Where(g[2])) : g \in RangeOf(Groups(m, r.a, r.s))})))
            \cup Diff(lab \o "name in the short table", o.heads[k].name, x.name)
            \cup Diff(lab \o "number in the short table", o.heads[k].n, x.n)
            \cup Diff(lab \o "parameters in the short table", o.heads[k].listed, 0)
            \cup Diff(lab \o "identifier", o.reprs[r.a][r.j].id, SigId(sg))
            \cup Diff(lab \o "parameters of its short form", RangeOf(o.reprs[r.a][r.j].pars), Names(dir))
      fixed == Cardinality(UNION {ConstNames(m, a) : a \in 1..Len(m.arr)})
      free == Len(ParamNames(m, env))
      common == UNION {{n \in RangeOf(Expand(SortByName(SigDirect(m, rows[k].a, rows[k].s, env)))) : ~StrContains(n, Psr(m, rows[k].a).name)}
                       : k \in 1..Len(rows)}
      tot == [total |-> free + fixed, varying |-> free, common |-> Cardinality(common), fixed |-> fixed, number |-> Len(m.arr)]
  IN  IF o.k # "show" THEN {"summary: " \o ToString(o)}
      ELSE Diff("number of signals", Len(o.sigs), Len(rows)) \cup Diff("number in the short table", Len(o.heads), Len(rows))
           \cup Diff("totals", o.tot, tot) \cup Diff("totals of the short table", o.brief, tot)
           \cup Diff("the array", o.pta, [a \in 1..Len(m.arr) |-> Psr(m, a).name])
           \cup Diff("collections", o.scs, [a \in 1..Len(m.arr) |-> [psr |-> Psr(m, a).name,
                       keys |-> [j \in 1..Len(m.arr[a].s) |-> SigId(m.sigs[m.arr[a].s[j]])]]])
           \cup (IF Len(o.sigs) # Len(rows) \/ Len(o.heads) # Len(rows) THEN {} ELSE UNION {one(k) : k \in 1..Len(rows)})
=============================================================================
