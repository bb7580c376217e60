---------------------------- MODULE PulsarTrace ------------------------------
(* Judges recorded histories of real pulsars: after every operation, all       *)
(* arrays the pulsar shows are the table in one order.                         *)
EXTENDS PulsarData, RealNum, LinAlg, Json, IOUtils
Scn == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, l, s, bad
vars == <<i, l, s, bad>>
Ev == Scn[i].ev[l + 1]
Near(x, y) == RLe(RAbs(RSub(x, y)), RAdd(RMul("1e-12", RAbs(x)), "1e-300")) \/ (RIsNaN(x) /\ RIsNaN(y))
NearV(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Near(x[k], y[k])
\* ecliptic vectors are shown in equatorial coordinates, three components at a time
Obl == RDiv(RMul("23.43704", RPi), 180)
Rot(v) == [k \in 1..Len(v) |-> CASE k % 3 = 1 -> R(v[k])
                                 [] k % 3 = 2 -> RSub(RMul(RCos(Obl), v[k]), RMul(RSin(Obl), v[k + 1]))
                                 [] OTHER -> RAdd(RMul(RSin(Obl), v[k - 1]), RMul(RCos(Obl), v[k]))]
Turn(v, ecl) == IF ecl THEN Rot(v) ELSE v
Views(x, st, o) ==
  LET tab == x.tab
      ord == Order(st, x.sort, tab)
      n == Len(ord)
      per(f, same(_, _), val(_)) == IF f \notin DOMAIN o THEN {"no " \o f}
                   ELSE IF Len(o[f]) # n THEN {f \o ": " \o ToString(Len(o[f])) \o " entries for " \o ToString(n) \o " TOAs"}
                   ELSE LET off == {k \in 1..n : ~same(val(ord[k]), o[f][k])}
                        IN  IF off = {} THEN {} ELSE {f \o " is not that of the TOA at " \o ToString(off)}
      eq(a, b) == a = b
      cols == SelectSeq(st.cols, LAMBDA c : TRUE)
  IN  IF o.k # "view" THEN {"no data: " \o ToString(o)}
      ELSE UNION {per("toas", Near, LAMBDA r : tab[r].toa), per("stoas", Near, LAMBDA r : tab[r].stoa), per("residuals", Near, LAMBDA r : tab[r].res),
                  per("toaerrs", Near, LAMBDA r : tab[r].err), per("freqs", Near, LAMBDA r : tab[r].freq), per("telescope", eq, LAMBDA r : tab[r].tel),
                  per("pos_t", NearV, LAMBDA r : Turn(tab[r].post, x.ecl)), per("planetssb", NearV, LAMBDA r : Turn(tab[r].pl, x.ecl)),
                  per("sunssb", NearV, LAMBDA r : Turn(tab[r].sun, x.ecl)),
                  per("Mmat", NearV, LAMBDA r : Pick(tab[r].M, cols)), per("backend_flags", eq, LAMBDA r : Backend(st, r))}
           \cup (IF o.fitpars = Pick(x.fit, cols) THEN {} ELSE {"fitpars " \o ToString(o.fitpars) \o " instead of " \o ToString(Pick(x.fit, cols))})
           \cup (IF DOMAIN o.flags = DOMAIN st.flags THEN {} ELSE {"flags " \o ToString(DOMAIN o.flags)})
           \cup {"flag " \o nm \o ": " \o ToString(o.flags[nm]) \o " instead of " \o ToString(Flag(st, ord, nm)) :
                 nm \in {nm \in DOMAIN o.flags \cap DOMAIN st.flags : o.flags[nm] # Flag(st, ord, nm)}}
           \* isort lists stored positions in the order shown, iisort is its inverse
           \cup (IF RangeOf(o.isort) = 0..(n - 1) /\ Len(o.isort) = n /\ \A k \in 1..n : o.iisort[o.isort[k] + 1] = k - 1 THEN {} ELSE {"isort and iisort"})
           \* directions: unit vector, angles and position agree
           \cup (IF RLe(RAbs(RSub(RDot(o.pos, o.pos), 1)), "1e-12") /\ NearV(<<RMul(RSin(o.theta), RCos(o.phi)), RMul(RSin(o.theta), RSin(o.phi)), RCos(o.theta)>>, o.pos)
                 THEN {} ELSE {"pos, theta and phi disagree"})
           \cup (LET p == Turn(x.pos, x.ecl) IN IF \A k \in 1..3 : RLe(RAbs(RSub(p[k], o.pos[k])), IF x.ecl THEN "2e-4" ELSE "1e-12") THEN {}
                 ELSE {"pos " \o ToString(o.pos) \o " instead of " \o ToString([k \in 1..3 |-> RShow(p[k])])})
Init == i \in 1..Len(Scn) /\ l = 0 /\ s = New(Scn[i].tab) /\ bad = {}
\* flags kept in a record array cannot be set
Refused == Ev.op = "set" /\ Ev.obs.k = "unsupported" /\ Scn[i].kind = "t2"
Next ==
  /\ l < Len(Scn[i].ev)
  /\ l' = l + 1 /\ i' = i
  /\ s' = IF Refused THEN s ELSE Do(s, Scn[i].sort, Scn[i].tab, Ev)
  /\ bad' = IF Refused THEN {} ELSE Views(Scn[i], s', Ev.obs)
  /\ bad' = {} \/ PrintT("BAD " \o ToJson([id |-> Scn[i].id, ev |-> l + 1, bad |-> SetToSeq(bad')]))
Spec == Init /\ [][Next]_vars
=============================================================================
