------------------------------ MODULE Metadata -------------------------------
(* What a pulsar knows besides its arrays, from what the timing package says:  *)
(* every quantity comes with a unit, directions in equatorial or ecliptic      *)
(* coordinates, parameters by name.                                            *)
EXTENDS LinAlg, Util
UnitOf(u) == CASE u \in {"s", "MHz", "rad", "lts", ""} -> R(1) [] u = "us" -> R("1e-6") [] u = "ms" -> R("1e-3") [] u = "d" -> R(86400) [] u = "Hz" -> R("1e-6")
              [] u = "deg" -> RDiv(RPi, 180) [] u = "hourangle" -> RDiv(RPi, 12) [] u = "km" -> RDiv(1, "299792.458") [] u = "m" -> RDiv(1, "299792458")
In(q) == RMul(q.v, UnitOf(q.u))
InV(q) == RVec([k \in 1..Len(q.v) |-> RMul(q.v[k], UnitOf(q.u))])
UnitVec(lon, lat) == RVec(<<RMul(RCos(lon), RCos(lat)), RMul(RSin(lon), RCos(lat)), RSin(lat)>>)
TurnX(eps, v) == RVec(<<v[1], RSub(RMul(RCos(eps), v[2]), RMul(RSin(eps), v[3])), RAdd(RMul(RSin(eps), v[2]), RMul(RCos(eps), v[3]))>>)
TurnZ(a, v) == RVec(<<RSub(RMul(RCos(a), v[1]), RMul(RSin(a), v[2])), RAdd(RMul(RSin(a), v[1]), RMul(RCos(a), v[2])), v[3]>>)
TurnY(a, v) == RVec(<<RAdd(RMul(RCos(a), v[1]), RMul(RSin(a), v[3])), v[2], RSub(RMul(RCos(a), v[3]), RMul(RSin(a), v[1]))>>)
Deg(x) == RDiv(RMul(x, RPi), 180)
\* precession of the equator from 2000 by t centuries (IAU 1976)
Poly3(a, b, c, t) == Deg(RMul(t, RAdd(a, RMul(t, RAdd(b, RMul(t, c))))))
Precess(t, v) == TurnZ(Poly3("0.6406161", "0.0003041", "0.0000051", t),
                       TurnY(RNeg(Poly3("0.5567530", "-0.0001185", "-0.0000116", t)),
                             TurnZ(Poly3("0.6406161", "0.0000839", "0.0000050", t), v)))
\* B names are referred to the equinox of 1950
DirOf(x) ==
  LET v == UnitVec(In(x.lon), In(x.lat)) IN
  IF x.coords = "eq" THEN v
  ELSE LET e == TurnX(Deg("23.4392911"), v) IN IF x.prefix = "B" THEN Precess("-0.5", e) ELSE e
MdName(x) == x.prefix \o x.body
DistOf(x) ==
  LET find(n) == {k \in 1..Len(x.cat) : x.cat[k].name = n}
      hits == IF x.prefix # "" THEN find(MdName(x)) ELSE IF find("J" \o x.body) # {} THEN find("J" \o x.body) ELSE find("B" \o x.body)
  IN  IF hits = {} THEN <<"1", "0.2">> ELSE LET c == x.cat[CHOOSE k \in hits : TRUE] IN <<c.d, c.e>>
FitOf(x) == <<"Offset">> \o x.fit
SetOf(x) == SelectSeq(x.set, LAMBDA p : p \notin RangeOf(FitOf(x)))
\* every flag that an observation has, with its value there; empty for the observations without it
FlagNamesOf(x) == SortStrings(UNION {{x.flags[i][k].f : k \in 1..Len(x.flags[i])} : i \in 1..Len(x.flags)})
FlagVal(row, f) == LET hits == {k \in 1..Len(row) : row[k].f = f} IN IF hits = {} THEN "" ELSE row[CHOOSE k \in hits : TRUE].v
FlagsOf(x) == LET ks == FlagNamesOf(x) IN [k \in 1..Len(ks) |-> [f |-> ks[k], v |-> [i \in 1..Len(x.flags) |-> FlagVal(x.flags[i], ks[k])]]]
\* a timing package that does not give the planets cannot be asked for them
MdImpossible(x) == x.planets /\ ~x.hasplanets
(* What is kept of the timing package. Releasing it gives up everything that is *)
(* left of it, saving the pulsar what no file can hold; both any number of times.*)
KeptFirst(x) == IF ~x.keep THEN {} ELSE IF x.pkg = "t2" THEN {"t2pulsar"} ELSE {"model", "parfile", "pint_toas", "timfile"}
KeptNext(kept, op) == CASE op = "drop" -> {} [] op = "pickle" -> kept \ {"t2pulsar", "model", "pint_toas"}
RECURSIVE KeptAfter(_, _)
KeptAfter(x, ops) == IF ops = <<>> THEN KeptFirst(x) ELSE KeptNext(KeptAfter(x, SubSeq(ops, 1, Len(ops) - 1)), ops[Len(ops)])
=============================================================================
