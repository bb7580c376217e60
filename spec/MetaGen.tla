------------------------------- MODULE MetaGen -------------------------------
(* Every kind of description of a pulsar by a timing package.                  *)
EXTENDS Metadata, Json, IOUtils
VARIABLES x, done
vars == <<x, done>>
\* names in the catalogue of distances and not, with and without prefix, and names that contain the other prefix
Names == {[prefix |-> p, body |-> b] : p \in {"J", "B", ""}, b \in {"0030+0451", "1855+09", "1234+5678", "0024-7204B"}}
Releases == UNION {[1..k -> {"drop", "pickle"}] : k \in 0..3}
Cases == {c \in [pkg : {"t2", "pint"}, nm : Names, coords : {"eq", "ecl"}, astrofit : BOOLEAN, dm : {"none", "set", "fit"}, dmx : {"none", "one", "three"},
                 frozen : BOOLEAN, planets : BOOLEAN, hasplanets : BOOLEAN, keep : BOOLEAN, rel : Releases] :
            /\ (c.pkg = "t2" => c.hasplanets)
            /\ (c.frozen => c.pkg = "t2" /\ c.dmx = "three")
            /\ (c.dmx # "none" => c.dm # "none")
            /\ (c.rel # <<>> => c.coords = "eq" /\ c.dm = "none" /\ c.nm = [prefix |-> "J", body |-> "0030+0451"] /\ (c.planets => c.hasplanets))}
Init == x \in Cases /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ PrintT("SCN " \o ToJson(x))
Spec == Init /\ [][Next]_vars
(* rotations keep lengths and angles; the pole of the ecliptic and the equinox *)
Same(a, b) == RLe(RAbs(RSub(a, b)), "1e-60")
V == {RVec(<<1, 0, 0>>), RVec(<<"0.6", 0, "-0.8">>), RVec(<<"0.48", "0.64", "0.6">>)}
Rotations ==
  \A v, w \in V : /\ Same(RDot(Precess("-0.5", v), Precess("-0.5", w)), RDot(v, w))
                  /\ Same(RDot(TurnX(Deg("23.4392911"), v), TurnX(Deg("23.4392911"), w)), RDot(v, w))
                  /\ \A k \in 1..3 : Same(Precess(0, v)[k], v[k])
Src(p, b, c, lon, lat) == [prefix |-> p, body |-> b, coords |-> c, lon |-> [v |-> lon, u |-> "deg"], lat |-> [v |-> lat, u |-> "deg"], cat |-> <<>>]
Equinox == /\ Same(DirOf(Src("J", "", "ecl", 0, 0))[1], 1)
           /\ Same(DirOf(Src("J", "", "ecl", 0, 90))[3], RCos(Deg("23.4392911")))
           /\ Same(DirOf(Src("J", "", "eq", 0, 90))[3], 1)
\* half a century of precession along the equator is about 0.64 degrees
           /\ RLt("0.0111", RAbs(DirOf(Src("B", "", "ecl", 0, 0))[2])) /\ RLt(RAbs(DirOf(Src("B", "", "ecl", 0, 0))[2]), "0.0113")
\* nothing comes back, and nothing that a file cannot hold is left after saving
Releasing ==
  \A p \in {"t2", "pint"}, k \in BOOLEAN, ops \in Releases :
    LET src == [pkg |-> p, keep |-> k]
        all == KeptAfter(src, ops)
    IN  /\ (ops # <<>> => all \subseteq KeptAfter(src, SubSeq(ops, 1, Len(ops) - 1)))
        /\ ("drop" \in RangeOf(ops) => all = {})
        /\ ("pickle" \in RangeOf(ops) => all \cap {"t2pulsar", "model", "pint_toas"} = {})
ASSUME Rotations /\ Equinox /\ Releasing
=============================================================================
