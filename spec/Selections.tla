----------------------------- MODULE Selections -----------------------------
(* Which TOAs every selection label stands for.                              *)
EXTENDS Util, RealNum
\* P: a pulsar, with toas, freqs, bf (backend flags), tel, flags; all in time order
LOCAL N(P) == Len(P.toas)
LOCAL All(P) == [i \in 1..N(P) |-> TRUE]
LOCAL Eq(col, v) == [i \in 1..Len(col) |-> col[i] = v]
LOCAL ByValue(col, keep(_)) == [v \in {x \in RangeOf(col) : keep(x)} |-> Eq(col, v)]
LOCAL AnyIn(v, names) == \E k \in 1..Len(names) : StrContains(v, names[k])
RECURSIVE VMax(_), VMin(_)
VMax(v) == IF Len(v) = 1 THEN R(v[1]) ELSE RMax(v[1], VMax(Tail(v)))
VMin(v) == IF Len(v) = 1 THEN R(v[1]) ELSE RMin(v[1], VMin(Tail(v)))
TMax(toas) == VMax(toas)
TMin(toas) == VMin(toas)
NanogravNames == <<"ASP", "GASP", "GUPPI", "PUPPI", "YUPPI", "CHIME", "VEGAS">>
EptaBands == [ b \in {"Band.1", "Band.2", "Band.3", "Band.4"} |->
               CASE b = "Band.1" -> <<0, 1000>>    [] b = "Band.2" -> <<1000, 2000>>
                 [] b = "Band.3" -> <<2000, 3000>> [] OTHER        -> <<3000, 10000>> ]
LOCAL FreqBand(P, bands) ==
  LET m(b) == [i \in 1..N(P) |-> RLe(bands[b][1], P.freqs[i]) /\ RLt(P.freqs[i], bands[b][2])]
  IN  [b \in {x \in DOMAIN bands : \E i \in 1..N(P) : m(x)[i]} |-> m(b)]
LOCAL FlagCol(P, f) == IF f = "backend" THEN P.bf ELSE P.flags[f]
LOCAL CustomDict(P, d) ==             \* d: flag -> [all |-> BOOLEAN, names |-> seq]
  LET keep(f, v) == d[f].all \/ AnyIn(v, d[f].names)
      labels == UNION {{v \in RangeOf(FlagCol(P, f)) : keep(f, v)} : f \in DOMAIN d}
      \* a label that occurs under several flags stands for the last flag listed
      lastflag(v) == CHOOSE f \in {g \in DOMAIN d : v \in RangeOf(FlagCol(P, g)) /\ keep(g, v)} :
                       \A g \in DOMAIN d : (v \in RangeOf(FlagCol(P, g)) /\ keep(g, v)) => d[g].pos <= d[f].pos
  IN  [v \in labels |-> Eq(FlagCol(P, lastflag(v)), v)]

\* label -> mask
MaskMap(s, P) ==
  CASE s.s = "none"      -> [k \in {""} |-> All(P)]
    [] s.s = "backend"   -> ByValue(P.bf, LAMBDA v : TRUE)
    [] s.s = "nanograv"  -> ByValue(P.bf, LAMBDA v : AnyIn(v, NanogravNames))
    [] s.s = "custom"    -> ByValue(P.bf, LAMBDA v : AnyIn(v, s.names))
    [] s.s = "customall" -> ByValue(P.bf, LAMBDA v : TRUE)
    [] s.s = "telescope" -> ByValue(P.tel, LAMBDA v : TRUE)
    [] s.s = "band"      -> ByValue(P.flags["B"], LAMBDA v : TRUE)
    [] s.s = "frontend"  -> ByValue(P.flags["fe"], LAMBDA v : TRUE)
    [] s.s = "dict"      -> CustomDict(P, s.dict)
    [] s.s = "freq"      -> FreqBand(P, IF Has(s, "bands") THEN s.bands ELSE EptaBands)
    [] s.s = "index"     -> [k \in {s.name} |-> [i \in 1..N(P) |-> \E j \in 1..Len(s.idx) : s.idx[j] = i - 1]]
    [] s.s = "half"      -> LET mid == RDiv(RAdd(TMax(P.toas), TMin(P.toas)), 2)
                                first == [i \in 1..N(P) |-> RLe(P.toas[i], mid)]
                            IN  [k \in {"t1", "t2"} |-> IF k = "t1" THEN first
                                                        ELSE [i \in 1..N(P) |-> ~first[i]]]
\* sequence of <<label, mask>>, labels in order
Masks(s, P) ==
  LET m == TLCEval(MaskMap(s, P))
      ks == SortStrings(DOMAIN m)
  IN  [k \in 1..Len(ks) |-> <<ks[k], TLCEval(m[ks[k]])>>]
=============================================================================
