------------------------------- MODULE FnGen --------------------------------
(* Calls of basis and spectrum functions: which arguments are given, and how. *)
(* TLC enumerates every combination; on a small fixed pulsar the reference    *)
(* functions are evaluated for each of them and must have the properties a    *)
(* Fourier basis and a spectrum have by definition.                           *)
EXTENDS Spectra, Json, IOUtils
VARIABLES c, todo
vars == <<c, todo>>

Common == <<"nmodes", "Tspan", "logf", "fmin", "fmax", "modes">>
Slots(f) ==
  CASE f = "red"   -> Common \o <<"pseed">>
    [] f = "dm"    -> Common \o <<"fref">>
    [] f = "dm_tn" -> Common \o <<"fref", "idx">>
    [] f = "chrom" -> Common \o <<"idx">>
    [] f = "env"   -> Common \o <<"log10_Amp", "log10_Q", "t0">>
    [] f = "ephem" -> <<"nmodes", "Tspan">>
    [] f = "general" -> Common \o <<"flagval", "psrTspan", "idx", "tndm", "pseed">>
    [] f \in {"powerlaw", "genmodes"} -> <<"components", "log10_A", "gamma">> \o (IF f = "genmodes" THEN <<"wgts">> ELSE <<>>)
    [] f = "turnover" -> <<"log10_A", "gamma", "lf0", "kappa", "beta">>
    [] f = "turnover_knee" -> <<"log10_A", "gamma", "lfb", "lfk", "kappa", "delta">>
    [] f = "broken" -> <<"log10_A", "gamma", "delta", "log10_fb", "kappa">>
    [] f = "free" -> <<"log10_rho">>
    [] f = "tproc" -> <<"log10_A", "gamma", "alphas">>
    [] f = "tproc_adapt" -> <<"log10_A", "gamma", "alphas_adapt", "nfreq">>
    [] f = "infinite" -> <<"nothing">>
Bases0 == {"red", "dm", "dm_tn", "chrom", "env", "ephem", "general"}
Specs0 == {"powerlaw", "genmodes", "turnover", "turnover_knee", "broken", "free", "tproc", "tproc_adapt", "infinite"}
IsBasis(f) == f \in Bases0
Needed(f) == CASE f = "turnover_knee" -> {"log10_A", "gamma", "lfb", "lfk", "kappa", "delta"}
               [] f = "broken" -> {"log10_A", "gamma", "delta", "log10_fb"}
               [] f = "free" -> {"log10_rho"} [] OTHER -> {}
\* ways of giving an argument: left out, None, a float, an integer, the one-mode case, a list, an array, ...
Ways(f, s) ==
  CASE s = "nmodes" -> {"out", "one", "few"}
    [] s = "Tspan"  -> {"out", "float", "int"}
    [] s \in {"logf", "tndm"} -> {"out", "true", "false"}
    [] s \in {"fmin", "fmax"} -> {"out", "float"}
    [] s = "modes"  -> {"out", "array", "list"}
    [] s = "pseed"  -> {"out", "int", "float"}
    [] s = "flagval" -> {"out", "value", "empty"}
    [] s = "psrTspan" -> {"out", "false"}
    [] s = "idx" /\ f = "general" -> {"out", "zero", "float", "int"}
    [] s = "components" -> {"out", "one", "few"}
    [] s \in {"wgts"} -> {"out", "array"}
    [] s \in {"log10_rho", "alphas", "alphas_adapt"} -> {"out", "array", "list"}
    [] s = "nfreq" -> {"out", "int", "float"}
    [] s = "nothing" -> {"out"}
    [] OTHER -> {"out", "float", "int"}
\* of bases other than the plain one, only some of the ways of the common arguments
Few(f, s) == IF IsBasis(f) /\ f # "red" /\ s \in {"logf", "modes", "Tspan", "nmodes", "pseed", "tndm"} THEN Ways(f, s) \ {"false", "list", "int", "one"} ELSE Ways(f, s)
Allowed(f, s, w, ch) ==
  /\ w = "out" => s \notin Needed(f)
  /\ (s \in {"fmin", "fmax"} /\ IsBasis(f) /\ f # "red" /\ w # "out") => ch["nmodes"] # "out"
  /\ (s = "modes" /\ w # "out") => (ch["fmin"] = "out" /\ ch["fmax"] = "out" /\ ch["logf"] # "true")
  /\ (s = "psrTspan" /\ w = "false") => ch["flagval"] = "value"
  /\ (s = "tndm" /\ w # "out") => ch["idx"] # "out"
  /\ (s = "nfreq" /\ w # "out") => ch["alphas_adapt"] # "out"
Init == \E f \in Bases0 \cup Specs0 : c = [f |-> f, ch |-> EmptyRec] /\ todo = Slots(f)
Choose == /\ todo # <<>>
          /\ \E w \in Few(c.f, Head(todo)) :
               /\ Allowed(c.f, Head(todo), w, c.ch)
               /\ c' = [c EXCEPT !.ch = [s \in DOMAIN @ \cup {Head(todo)} |-> IF s = Head(todo) THEN w ELSE @[s]]]
               /\ todo' = Tail(todo)
               /\ (Tail(todo) # <<>> \/ PrintT("SCN " \o ToJson([f |-> c'.f, ch |-> c'.ch, basis |-> IsBasis(c.f)])))
Next == Choose
Spec == Init /\ [][Next]_vars

(* ---- what the reference functions satisfy on a fixed pulsar ---------------- *)
P == [name |-> "X", toas |-> <<"4600000170", "4590000000", "4630000000.5", "4612345678">>, freqs |-> <<"1400", "820.5", "430", "2800">>,
      pos |-> <<"0.6", "0.64", "0.48">>, flags |-> [group |-> <<"a", "b", "a", "a">>]]
Lit(v) == [t |-> "lit", v |-> v]
Given1(f, s, w) ==
  CASE s = "nmodes" -> (IF w = "one" THEN 1 ELSE 3)
    [] s = "Tspan" -> "50000000"
    [] s \in {"logf", "tndm"} -> (w = "true")
    [] s = "fmin" -> "1.5e-8" [] s = "fmax" -> "9e-8"
    [] s = "modes" -> <<"1e-8", "1.7e-8", "4e-8">>
    [] s = "pseed" -> 7
    [] s = "flagval" -> (IF w = "value" THEN "a" ELSE "")
    [] s = "psrTspan" -> FALSE
    [] s = "idx" -> (IF w = "zero" THEN 0 ELSE IF w = "int" THEN 3 ELSE "2.5")
    [] s = "fref" -> 1000
    [] s = "components" -> (IF w = "one" THEN 1 ELSE 3)
    [] s = "log10_A" -> -14 [] s = "gamma" -> "3.5"
    [] s \in {"lf0", "lfb", "log10_fb"} -> "-8.2" [] s = "lfk" -> "-7.5"
    [] s \in {"kappa", "beta", "delta"} -> "0.7"
    [] s = "wgts" -> <<"1e-4", "2e-4", "1.5e-4", "1e-4", "1e-4", "1e-4">>
    [] s = "log10_rho" -> <<"-6", "-7", "-6.5">>
    [] s \in {"alphas", "alphas_adapt"} -> <<"2", "3", "4">>
    [] s = "nfreq" -> 1
    [] s = "log10_Amp" -> "-6.5" [] s = "log10_Q" -> "2.1" [] s = "t0" -> "4600000000"
Fs == [f |-> c.f, kw |-> [s \in {x \in DOMAIN c.ch : c.ch[x] # "out"} |-> Lit(Given1(c.f, s, c.ch[s]))]]
Env == [par |-> EmptyRec, c |-> EmptyRec]
Idx == [i \in 1..4 |-> i]
PhTab == [s \in {"270588252"} |-> [k \in 1..30 |-> RDiv(k, 5)]]
Done == todo = <<>>
B == TLCEval(BasisFn(P, Fs, "", Env, Idx, "", PhTab))
NearR(a, b) == RLe(RAbs(RSub(a, b)), RMul("1e-25", RAdd("1e-30", RAdd(RAbs(a), RAbs(b)))))
Per == IF c.f = "ephem" THEN 6 ELSE 2
BasisOk ==
  (Done /\ IsBasis(c.f)) =>
    LET b == B
        nm == Len(b.labels) \div Per
        Q(i) == LET s2 == Sq(b.cols[1][i])  k2 == Sq(b.cols[Per \div 2 + 1][i]) IN RAdd(s2, k2)
    IN  /\ Len(b.labels) = Per * nm /\ Len(b.cols) = Len(b.labels) /\ nm > 0
        \* every frequency once for each of its columns, increasing
        /\ \A k \in 1..nm : \A j \in 1..Per : REq(b.labels[Per * (k - 1) + j], b.labels[Per * (k - 1) + 1])
        /\ \A k \in 2..nm : RLt(b.labels[Per * (k - 2) + 1], b.labels[Per * (k - 1) + 1])
        \* sine and cosine: at every TOA all modes have the same norm
        /\ \A i \in 1..4 : \A k \in 1..nm :
              NearR(RAdd(Sq(b.cols[Per * (k - 1) + 1][i]), Sq(b.cols[Per * (k - 1) + Per \div 2 + 1][i])), Q(i))
        /\ (c.f = "red") => \A i \in 1..4 : NearR(Q(i), 1)
        \* without limits the modes are the multiples of the first
        /\ (\A s \in {"fmin", "fmax", "modes"} : s \notin DOMAIN c.ch \/ c.ch[s] = "out") /\ (("logf" \in DOMAIN c.ch) => c.ch["logf"] # "true")
             => \A k \in 1..nm : NearR(b.labels[Per * (k - 1) + 1], RMul(k, b.labels[1]))
        \* the limits are attained
        /\ ("fmin" \in DOMAIN c.ch /\ c.ch["fmin"] # "out") => NearR(b.labels[1], "1.5e-8")
        /\ ("fmax" \in DOMAIN c.ch /\ c.ch["fmax"] # "out" /\ nm > 1) => NearR(b.labels[Per * nm], "9e-8")
FGrid == <<"1e-8", "1e-8", "1e-8", "2e-8", "2e-8", "2e-8">>
FGrid2 == <<"1e-8", "1e-8", "2.5e-8", "2.5e-8", "3e-8", "3e-8">>
SpecOk ==
  (Done /\ ~IsBasis(c.f)) =>
    LET comp == IF "components" \in DOMAIN c.ch THEN c.ch["components"] ELSE "out"
        f == IF comp = "few" THEN FGrid ELSE IF comp = "one" THEN <<"1e-8", "2e-8", "2.5e-8", "3e-8", "4e-8", "5e-8">> ELSE FGrid2
        v == TLCEval(SpecFn(Fs, "", Env, f))
        n == IF comp = "few" THEN 3 ELSE IF comp = "one" THEN 1 ELSE 2
    IN  /\ Len(v) = 6 /\ \A k \in 1..6 : RLt(0, v[k])
        \* columns of one bin share the variance
        /\ \A k \in 1..6 : k % n # 1 /\ n > 1 => NearR(v[k], v[k - 1])
        \* amplitude squared
        /\ ("log10_A" \in DOMAIN c.ch /\ c.ch["log10_A"] # "out") =>
             LET g == [Fs EXCEPT !.kw["log10_A"] = Lit(-13)]
                 w == SpecFn(g, "", Env, f)
             IN  \A k \in 1..6 : NearR(w[k], RMul(100, v[k]))
        \* special cases: without a turnover or a break, a power law
        /\ (c.f = "turnover" /\ c.ch["beta"] # "out") =>
             LET g == [Fs EXCEPT !.kw["beta"] = Lit(0)]
                 h == [Fs EXCEPT !.f = "powerlaw", !.kw = [s \in {"log10_A", "gamma"} |-> Lit(IF s \in DOMAIN Fs.kw THEN Fs.kw[s].v ELSE IF s = "gamma" THEN "4.33" ELSE -15)]]
                 w == SpecFn(g, "", Env, f)  x == SpecFn(h, "", Env, f)
             IN  \A k \in 1..6 : NearR(w[k], x[k])
        /\ (c.f = "broken") =>
             LET g == [Fs EXCEPT !.kw["delta"] = Fs.kw["gamma"]]
                 h == [Fs EXCEPT !.f = "powerlaw", !.kw = [s \in {"log10_A", "gamma"} |-> Fs.kw[s]]]
                 w == SpecFn(g, "", Env, f)  x == SpecFn(h, "", Env, f)
             IN  \A k \in 1..6 : NearR(w[k], x[k])
Inv == BasisOk /\ SpecOk
=============================================================================
