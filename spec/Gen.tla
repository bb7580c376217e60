-------------------------------- MODULE Gen ---------------------------------
(* Composition sessions: a user adds pulsars, signal definitions and an array,*)
(* and then asks questions.  Behaviours of this specification, drawn by TLC,  *)
(* are the scenarios replayed against the implementation.  Everything here is *)
(* symbolic; the harness chooses the numbers.  PROFILE restricts the signals, *)
(* their options and the questions to those a property is about.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]
RangeSeq(s) == {s[i] : i \in 1..Len(s)}
Opt(f) == RangeSeq(Prof[f])
OptOr(f, d) == IF f \in DOMAIN Prof THEN RangeSeq(Prof[f]) ELSE d
NumOr(f, d) == IF f \in DOMAIN Prof THEN Prof[f] ELSE d

VARIABLES psrs, sigs, qs, phase
vars == <<psrs, sigs, qs, phase>>

(* ---- pulsars ----------------------------------------------------------------- *)
NPsr == OptOr("npsr", {1, 2})
PsrOf == [n : OptOr("ntoa", {6, 8, 9}),
          layout : OptOr("layout", {"pairs", "triples", "mixed", "single"}),
          order : OptOr("order", {"sorted", "shuffled"}),
          flags : OptOr("flags", {"one", "two", "three", "asym"}),
          freqs : OptOr("freqs", {"two", "many"}),
          ncol : OptOr("ncol", {2, 3}),
          where : OptOr("where", {"free"})]
AddPsr == /\ phase = "psrs" /\ \E n \in NPsr : Len(psrs) < n
          /\ \E p \in PsrOf : psrs' = Append(psrs, p)
          /\ UNCHANGED <<sigs, qs, phase>>
PsrsDone == /\ phase = "psrs" /\ Len(psrs) \in NPsr
            /\ phase' = "white" /\ UNCHANGED <<psrs, sigs, qs>>

(* ---- signals ------------------------------------------------------------------- *)
Sel == OptOr("sel", {"none", "backend", "band", "half", "telescope", "freq", "frontend", "custom"})
Part == OptOr("partsel", {"index", "custom1"})         \* selections that leave TOAs out
St == OptOr("style", {"par", "const", "inst"})         \* how a parameter is given
FSt == OptOr("fstyle", {"par", "const", "inst", "lit", "fn"})
For == {0} \cup (IF Len(psrs) > 1 THEN OptOr("only", {1, 2}) ELSE {})  \* 0: in every pulsar; k: in the k-th
Count(K) == Cardinality({i \in 1..Len(sigs) : sigs[i].k \in K})
NextName(k) == k \o ToString(Len(sigs))

\* the first signal gives every TOA some white noise
White == /\ phase = "white"
         /\ \E sel \in Sel, ef \in St, eq \in St \cup {"no"} :
              sigs' = Append(sigs, [k |-> "mn", sel |-> sel, efac |-> ef, eq |-> eq, name |-> "", for |-> 0])
         /\ phase' = "sigs" /\ UNCHANGED <<psrs, qs>>
KindsAllowed == Opt("kinds")
MaxOf(k) == IF "max" \in DOMAIN Prof /\ k \in DOMAIN Prof.max THEN Prof.max[k] ELSE 1
Kind(k) == phase = "sigs" /\ k \in KindsAllowed /\ Len(sigs) < Prof.nsig /\ Count({k}) < MaxOf(k)
Add(s) == sigs' = Append(sigs, s) /\ UNCHANGED <<psrs, qs, phase>>
AddMN == Kind("mn2") /\ \E sel \in Sel \cup Part, ef \in St, eq \in St \cup {"no"}, f \in For :
            Add([k |-> "mn2", sel |-> sel, efac |-> ef, eq |-> eq, name |-> NextName("w"), for |-> f])
AddTneq == Kind("tneq") /\ \E sel \in Sel \cup Part, eq \in St, f \in For :
            Add([k |-> "tneq", sel |-> sel, eq |-> eq, name |-> "", for |-> f])
AddEck == Kind("eck") /\ \E sel \in Sel \cup Part, ec \in St, f \in For,
                           me \in OptOr("method", {"sherman-morrison", "fast-sherman-morrison", "block", "sparse"}) :
            Add([k |-> "eck", sel |-> sel, ec |-> ec, method |-> me, name |-> "", for |-> f])
AddEcb == Kind("ecb") /\ \E sel \in Sel \cup Part, ec \in FSt \ {"fn", "lit"}, f \in For, co \in OptOr("coef", {FALSE}) :
            Add([k |-> "ecb", sel |-> sel, ec |-> ec, name |-> NextName("basis_ecorr"), for |-> f, coef |-> co])
AddGP == Kind("gp") /\ \E sel \in OptOr("gpsel", {"none", "backend", "half", "custom1"}),
                          b \in OptOr("basis", {"red", "dm", "chrom", "poly", "lininterp"}), st \in FSt,
                          comb \in OptOr("combine", {TRUE, FALSE}), f \in For, co \in OptOr("coef", {FALSE}) :
            /\ (sel # "none" => b \notin {"general", "lininterp"})
            /\ \E pr \in (IF b \in {"poly", "lininterp"} THEN OptOr("pprior", {"scale", "dense"})
                          ELSE OptOr("prior", {"powerlaw", "turnover", "free", "tproc", "broken"})),
               v \in (IF b \in {"chrom", "dm_tn", "env"} THEN OptOr("vary", {TRUE, FALSE}) ELSE {FALSE}) :
                 Add([k |-> "gp", sel |-> sel, basis |-> b, prior |-> pr, style |-> st, combine |-> comb,
                      name |-> NextName("gp"), for |-> f, coef |-> co,
                      vary |-> v])
AddTM == Kind("tm") /\ Count({"tm", "mtm"}) = 0 /\
         \E tm \in OptOr("tm", {"raw", "normed", "svd", "given"}), ex \in OptOr("exclude", {FALSE, TRUE}),
            f \in OptOr("tmfor", {0}), co \in OptOr("tmcoef", {FALSE}) :
            /\ (co => tm # "svd")       \* the orthonormal columns are any of many
            /\ Add([k |-> "tm", tm |-> tm, exclude |-> ex, name |-> "linear_timing_model", for |-> f, coef |-> co])
AddMTM == Kind("mtm") /\ Count({"tm", "mtm"}) = 0 /\
          \E tm \in OptOr("tm", {"raw", "normed", "svd", "given"}) :
            Add([k |-> "mtm", tm |-> tm, name |-> "marginalizing_linear_timing_model", for |-> 0])
AddCGP == Kind("cgp") /\ \E b \in OptOr("cbasis", {"red", "dm", "poly", "auto"}), st \in OptOr("cstyle", {"par", "const", "inst"}),
                            orf \in OptOr("orf", {"hd", "dipole", "monopole", "mix"}),
                            comb \in OptOr("ccombine", {TRUE}), f \in OptOr("cfor", {0, 12, 1}) :
            \E pr \in (IF b = "poly" THEN OptOr("pprior", {"scale"}) ELSE OptOr("cprior", {"powerlaw", "free"})) :
            Add([k |-> "cgp", basis |-> b, prior |-> pr, style |-> st, orf |-> orf, combine |-> comb,
                 name |-> NextName("gw"), for |-> f])
AddDet == Kind("det") /\ \E wf \in OptOr("wf", {"bwm", "ramp", "disp", "taylor", "drift"}), sel \in OptOr("detsel", {"none", "backend", "half", "custom1"}),
                            st \in FSt, f \in For :
            Add([k |-> "det", wf |-> wf, sel |-> sel, style |-> st, name |-> NextName("det"), for |-> f])
AddWtm == Kind("wtm") /\ Count({"tm", "mtm"}) = 0 /\
          \E sel \in Sel, ef \in St, eq \in St \cup {"no"}, ju \in St \cup {"no"}, jsel \in OptOr("jsel", {"backend", "half", "band"}),
             ref \in BOOLEAN, nbin \in {1, 2, 3}, edges \in {"edge", "mid", "gap"}, f \in For, fault \in OptOr("fault", {"no"}) :
            /\ (ref => ju # "no")
            /\ (fault \in {"overlap", "swap"} => nbin > 1)
            /\ Add([k |-> "wtm", sel |-> sel, efac |-> ef, eq |-> eq, jump |-> ju, jsel |-> jsel, ref |-> ref, nbin |-> nbin,
                    edges |-> edges, fault |-> fault, name |-> "wideband_timing_model", for |-> f])
AddEph == Kind("eph") /\ \E ep \in BOOLEAN, mo \in {"setIII", "orbel", "orbel-v2", "setIII_1980"}, st \in {"par", "const", "inst", "default"},
             nm \in {IF Count({"eph"}) = 0 THEN "" ELSE NextName("eph"), NextName("eph")}, f \in For :
            \* the default parameters carry the same names whichever signal makes them: one signal per model uses them
            /\ (st = "default" => \A i \in 1..Len(sigs) : sigs[i].k = "eph" => sigs[i].style # "default")
            /\ Add([k |-> "eph", epochs |-> ep, model |-> mo, style |-> st, name |-> nm, for |-> f])
AddPhys == Kind("phys") /\ \E f \in OptOr("cfor", {0, 12, 1}), mo \in {"setIII"} :
            Add([k |-> "phys", model |-> mo, name |-> "phys_ephem_gp", for |-> f])
SigsDone == /\ phase = "sigs" /\ Len(sigs) >= NumOr("minsig", 2) /\ phase' = "qs" /\ UNCHANGED <<psrs, sigs, qs>>

(* ---- questions -------------------------------------------------------------------- *)
Ask == /\ phase = "qs" /\ Len(qs) < Prof.nq
       /\ \E q \in Opt("q"), pt \in 1..NumOr("npt", 2) : qs' = Append(qs, [q |-> q, pt |-> pt])
       /\ UNCHANGED <<psrs, sigs, phase>>
Finish == /\ phase = "qs" /\ Len(qs) = Prof.nq
          /\ phase' = "done" /\ UNCHANGED <<psrs, sigs, qs>>
          /\ PrintT("SCN " \o ToJson([psrs |-> psrs, sigs |-> sigs, qs |-> qs]))
Init == psrs = <<>> /\ sigs = <<>> /\ qs = <<>> /\ phase = "psrs"
Next == AddPsr \/ PsrsDone \/ White \/ AddMN \/ AddTneq \/ AddEck \/ AddEcb \/ AddGP \/ AddTM \/ AddMTM
        \/ AddCGP \/ AddDet \/ AddWtm \/ AddEph \/ AddPhys \/ SigsDone \/ Ask \/ Finish
Spec == Init /\ [][Next]_vars
Bound == Len(psrs) <= 40
=============================================================================
