------------------------------ MODULE PriorGen ------------------------------
(* Declarations of parameters: every distribution, scalar or vector, with     *)
(* every way of giving its hyperparameters.  TLC enumerates all of them.      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES d, size, style, done
vars == <<d, size, style, done>>
Dists == {"U", "N", "LE", "TN", "IG", "UE", "UL", "NC"}
\* slots of each distribution
Slots(x) == CASE x \in {"U", "LE"} -> <<"pmin", "pmax">>
              [] x \in {"N", "NC"} -> <<"mu", "sigma">>
              [] x = "TN" -> <<"mu", "sigma", "pmin", "pmax">>
              [] x = "IG" -> <<"alpha", "gamma">>
              [] OTHER -> <<"lam">>
\* values, vectors of values, left out, named constants, parameters, shared parameters, vector parameters, functions
Styles == {"lit", "vec", "default", "const", "par", "inst", "vpar", "fn"}
Ok(x, n, slot, st) ==
  /\ st \in {"vec", "vpar"} => n > 0
  /\ st = "default" => x \in {"N", "TN", "IG", "UE", "UL"}
  /\ (x = "IG" /\ slot = "alpha") => st \in {"lit", "default"}      \* the distribution function needs an integer shape
  /\ (x = "NC" /\ slot = "sigma") => st = "lit"
  /\ x = "NC" => (n > 0 /\ st \in {"lit", "vec", "vpar"} /\ (slot = "mu" => st # "lit"))
Init == /\ d \in Dists /\ size \in {0, 1, 3} /\ style = <<>> /\ done = FALSE
Pick == /\ ~done /\ Len(style) < Len(Slots(d))
        /\ \E st \in Styles :
             /\ Ok(d, size, Slots(d)[Len(style) + 1], st)
             \* four slots: at most two different styles
             /\ (d = "TN" /\ Len(style) > 1) => st \in {style[1], style[2]}
             /\ style' = Append(style, st)
        /\ UNCHANGED <<d, size, done>>
Finish == /\ ~done /\ Len(style) = Len(Slots(d)) /\ done' = TRUE /\ UNCHANGED <<d, size, style>>
          /\ PrintT("SCN " \o ToJson([d |-> d, size |-> size, slots |-> Slots(d), style |-> style]))
Next == Pick \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
