------------------------------ MODULE Refusal -------------------------------
(* Which requests are outside of what the library supports: these must be      *)
(* refused with an error, all others answered.                                 *)
EXTENDS Model
\* a value is a number, or a vector with one number per component
Nth(v, k) == IF v.many THEN v.v[k] ELSE v.v
Refused(x) ==
  CASE x.kind = "svd"      -> x.svd /\ x.normed # "true"             \* orthogonal columns are normalised already
    [] x.kind = "ecorr"    -> x.method \notin {"sparse", "sherman-morrison", "fast-sherman-morrison", "block"}
    [] x.kind = "linexp"   -> \E k \in 1..x.n : RLe(Nth(x.pmax, k), Nth(x.pmin, k))
    [] x.kind = "unnamed"  -> ~x.named                                \* densities belong to named parameters
    [] x.kind = "user"     -> CASE x.ask = "name" -> ~x.prior /\ ~x.logprior
                                [] x.ask = "sample" -> ~x.sampler
                                [] x.ask = "ppf" -> ~x.ppf
                                [] OTHER -> FALSE
    [] x.kind = "normal"   -> x.sigma = "matrix" /\ x.ask = "ppf"     \* no quantiles of a correlated vector
    [] x.kind = "method"   -> x.method \notin {"cliques", "partition", "sparse"}
    [] x.kind = "span"     -> x.coef /\ ~x.given                      \* coefficients need their basis at once
    [] x.kind = "local"    -> x.common                                \* a common process has no prior of one pulsar alone
    [] x.kind = "twice"    -> x.other \in {"marginal", "number", "text"}
    [] x.kind = "removed"  -> TRUE
    [] x.kind = "columns"  -> ~x.named                                \* parameters of the timing model need their pulsar
    [] x.kind = "shared"   -> \E a \in 1..Len(x.total) : x.total[a] > x.kept[a]     \* coefficients without own columns
=============================================================================
