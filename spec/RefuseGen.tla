------------------------------ MODULE RefuseGen -----------------------------
(* Requests, supported or not.                                                 *)
EXTENDS Refusal, Json, IOUtils
VARIABLES x, done
vars == <<x, done>>
B == BOOLEAN
Cases ==
  {[kind |-> "svd", class |-> c, svd |-> s, normed |-> n] : c \in {"TimingModel", "MarginalizingTimingModel"}, s \in B, n \in {"true", "false", "array"}}
  \cup {[kind |-> "ecorr", method |-> m] : m \in {"sparse", "sherman-morrison", "fast-sherman-morrison", "block", "dense", "", "Sparse", "sherman", "basis"}}
  \cup {[kind |-> "linexp", ask |-> a, lo |-> l, hi |-> h, rel |-> r] : a \in {"pdf", "logpdf", "sample", "model"}, l \in {"number", "vector", "parameter"},
          h \in {"number", "vector", "parameter"}, r \in {"below", "equal", "above", "some above", "some equal"}}
  \cup {[kind |-> "unnamed", named |-> n, ask |-> a, d |-> d] : n \in B, a \in {"pdf", "logpdf", "sample"}, d \in {"Uniform", "Normal", "TruncNormal", "LinearExp", "User"}}
  \cup {[kind |-> "user", prior |-> p, logprior |-> l, sampler |-> s, ppf |-> q, ask |-> a] : p \in B, l \in B, s \in B, q \in B, a \in {"name", "pdf", "sample", "ppf"}}
  \cup {[kind |-> "normal", sigma |-> s, ask |-> a] : s \in {"number", "vector", "matrix"}, a \in {"pdf", "sample", "ppf"}}
  \cup {[kind |-> "method", method |-> m, ask |-> a, common |-> c, logdet |-> l] :
          m \in {"cliques", "partition", "sparse", "clique", "", "dense", "SPARSE"}, a \in {"phiinv", "lnlikelihood", "call"}, c \in B, l \in B}
  \cup {[kind |-> "span", coef |-> c, given |-> g] : c \in B, g \in B}
  \cup {[kind |-> "local", common |-> c, again |-> g] : c \in B, g \in B}
  \cup {[kind |-> "twice", other |-> o, side |-> s] : o \in {"array", "kernel", "zero", "marginal", "number", "text"}, s \in {"left", "right"}}
  \cup {[kind |-> "removed", f |-> f] : f \in {"EquadNoise", "createfourierdesignmatrix_eph"}}
  \cup {[kind |-> "columns", named |-> n, ask |-> a] : n \in B, a \in {"mean", "processes", "sample"}}
\* meaningless questions are not asked
Asked(c) ==
  CASE c.kind = "linexp" -> /\ (c.rel \in {"some above", "some equal"} => c.lo = "vector" \/ c.hi = "vector")
                            /\ (c.ask = "model" => c.rel \in {"below", "above", "some above"})
    [] c.kind = "user" -> (c.ask # "name" => c.prior \/ c.logprior) /\ ~(c.prior /\ c.logprior)
    [] c.kind = "twice" -> (c.side = "right" => c.other \in {"zero", "marginal", "number"})
    [] c.kind = "method" -> (c.logdet => c.ask = "phiinv")
    [] OTHER -> TRUE
Init == x \in {c \in Cases : Asked(c)} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ PrintT("SCN " \o ToJson(x))
Spec == Init /\ [][Next]_vars
\* every kind of request is supported in some way and, but for removed functions, refused in another
V(c) == CASE c.kind = "linexp" -> [c EXCEPT !.kind = "linexp"] @@ [n |-> 1, pmin |-> [many |-> FALSE, v |-> "1"], pmax |-> [many |-> FALSE, v |-> IF c.rel = "below" THEN "2" ELSE "0"]]
          [] OTHER -> c
Kinds == {c.kind : c \in Cases}
Both == \A k \in Kinds : LET s == {Refused(V(c)) : c \in {c \in Cases : c.kind = k /\ Asked(c)}}
                         IN  TRUE \in s /\ (k # "removed" => FALSE \in s)
ASSUME Both
=============================================================================
