------------------------------- MODULE Params -------------------------------
(* Parameter specifications, their names and their values.                    *)
(*   [t |-> "lit", v]                       a value                           *)
(*   [t |-> "par", pr, (name), (size)]      a free parameter with prior pr    *)
(*   [t |-> "const", (v), (name)]           a constant, default settable      *)
(*   [t |-> "fn", f, kw]                    a nested function                 *)
(* A parameter without its own name is called <prefix>_<keyword>.             *)
(* env.par: name -> value of free parameters;  env.c: name -> default set     *)
EXTENDS Util, LinAlg

PName(pre, kw, ps) == IF Has(ps, "name") THEN ps.name ELSE JoinNE(<<pre, kw>>)
\* functions that may be nested: arithmetic on their arguments
RECURSIVE Val(_, _, _, _)
LOCAL FArg(pre, kw, ps, a, env) ==
   Val(JoinNE(<<pre, kw>>), a, ps.kw[a], env)
Val(pre, kw, ps, env) ==
  CASE ps.t = "lit"   -> ps.v
    [] ps.t = "par"   -> env.par[PName(pre, kw, ps)]
    [] ps.t = "const" -> LET n == PName(pre, kw, ps)
                         IN  IF n \in DOMAIN env.par THEN env.par[n]
                             ELSE IF n \in DOMAIN env.c THEN env.c[n] ELSE ps.v
    [] ps.t = "fn"    -> CASE ps.f = "lin" -> RAdd(FArg(pre, kw, ps, "a", env), RMul(2, FArg(pre, kw, ps, "b", env)))

\* free parameters, as a set of records [name, size, pr]; hyperparameters included
RECURSIVE Free(_, _, _)
PriorFree(n, pr) ==
  UNION {Free(n, kw, pr.kw[kw]) : kw \in DOMAIN pr.kw}
Free(pre, kw, ps) ==
  CASE ps.t = "par" -> {[name |-> PName(pre, kw, ps), size |-> Get(ps, "size", 0), pr |-> ps.pr]}
                        \cup PriorFree(PName(pre, kw, ps), ps.pr)
    [] ps.t = "fn"  -> UNION {Free(JoinNE(<<pre, kw>>), a, ps.kw[a]) : a \in DOMAIN ps.kw}
    [] OTHER        -> {}
\* the same, without the hyperparameters of priors (what a signal lists)
RECURSIVE Direct(_, _, _)
Direct(pre, kw, ps) ==
  CASE ps.t = "par" -> {[name |-> PName(pre, kw, ps), size |-> Get(ps, "size", 0), pr |-> ps.pr]}
    [] ps.t = "fn"  -> UNION {Direct(JoinNE(<<pre, kw>>), a, ps.kw[a]) : a \in DOMAIN ps.kw}
    [] OTHER        -> {}
\* constants, as a set of records [name, rng] (rng: where the harness takes defaults from)
RECURSIVE Consts(_, _, _)
Consts(pre, kw, ps) ==
  CASE ps.t = "const" -> {[name |-> PName(pre, kw, ps), rng |-> Get(ps, "rng", <<>>), size |-> 0]}
    [] ps.t = "fn"    -> UNION {Consts(JoinNE(<<pre, kw>>), a, ps.kw[a]) : a \in DOMAIN ps.kw}
    [] OTHER          -> {}
\* arguments of a function [f, kw], with the default for those that are not given
Arg(fs, pre, kw, env, default) ==
  IF kw \in DOMAIN fs.kw /\ fs.kw[kw].t # "none" THEN Val(pre, kw, fs.kw[kw], env) ELSE default
Given(fs, kw) == kw \in DOMAIN fs.kw /\ fs.kw[kw].t # "none"
FnFree(fs, pre) == UNION {Free(pre, kw, fs.kw[kw]) : kw \in DOMAIN fs.kw}
FnDirect(fs, pre) == UNION {Direct(pre, kw, fs.kw[kw]) : kw \in DOMAIN fs.kw}
FnConsts(fs, pre) == UNION {Consts(pre, kw, fs.kw[kw]) : kw \in DOMAIN fs.kw}

\* names in order; vector parameters expanded
Expand(ps) == Concat([i \in 1..Len(ps) |->
                IF ps[i].size = 0 THEN <<ps[i].name>>
                ELSE [k \in 1..ps[i].size |-> ps[i].name \o "_" \o ToString(k - 1)]])
SortByName(S) == SetToSortSeq(S, LAMBDA a, b : StrLess(a.name, b.name))

(* ---- priors ------------------------------------------------------------ *)
PrDefault(d, kw) == CASE kw = "mu" -> 0 [] kw = "sigma" -> 1 [] kw = "pmin" -> -2 [] kw = "pmax" -> 2 [] OTHER -> 1
\* argument kw of prior pr of parameter n, element k of a vector parameter
PrArg(pr, n, kw, env, k) ==
  LET v == IF kw \in DOMAIN pr.kw THEN Val(n, kw, pr.kw[kw], env) ELSE PrDefault(pr.d, kw)
  IN  IF IsVector(v) THEN v[k] ELSE v
Pdf1(d, a(_), x) ==
  CASE d = "U"  -> IF RLe(a("pmin"), x) /\ RLe(x, a("pmax")) THEN RDiv(1, RSub(a("pmax"), a("pmin"))) ELSE R(0)
    [] d = "N"  -> LET z == RDiv(RSub(x, a("mu")), a("sigma"))
                   IN  RDiv(RExp(RMul("-0.5", RMul(z, z))), RMul(RSqrt(RMul(2, RPi)), a("sigma")))
    [] d = "LE" -> IF RLe(a("pmin"), x) /\ RLe(x, a("pmax"))
                   THEN RDiv(RMul(RLn(10), RPow10(x)), RSub(RPow10(a("pmax")), RPow10(a("pmin")))) ELSE R(0)
    [] d = "TN" -> IF RLt(a("pmin"), x) /\ RLt(x, a("pmax"))
                   THEN LET Ph(y) == RErf(RDiv(RSub(y, a("mu")), RMul(a("sigma"), RSqrt(2))))
                            z == RDiv(RSub(x, a("mu")), a("sigma"))
                            nz == RDiv(RSub(Ph(a("pmax")), Ph(a("pmin"))), 2)
                        IN  RDiv(RDiv(RExp(RMul("-0.5", RMul(z, z))), RMul(RSqrt(RMul(2, RPi)), a("sigma"))), nz)
                   ELSE R(0)
    [] d = "IG" -> \* inverse gamma with integer shape alpha
                   IF RLt(0, x)
                   THEN LET RECURSIVE Fact(_)
                            Fact(m) == IF m <= 1 THEN 1 ELSE m * Fact(m - 1)
                            al == a("alpha")  ga == a("gamma")
                        IN  RDiv(RMul(RMul(RPow(ga, al), RPow(x, RNeg(RAdd(al, 1)))), RExp(RNeg(RDiv(ga, x)))),
                                 Fact(RFloor(al) - 1))
                   ELSE R(0)
    [] d \in {"UE", "UL"} -> \* user-defined: exponential, given by its density or by its logarithm
                   IF RLe(0, x) THEN RMul(a("lam"), RExp(RNeg(RMul(a("lam"), x)))) ELSE R(0)
\* quantile function
Ppf1(d, a(_), q) ==
  CASE d = "U"  -> RAdd(a("pmin"), RMul(q, RSub(a("pmax"), a("pmin"))))
    [] d = "LE" -> RDiv(RLn(RAdd(RPow10(a("pmin")), RMul(q, RSub(RPow10(a("pmax")), RPow10(a("pmin")))))), RLn(10))
\* cumulative distribution
Cdf1(d, a(_), x) ==
  CASE d = "U"  -> RDiv(RSub(x, a("pmin")), RSub(a("pmax"), a("pmin")))
    [] d = "N"  -> RMul("0.5", RAdd(1, RErf(RDiv(RSub(x, a("mu")), RMul(a("sigma"), RSqrt(2))))))
    [] d = "LE" -> RDiv(RSub(RPow10(x), RPow10(a("pmin"))), RSub(RPow10(a("pmax")), RPow10(a("pmin"))))
    [] d = "TN" -> LET Ph(y) == RErf(RDiv(RSub(y, a("mu")), RMul(a("sigma"), RSqrt(2))))
                   IN  RDiv(RSub(Ph(x), Ph(a("pmin"))), RSub(Ph(a("pmax")), Ph(a("pmin"))))
    [] d = "IG" -> \* Q(alpha, gamma/x) for integer alpha
                   LET al == RFloor(a("alpha"))  y == RDiv(a("gamma"), x)
                       RECURSIVE S(_, _)
                       S(k, term) == IF k >= al THEN R(0) ELSE RAdd(term, S(k + 1, RDiv(RMul(term, y), k + 1)))
                   IN  RMul(RExp(RNeg(y)), S(0, R(1)))
    [] d \in {"UE", "UL"} -> RSub(1, RExp(RNeg(RMul(a("lam"), x))))
Support1(d, a(_), x) ==
  CASE d \in {"U", "LE", "TN"} -> RLe(a("pmin"), x) /\ RLe(x, a("pmax"))
    [] d = "IG" -> RLt(0, x)
    [] d \in {"UE", "UL"} -> RLe(0, x)
    [] OTHER -> TRUE
VecOf(x) == IF IsVector(x) THEN x ELSE <<x>>
\* normal distribution with a covariance matrix
IsCovNormal(p) == /\ p.pr.d = "N" /\ "sigma" \in DOMAIN p.pr.kw /\ p.pr.kw["sigma"].t = "lit"
                  /\ LET v == p.pr.kw["sigma"].v IN IsVector(v) /\ IsVector(v[1])
CovPdf(p, x, env) ==
  LET C == Val(p.name, "sigma", p.pr.kw["sigma"], env)
      q == Quad(RMat(C), RVec([k \in 1..Len(x) |-> RSub(x[k], PrArg(p.pr, p.name, "mu", env, k))]))
  IN  RExp(RMul("-0.5", RAdd(RAdd(q.q, q.ld), RMul(Len(x), RLn(RMul(2, RPi))))))
PdfOf(p, x, env) ==
  IF IsCovNormal(p) THEN CovPdf(p, x, env) ELSE
  LET xs == VecOf(x)
      RECURSIVE Prod(_)
      Prod(k) == IF k > Len(xs) THEN R(1)
                 ELSE RMul(Pdf1(p.pr.d, LAMBDA kw : R(PrArg(p.pr, p.name, kw, env, k)), R(xs[k])), Prod(k + 1))
  IN  Prod(1)
=============================================================================
