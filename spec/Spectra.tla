------------------------------ MODULE Spectra -------------------------------
(* Prior variances of basis coefficients, from the labels of the columns.     *)
EXTENDS Bases
Fyr == RDiv(1, "31557600")
\* width of the frequency bin of each column, when every bin has c columns
BinWidth(f, c) ==
  [k \in 1..Len(f) |-> LET b == (k - 1) \div c
                       IN  IF b = 0 THEN R(f[1]) ELSE RSub(f[b * c + 1], f[(b - 1) * c + 1])]
HcVar(hc, f, df) == RDiv(RMul(RMul(hc, hc), df), RMul(RMul(12, RMul(RPi, RPi)), RMul(f, RMul(f, f))))
Amp(fs, pre, env, d) == RPow10(Arg(fs, pre, "log10_A", env, d))
PowerLaw(f, A, gamma, df) ==
  RMul(RMul(RDiv(RMul(A, A), RMul(12, RMul(RPi, RPi))), RMul(RPow(Fyr, RSub(gamma, 3)), RPow(f, RNeg(gamma)))), df)
HcPower(fs, pre, env, A, f, gamma) == RMul(A, RPow(RDiv(f, Fyr), RDiv(RSub(3, gamma), 2)))
Pair(k) == (k + 1) \div 2
Round(x) == RFloor(RAdd(x, "0.5"))

SpecFn(fs, pre, env, f) ==
  LET n == Len(f)
      a(kw, d) == Arg(fs, pre, kw, env, d)
      df == BinWidth(f, IF fs.f \in {"powerlaw", "genmodes"} THEN a("components", 2) ELSE 2)
      map(g(_)) == RVec([k \in 1..n |-> g(k)])
  IN
  CASE fs.f = "powerlaw" -> LET A == Amp(fs, pre, env, -16)  g == a("gamma", 5) IN map(LAMBDA k : PowerLaw(f[k], A, g, df[k]))
    [] fs.f = "genmodes" ->
         LET A == Amp(fs, pre, env, -16)  g == a("gamma", 5)
             w == IF Given(fs, "wgts") THEN Arg(fs, pre, "wgts", env, <<>>) ELSE <<>>
         IN  map(LAMBDA k : PowerLaw(f[k], A, g, IF w = <<>> THEN df[k] ELSE Sq(w[((k - 1) \div a("components", 2)) + 1])))
    [] fs.f = "turnover" ->
         LET A == Amp(fs, pre, env, -15)  g == a("gamma", "4.33")  f0 == RPow10(a("lf0", "-8.5"))
             kap == a("kappa", RDiv(10, 3))  be == a("beta", "0.5")
         IN  map(LAMBDA k : HcVar(RDiv(HcPower(fs, pre, env, A, f[k], g),
                                       RPow(RAdd(1, RPow(RDiv(f0, f[k]), kap)), be)), f[k], df[k]))
    [] fs.f = "turnover_knee" ->
         LET A == Amp(fs, pre, env, 0)  g == a("gamma", 0)  fb == RPow10(a("lfb", 0))  fk == RPow10(a("lfk", 0))
         IN  map(LAMBDA k : HcVar(RDiv(RMul(HcPower(fs, pre, env, A, f[k], g), RPow(RAdd(1, RDiv(f[k], fk)), a("delta", 0))),
                                       RSqrt(RAdd(1, RPow(RDiv(fb, f[k]), a("kappa", 0))))), f[k], df[k]))
    [] fs.f = "broken" ->
         LET A == Amp(fs, pre, env, 0)  g == a("gamma", 0)  fb == RPow10(a("log10_fb", 0))  ka == a("kappa", "0.1")
         IN  map(LAMBDA k : HcVar(RMul(HcPower(fs, pre, env, A, f[k], g),
                     RPow(RAdd(1, RPow(RDiv(f[k], fb), RDiv(1, ka))), RMul(ka, RDiv(RSub(g, a("delta", 0)), 2)))), f[k], df[k]))
    [] fs.f = "free" -> LET rho == VecOf(a("log10_rho", <<>>)) IN map(LAMBDA k : RPow10(RMul(2, rho[Pair(k)])))
    [] fs.f = "tproc" ->
         LET A == Amp(fs, pre, env, -15)  g == a("gamma", "4.33")
             al == IF Given(fs, "alphas") THEN VecOf(a("alphas", <<>>)) ELSE <<>>
         IN  map(LAMBDA k : RMul(PowerLaw(f[k], A, g, df[k]), IF al = <<>> THEN 1 ELSE al[Pair(k)]))
    [] fs.f = "tproc_adapt" ->
         LET A == Amp(fs, pre, env, -15)  g == a("gamma", "4.33")
             al == IF Given(fs, "alphas_adapt") THEN VecOf(a("alphas_adapt", <<>>)) ELSE <<>>
             nf == IF Given(fs, "nfreq") THEN Round(a("nfreq", 0)) ELSE -1
             w(k) == IF al = <<>> THEN R(1)
                     ELSE IF nf = -1 THEN R(al[Pair(k)])
                     ELSE IF k \in {2 * nf + 1, 2 * nf + 2} THEN R(al[1]) ELSE R(1)
         IN  map(LAMBDA k : RMul(PowerLaw(f[k], A, g, df[k]), w(k)))
    [] fs.f = "infinite" -> map(LAMBDA k : "1e40")
    [] fs.f = "tmprior"  -> map(LAMBDA k : RMul("1e40", f[k]))
    [] fs.f = "ecorr"    -> LET e == RPow10(RMul(2, a("log10_ecorr", -8))) IN map(LAMBDA k : RMul(f[k], e))
    [] fs.f = "sigma2"   -> map(LAMBDA k : Sq(f[k]))
    [] fs.f = "scale"    -> LET s == a("s", 1) IN map(LAMBDA k : RMul(f[k], Sq(s)))

\* priors that are not diagonal: rows
IsDense(fs) == fs.f = "dense"
DenseFn(fs, pre, env, f) ==          \* s^2 (I + rho on off-diagonals) scaled by labels
  LET s == Arg(fs, pre, "s", env, 1)  rho == Arg(fs, pre, "rho", env, 0)  n == Len(f)
  IN  TLCEval([i \in 1..n |-> RVec([j \in 1..n |->
         RMul(RMul(Sq(s), RSqrt(RMul(f[i], f[j]))), IF i = j THEN 1 ELSE rho)])])
=============================================================================
