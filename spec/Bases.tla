------------------------------- MODULE Bases --------------------------------
(* Basis functions.  A basis is [cols, labels]: a sequence of columns over    *)
(* the selected TOAs, and the label (frequency, ...) of every column.         *)
EXTENDS Params, LinAlg, Selections

RVal(x) == R(x)
TwoPi == RMul(2, RPi)
Sq(x) == RMul(x, x)

(* ---- frequencies implied by the arguments ------------------------------- *)
Freqs(toas, fs, pre, env, tspan) ==
  LET T == IF Given(fs, "Tspan") THEN R(Arg(fs, pre, "Tspan", env, 0))
           ELSE IF tspan # "" THEN R(tspan) ELSE RSub(TMax(toas), TMin(toas))
      n == Arg(fs, pre, "nmodes", env, 30)
      logf == Arg(fs, pre, "logf", env, FALSE)
      f1 == IF Given(fs, "fmin") THEN R(Arg(fs, pre, "fmin", env, 0)) ELSE RDiv(1, T)
      f2 == IF Given(fs, "fmax") THEN R(Arg(fs, pre, "fmax", env, 0)) ELSE RDiv(n, T)
      frac(k) == IF n = 1 THEN R(0) ELSE RDiv(k - 1, n - 1)
  IN  IF Given(fs, "modes") THEN RVec(Arg(fs, pre, "modes", env, <<>>))
      ELSE IF ~Given(fs, "fmin") /\ ~Given(fs, "fmax") /\ ~logf
           THEN RVec([k \in 1..n |-> RDiv(k, T)])
      ELSE IF logf
           THEN LET l1 == RLn(f1)  l2 == RLn(f2)
                IN  RVec([k \in 1..n |-> RExp(RAdd(l1, RMul(frac(k), RSub(l2, l1))))])
      ELSE RVec([k \in 1..n |-> RAdd(f1, RMul(frac(k), RSub(f2, f1)))])

\* phases: seeds -> reproducible uniform phases on [0, 2 pi), given with the scenario
Phases(toas, fs, pre, env, n, phtab) ==
  IF Given(fs, "pseed")
  THEN LET seed == ToString(RTrunc(RDiv(toas[1], 17)) + Arg(fs, pre, "pseed", env, 0))
       IN  [k \in 1..n |-> phtab[seed][k]]
  ELSE [k \in 1..n |-> 0]

Fourier(toas, f, ph) ==
  LET n == Len(f)
      arg(k) == RVec([i \in 1..Len(toas) |-> RAdd(RMul(RMul(TwoPi, toas[i]), f[k]), ph[k])])
  IN  [cols |-> Concat([k \in 1..n |->
                  LET a == arg(k)
                  IN  << RVec([i \in 1..Len(toas) |-> RSin(a[i])]),
                         RVec([i \in 1..Len(toas) |-> RCos(a[i])]) >>]),
       labels |-> Concat([k \in 1..n |-> <<f[k], f[k]>>])]
ScaleRows(b, w) == [cols |-> TLCEval([k \in 1..Len(b.cols) |-> RVMul(b.cols[k], w)]), labels |-> b.labels]

TnNorm == RDiv(RMul(RSqrt(12), RPi), RMul(RMul(1400, 1400), "2.41e-4"))

(* ---- epochs -------------------------------------------------------------- *)
\* TOAs in time order (stable), grouped: a TOA joins the open epoch if it is less than
\* dt after the first TOA of the epoch; epochs with at least nmin TOAs count.
TimeOrder(toas) == SetToSortSeq(1..Len(toas),
                      LAMBDA i, j : RLt(toas[i], toas[j]) \/ (REq(toas[i], toas[j]) /\ i < j))
RECURSIVE Buckets(_, _, _, _, _)
Buckets(toas, ord, k, dt, acc) ==
  IF k > Len(ord) THEN acc
  ELSE IF acc # <<>> /\ RLt(RSub(toas[ord[k]], toas[acc[Len(acc)][1]]), dt)
       THEN Buckets(toas, ord, k + 1, dt, [acc EXCEPT ![Len(acc)] = Append(@, ord[k])])
       ELSE Buckets(toas, ord, k + 1, dt, Append(acc, <<ord[k]>>))
Epochs(toas, dt, nmin) == SelectSeq(Buckets(toas, TimeOrder(toas), 1, dt, <<>>), LAMBDA b : Len(b) >= nmin)

(* ---- linear interpolation basis ------------------------------------------ *)
LinInterp(toas, dt) ==
  LET t0 == TMin(toas)  tm == TMax(toas)
      \* nodes t0, t0 + dt, ... strictly below tm + dt
      RECURSIVE NN(_)
      NN(k) == IF RLt(RAdd(t0, RMul(k, dt)), RAdd(tm, dt)) THEN NN(k + 1) ELSE k
      nn == NN(0)
      x == [k \in 1..nn |-> RAdd(t0, RMul(k - 1, dt))]
      tent(k, t) == LET u == RDiv(RAbs(RSub(t, x[k])), dt) IN IF RLt(u, 1) THEN RSub(1, u) ELSE R(0)
      cols == [k \in 1..nn |-> RVec([i \in 1..Len(toas) |-> tent(k, toas[i])])]
      keep == SelectSeq([k \in 1..nn |-> k], LAMBDA k : \E i \in 1..Len(toas) : RLt(0, cols[k][i]))
  IN  [cols |-> TLCEval(Pick(cols, keep)), labels |-> RVec(Pick(x, keep))]

(* ---- timing model --------------------------------------------------------- *)
Norm(v) == RSqrt(RDot(v, v))
TMCols(P, fs, idx) ==                      \* kept columns of the design matrix, selected rows
  LET ex == Get(fs, "exclude", <<>>)
      keep == SelectSeq([j \in 1..NCols(P.M) |-> j], LAMBDA j : \A e \in 1..Len(ex) : ex[e] # j - 1)
  IN  TLCEval([k \in 1..Len(keep) |-> RVec([i \in 1..Len(idx) |-> P.M[idx[i]][keep[k]]])])
\* an orthonormal basis of the span of linearly independent columns
RECURSIVE GSStep(_, _)
GSStep(todo, done) ==
  IF todo = <<>> THEN done
  ELSE LET RECURSIVE Red(_, _)
           Red(v, k) == IF k > Len(done) THEN v ELSE Red(RAxpy(RNeg(RDot(v, done[k])), done[k], v), k + 1)
           u == Red(Head(todo), 1)
       IN  GSStep(Tail(todo), Append(done, RScale(RDiv(1, Norm(u)), u)))
GramSchmidt(c) == TLCEval(GSStep(c, <<>>))
TMBasis(P, fs, idx) ==
  LET c == TMCols(P, fs, idx)
      normed(k) == LET nk == Norm(c[k]) IN IF REq(nk, 0) THEN c[k] ELSE RScale(RDiv(1, nk), c[k])
      given(k) == IF REq(fs.norms[k], 0) THEN Zeros(Len(idx)) ELSE RScale(RDiv(1, fs.norms[k]), c[k])
      one == [k \in 1..Len(c) |-> R(1)]
  IN  CASE fs.tm = "raw"    -> [cols |-> c, labels |-> one]
        [] fs.tm = "normed" -> [cols |-> TLCEval([k \in 1..Len(c) |-> normed(k)]), labels |-> one]
        [] fs.tm = "svd"    -> [cols |-> GramSchmidt(c), labels |-> one]
        [] fs.tm = "given"  -> [cols |-> TLCEval([k \in 1..Len(c) |-> given(k)]), labels |-> one]

(* ---- evaluation of a basis function on the selected TOAs idx of P ---------- *)
\* tspan: "" or the span imposed from outside
BasisFn(P, fs, pre, env, idx, tspan, phtab) ==
  LET toas == Pick(P.toas, idx)
      fr == RVec(Pick(P.freqs, idx))
      f == Freqs(toas, fs, pre, env, tspan)
      base == Fourier(toas, f, Phases(toas, fs, pre, env, Len(f), phtab))
      pw(ref, ix) == RVec([i \in 1..Len(idx) |-> RPow(RDiv(ref, fr[i]), ix)])
      ne == Len(idx)
  IN
  CASE fs.f = "red" -> base
    [] fs.f = "dm"  -> ScaleRows(base, pw(Arg(fs, pre, "fref", env, 1400), 2))
    [] fs.f = "dm_tn" -> ScaleRows(base, RScale(TnNorm, pw(Arg(fs, pre, "fref", env, 1400), Arg(fs, pre, "idx", env, 2))))
    [] fs.f = "chrom" -> ScaleRows(base, pw(1400, Arg(fs, pre, "idx", env, 4)))
    [] fs.f = "env" ->
         LET A == RPow10(Arg(fs, pre, "log10_Amp", env, -7))
             Q == RMul(IF Given(fs, "log10_Q") THEN RPow10(Arg(fs, pre, "log10_Q", env, 0)) ELSE 300, 86400)
             t0 == Arg(fs, pre, "t0", env, RMul(53000, 86400))
         IN  ScaleRows(base, RVec([i \in 1..ne |->
               RMul(A, RExp(RNeg(RDiv(Sq(RSub(toas[i], t0)), RMul(2, Sq(Q))))))]))
    [] fs.f = "ephem" ->
         [cols |-> Concat([k \in 1..Len(base.cols) |-> [a \in 1..3 |-> RScale(P.pos[a], base.cols[k])]]),
          labels |-> Concat([k \in 1..Len(base.labels) |-> [a \in 1..3 |-> base.labels[k]]])]
    [] fs.f = "general" ->
         LET fl == IF Given(fs, "flagval") THEN Arg(fs, pre, "flagval", env, "") ELSE ""
             fcol == IF fl = "" THEN <<>> ELSE Pick(P.flags[Arg(fs, pre, "flagname", env, "group")], idx)
             sub == IF fl # "" /\ ~Arg(fs, pre, "psrTspan", env, TRUE)
                    THEN LET st == Pick(toas, SelectSeq([i \in 1..ne |-> i], LAMBDA i : fcol[i] = fl))
                         IN  Fourier(toas, TLCEval(Freqs(st, [fs EXCEPT !.kw = [x \in DOMAIN @ \ {"Tspan"} |-> @[x]]], pre, env, "")),
                                     Phases(toas, fs, pre, env, Len(f), phtab))
                    ELSE base
             ix == IF Given(fs, "idx") THEN Arg(fs, pre, "idx", env, 0) ELSE 0
             chrom == IF REq(ix, 0) THEN sub
                      ELSE ScaleRows(sub, IF Arg(fs, pre, "tndm", env, FALSE) THEN RScale(TnNorm, pw(1400, ix)) ELSE pw(1400, ix))
         IN  IF fl = "" THEN chrom
             ELSE ScaleRows(chrom, RVec([i \in 1..ne |-> IF fcol[i] = fl THEN 1 ELSE 0]))
    [] fs.f = "lininterp" -> LinInterp(toas, Arg(fs, pre, "dt", env, 2592000))
    [] fs.f = "quant" ->
         LET ep == Epochs(toas, Arg(fs, pre, "dt", env, 1), Arg(fs, pre, "nmin", env, 2))
         IN  [cols |-> TLCEval([k \in 1..Len(ep) |-> RVec([i \in 1..ne |-> IF i \in RangeOf(ep[k]) THEN 1 ELSE 0])]),
              labels |-> [k \in 1..Len(ep) |-> R(1)]]
    [] fs.f = "poly" ->         \* columns given with the scenario
         [cols |-> TLCEval([k \in 1..Len(fs.cols) |-> RScale(Arg(fs, pre, "c", env, 1), RVec(Pick(fs.cols[k], idx)))]),
          labels |-> RVec(fs.labels)]
    [] fs.f = "tm" -> TMBasis(P, fs, idx)
=============================================================================
