------------------------------- MODULE LinAlg -------------------------------
(* Dense linear algebra on sequences of rows, over RealNum.                  *)
EXTENDS RealNum, TLC, Naturals, Sequences

Zeros(n) == TLCEval([i \in 1..n |-> R(0)])
Ones(n)  == TLCEval([i \in 1..n |-> R(1)])
Unit(n, k) == TLCEval([i \in 1..n |-> IF i = k THEN R(1) ELSE R(0)])
ZeroMat(n, m) == TLCEval([i \in 1..n |-> Zeros(m)])
Identity(n) == TLCEval([i \in 1..n |-> Unit(n, i)])
DiagMat(d)  == TLCEval([i \in 1..Len(d) |-> RScale(d[i], Unit(Len(d), i))])
RMat(m) == TLCEval([i \in 1..Len(m) |-> RVec(m[i])])
NRows(m) == Len(m)
NCols(m) == IF Len(m) = 0 THEN 0 ELSE Len(m[1])
Transpose(m) == TLCEval([j \in 1..NCols(m) |-> RVec([i \in 1..Len(m) |-> m[i][j]])])
MatAdd(a, b) == TLCEval([i \in 1..Len(a) |-> RVAdd(a[i], b[i])])
MatScale(c, a) == TLCEval([i \in 1..Len(a) |-> RScale(c, a[i])])
MatVec(a, x) == TLCEval([i \in 1..Len(a) |-> RDot(a[i], x)])
\* a . b^T for matrices given by rows
MatMulT(a, b) == TLCEval([i \in 1..Len(a) |-> RVec([j \in 1..Len(b) |-> RDot(a[i], b[j])])])
\* sum of w[k] * cols[k] cols[k]^T for a sequence of columns of length n
RECURSIVE SumOuter(_, _, _, _)
SumOuter(cols, w, acc, k) ==
  IF k > Len(cols) THEN acc
  ELSE SumOuter(cols, w,
         LET wc == RScale(w[k], cols[k])
         IN  TLCEval([i \in 1..Len(acc) |-> RAxpy(wc[i], cols[k], acc[i])]), k + 1)
OuterDiag(n, cols, w) == SumOuter(cols, w, ZeroMat(n, n), 1)
\* columns . phi . columns'^T   (phi given by rows, Len(cols) x Len(cols2))
Sandwich(n, m, cols, phi, cols2) ==
  LET T1 == TLCEval([i \in 1..n |-> RVec([k \in 1..Len(cols) |-> cols[k][i]])])
      T2 == TLCEval([i \in 1..m |-> RVec([k \in 1..Len(cols2) |-> cols2[k][i]])])
      phiT2 == TLCEval([i \in 1..m |-> MatVec(phi, T2[i])])     \* row i: phi . T2[i]
  IN  IF Len(cols) = 0 \/ Len(cols2) = 0 THEN ZeroMat(n, m) ELSE MatMulT(T1, phiT2)

\* Elimination of the symmetric positive definite matrix A, carrying the columns of B
\* (given by rows) along: A = L D L^T, result <<D, L^-1 B>>; D[k] <= 0 shows up as NaN logs.
RECURSIVE ElimStep(_, _, _)
ElimStep(rows, k, n) ==
  IF k >= n THEN rows
  ELSE ElimStep(
         LET piv == rows[k][k]
         IN  TLCEval([i \in 1..n |->
               IF i <= k \/ REq(rows[i][k], 0) THEN rows[i]
               ELSE RAxpy(RNeg(RDiv(rows[i][k], piv)), rows[k], rows[i])]),
         k + 1, n)
Factor(A, B) ==
  LET n == Len(A)
      rows == ElimStep(TLCEval([i \in 1..n |-> A[i] \o B[i]]), 1, n)
  IN  TLCEval([d |-> RVec([k \in 1..n |-> rows[k][k]]),
       w |-> TLCEval([k \in 1..n |-> SubSeq(rows[k], n + 1, Len(rows[k]))])])
FLogDet(F) == RSum(RVec([k \in 1..Len(F.d) |-> RLn(F.d[k])]))
\* b_i^T A^-1 b_j
FGram(F, i, j) == RSum(RVec([k \in 1..Len(F.d) |-> RDiv(RMul(F.w[k][i], F.w[k][j]), F.d[k])]))
FGramMat(F, is, js) == TLCEval([a \in 1..Len(is) |-> RVec([b \in 1..Len(js) |-> FGram(F, is[a], js[b])])])
Column(v) == [i \in 1..Len(v) |-> <<v[i]>>]
LogDet(A) == FLogDet(Factor(A, [i \in 1..Len(A) |-> <<>>]))
Quad(A, r) == LET F == Factor(A, Column(r)) IN [q |-> FGram(F, 1, 1), ld |-> FLogDet(F)]
MatInverse(A) == LET n == Len(A)  F == Factor(A, Identity(n))
              IN  FGramMat(F, [i \in 1..n |-> i], [i \in 1..n |-> i])
Solve(A, b) == LET n == Len(A)
                   F == Factor(A, TLCEval([i \in 1..n |-> Unit(n, i) \o <<b[i]>>]))
               IN  RVec([i \in 1..n |-> FGram(F, i, n + 1)])
\* block-diagonal of a sequence of square matrices
RECURSIVE BlockDiag(_)
BlockDiag(ms) ==
  IF ms = <<>> THEN <<>>
  ELSE LET a == Head(ms)  b == BlockDiag(Tail(ms))  n == Len(a)  m == Len(b)
       IN  TLCEval([i \in 1..n |-> a[i] \o Zeros(m)] \o [i \in 1..m |-> Zeros(n) \o b[i]])

\* ---- agreement of an observed value with an expected one ---------------------------
Close(e, o, rtol, atol) ==
  LET x == R(e)  y == R(o)
  IN  RLe(RAbs(RSub(x, y)), RAdd(atol, RMul(rtol, RMax(RAbs(x), RAbs(y)))))
VecClose(e, o, rtol, atol) ==
  /\ Len(e) = Len(o)
  /\ \A i \in 1..Len(e) : Close(e[i], o[i], rtol, atol)
MatClose(e, o, rtol, atol) ==
  /\ Len(e) = Len(o)
  /\ \A i \in 1..Len(e) : VecClose(e[i], o[i], rtol, atol)
MaxAbs(v) == IF v = <<>> THEN R(0)
             ELSE LET RECURSIVE M(_, _)
                      M(i, a) == IF i > Len(v) THEN a ELSE M(i + 1, RMax(a, RAbs(v[i])))
                  IN  M(1, R(0))
\* vector agreement relative to the largest element
VecCloseMax(e, o, rtol) == Len(e) = Len(o) /\ VecClose(e, o, "0", RMul(rtol, MaxAbs(e)))
MatMaxAbs(m) == MaxAbs(TLCEval([i \in 1..Len(m) |-> MaxAbs(m[i])]))
MatCloseMax(e, o, rtol) == Len(e) = Len(o) /\ MatClose(e, o, "0", RMul(rtol, MatMaxAbs(e)))
=============================================================================
