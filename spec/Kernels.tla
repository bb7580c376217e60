------------------------------- MODULE Kernels -------------------------------
(* Covariances of the noise and of the coefficients as objects.  An object     *)
(* stands for a matrix; adding objects adds the matrices, and what an object   *)
(* answers (products with its inverse, log-determinant) is what the matrix     *)
(* would.  A session is a sequence of operations:                              *)
(*   diag    a vector of variances                                             *)
(*   kernel  epochs (sets of TOAs) with one correlated variance each; epochs   *)
(*           of a single TOA contribute nothing                                *)
(*   marg    design matrix to be marginalized over, to which noise is added    *)
(*   sum     of two objects;  zero  object added to 0;  total  sum(list)       *)
(*   prior   matrix of n zeros / given variances / given matrix                *)
(*   put     vector or matrix added to (or set in) some columns of a prior     *)
EXTENDS LinAlg, Util

Type(o) == o.t
\* kinds of objects: d (diagonal), k (epochs only), n (noise: epochs and diagonal), m (marginalized design matrix only), mn, p (prior)
SumType(a, b) ==
  CASE a = "d" /\ b = "d" -> "d"
    [] {a, b} = {"d", "k"} \/ {a, b} = {"d", "n"} -> "n"
    [] a = "m" /\ b \in {"d", "n"} -> "mn"
    [] a = "d" /\ b = "m" -> "mn"
    [] a = "m" /\ b = "k" -> "mk"
    [] {a, b} = {"mk", "d"} -> "mn"
    [] {a, b} = {"mn", "d"} -> "mn"
    [] OTHER -> "error"

SumMat(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE MatAdd(a, b)
EpochMat(n, epochs, j) ==
  LET idx == {k \in 1..Len(epochs) : Len(epochs[k]) > 1} IN
  TLCEval([a \in 1..n |-> RVec([b \in 1..n |->
     RSum(RVec([k \in 1..Len(epochs) |-> IF k \in idx /\ a \in RangeOf(epochs[k]) /\ b \in RangeOf(epochs[k]) THEN j[k] ELSE 0]))])])
\* the object made by an operation; n: dense matrix without the marginalized part (<<>> for none), M: design matrix by rows
Obj(objs, op) ==
  CASE op.op = "diag"   -> [t |-> "d", n |-> DiagMat(RVec(op.v)), M |-> <<>>]
    [] op.op = "kernel" -> [t |-> "k", n |-> EpochMat(op.n, op.epochs, op.j), M |-> <<>>]
    [] op.op = "marg"   -> [t |-> "m", n |-> <<>>, M |-> RMat(op.M)]
    [] op.op = "zero"   -> objs[op.i]
    [] op.op = "sum"    -> LET a == objs[op.i]  b == objs[op.k] IN
                           [t |-> SumType(a.t, b.t), n |-> SumMat(a.n, b.n), M |-> IF a.M = <<>> THEN b.M ELSE a.M]
    [] op.op = "prior"  -> [t |-> "p", M |-> <<>>, n |-> IF op.form = "size" THEN ZeroMat(op.n, op.n) ELSE IF op.form = "vec" THEN DiagMat(RVec(op.v)) ELSE RMat(op.v)]
    [] op.op = "put"    -> LET a == objs[op.i].n
                               at(x) == IndexIn(op.idx, x)
                               here(x, y) == x \in RangeOf(op.idx) /\ y \in RangeOf(op.idx) /\ (op.form = "mat" \/ x = y)
                               new(x, y) == IF op.form = "mat" THEN R(op.v[at(x)][at(y)]) ELSE IF op.form = "vec" THEN R(op.v[at(x)]) ELSE R(op.v)
                           IN  [t |-> "p", M |-> <<>>, n |-> TLCEval([x \in 1..Len(a) |-> RVec([y \in 1..Len(a) |->
                                  IF here(x, y) THEN (IF op.how = "set" THEN new(x, y) ELSE RAdd(a[x][y], new(x, y))) ELSE a[x][y]])])]
RECURSIVE Objs(_, _)
Objs(ops, acc) == IF ops = <<>> THEN acc ELSE Objs(Tail(ops), Append(acc, TLCEval(Obj(acc, Head(ops)))))

Column1(M, m) == [k \in 1..Len(M) |-> M[k][m]]
Solvable(o) == o.t \in {"d", "n", "mn", "p"}
\* inverse of the covariance, and its log-determinant, with the directions of M having (the limit of) variance 1e40
InvOf(o) ==
  LET n == Len(o.n) IN
  IF o.M = <<>> THEN [inv |-> MatInverse(o.n), ld |-> LogDet(o.n)]
  ELSE LET Ni == MatInverse(o.n)
           m == Len(o.M[1])
           Mt == Transpose(o.M)                                   \* m rows of n
           NiM == TLCEval([a \in 1..m |-> MatVec(Ni, Mt[a])])      \* m rows: N^-1 M columns
           MNM == TLCEval([a \in 1..m |-> RVec([b \in 1..m |-> RDot(Mt[a], NiM[b])])])
           S == MatInverse(MNM)
           P == Sandwich(n, n, NiM, S, NiM)
       IN  [inv |-> MatAdd(Ni, MatScale(-1, P)), ld |-> RAdd(RAdd(LogDet(o.n), LogDet(MNM)), RMul(m, RLn(RPow10(40))))]
=============================================================================
