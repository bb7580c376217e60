------------------------------ MODULE KernelGen ------------------------------
(* Sessions with noise matrices and prior matrices: which objects are made,    *)
(* how they are added, and what is asked of them.                              *)
EXTENDS Kernels, Json, IOUtils
Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]
VARIABLES objs, ops, asks, done
vars == <<objs, ops, asks, done>>

N == Prof.n
Made(t) == {i \in 1..Len(objs) : objs[i] = t}
Of(S) == {i \in 1..Len(objs) : objs[i] \in S}
Do(op, t) == /\ ops' = Append(ops, op) /\ objs' = Append(objs, t) /\ UNCHANGED <<asks, done>>
Room == ~done /\ Len(ops) < Prof.nops
\* partitions of some of the TOAs into epochs: an epoch number for every TOA, 0 for none
Layouts == {f \in [1..N -> 0..Prof.ne] : \A a \in 1..Prof.ne : (\E i \in 1..N : f[i] = a) /\ \A i \in 1..N : f[i] = a /\ a > 1 => \E j \in 1..i : f[j] = a - 1}
EpochsOf(f) == LET ne == Prof.ne IN [a \in 1..ne |-> LET S == {i \in 1..N : f[i] = a} IN [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1]]
Init == objs = <<>> /\ ops = <<>> /\ asks = <<>> /\ done = FALSE
Diag == Room /\ Cardinality(Made("d")) < 3 /\ Do([op |-> "diag"], "d")
Kernel == Room /\ Made("k") = {} /\ Prof.prior = FALSE /\ \E m \in {"sparse", "block", "sm", "fsm"}, f \in Layouts, sl \in BOOLEAN :
            \* the fast Sherman-Morrison takes ranges of several TOAs only
            /\ m = "fsm" => sl /\ (\A a \in 1..Prof.ne : \E x, y \in 1..N : x # y /\ f[x] = a /\ f[y] = a) /\ \A a \in 1..Prof.ne, x, z \in 1..N : f[x] = a /\ f[z] = a => \A y \in x..z : f[y] = a
            /\ Do([op |-> "kernel", method |-> m, n |-> N, epochs |-> EpochsOf(f), slices |-> sl], "k")
Marg == Room /\ Made("m") = {} /\ \E m \in 1..Prof.ncol : Do([op |-> "marg", m |-> m], "m")
SumUp == Room /\ \E i, k \in 1..Len(objs) : i # k /\ SumType(objs[i], objs[k]) # "error" /\ Do([op |-> "sum", i |-> i, k |-> k], SumType(objs[i], objs[k]))
Zero == Room /\ (\A x \in 1..Len(ops) : ops[x].op # "zero") /\ \E i \in 1..Len(objs) : Do([op |-> "zero", i |-> i], objs[i])
Prior == Room /\ Made("p") = {} /\ \E f \in {"size", "vec", "mat"} : Do([op |-> "prior", form |-> f, n |-> N], "p")
Put == Room /\ \E i \in {x \in Made("p") : x = Len(objs)} : \E f \in {"vec", "mat", "num"}, h \in {"add", "set"}, w \in {"slice", "list", "array"} : \E S \in SUBSET (1..N) :
         /\ Cardinality(S) \in 1..3 /\ (f = "num" => Cardinality(S) = 1 /\ w = "array" /\ h = "set")
         /\ (w = "slice" => \A x, y \in S : \A z \in x..y : z \in S)
         /\ \E down \in BOOLEAN : (w = "slice" => ~down) /\
            Do([op |-> "put", i |-> i, form |-> f, how |-> h, way |-> w,
                idx |-> [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : IF down THEN y > x ELSE y < x}) = k - 1]], "p")
Ask == /\ ~done /\ Len(ops) > 2 /\ Len(asks) < Prof.nasks
       /\ \E i \in Of({"d", "n", "mn", "p"}), r \in {"vec", "mat"}, l \in {"none", "same", "vec", "mat"}, ld \in BOOLEAN :
            /\ (objs[i] = "p" => l = "none" /\ r = "vec" /\ i = Len(objs))
            /\ asks' = Append(asks, [at |-> Len(ops), i |-> i, right |-> r, left |-> l, ld |-> ld])
       /\ UNCHANGED <<objs, ops, done>>
Finish == /\ ~done /\ Len(asks) = Prof.nasks /\ Len(ops) >= Prof.nops - 1 /\ done' = TRUE /\ UNCHANGED <<objs, ops, asks>>
          /\ Prof.print => PrintT("SCN " \o ToJson([ops |-> ops, asks |-> asks, types |-> objs, n |-> N]))
(* ---- what holds of the matrices, with small fixed numbers ------------------ *)
Given(o, x) ==
  CASE o.op = "diag"   -> [op |-> "diag", v |-> [k \in 1..N |-> k + x]]
    [] o.op = "kernel" -> [op |-> "kernel", n |-> N, epochs |-> o.epochs, j |-> [k \in 1..Len(o.epochs) |-> k + 1]]
    [] o.op = "marg"   -> [op |-> "marg", M |-> [k \in 1..N |-> [m \in 1..o.m |-> IF m = 1 THEN 1 ELSE k * k]]]
    [] o.op = "prior"  -> [op |-> "prior", n |-> N, form |-> o.form, v |-> IF o.form = "vec" THEN [k \in 1..N |-> k] ELSE IF o.form = "mat" THEN [k \in 1..N |-> [l \in 1..N |-> IF k = l THEN 3 ELSE 1]] ELSE 0]
    [] o.op = "put"    -> LET m == Len(o.idx) IN [op |-> "put", i |-> o.i, how |-> o.how, idx |-> o.idx, form |-> o.form,
                                 v |-> IF o.form = "num" THEN 7 ELSE IF o.form = "vec" THEN [k \in 1..m |-> 4 + k] ELSE [k \in 1..m |-> [l \in 1..m |-> IF k = l THEN 6 ELSE 1]]]
    [] OTHER -> o
Mats == Objs([x \in 1..Len(ops) |-> Given(ops[x], x)], <<>>)
Near0(a) == RLe(RAbs(a), "1e-40")
Newest == Len(objs)
Lawful ==
  (~Prof.print /\ Newest > 0) =>
    LET A == TLCEval(Mats)  o == A[Newest] IN
    /\ o.t = objs[Newest]
    \* covariances are symmetric
    /\ \A a, b \in 1..Len(o.n) : REq(o.n[a][b], o.n[b][a])
    \* addition commutes
    /\ ops[Newest].op = "sum" => LET w == Obj(A, [op |-> "sum", i |-> ops[Newest].k, k |-> ops[Newest].i]) IN w.n = o.n /\ w.M = o.M
    \* the inverse is one, and ignores the marginalized directions
    /\ (objs[Newest] \in {"d", "n", "mn"}) =>
         LET I == TLCEval(InvOf(o)) IN
         IF o.M = <<>> THEN \A a, b \in 1..N : Near0(RSub(RDot(I.inv[a], o.n[b]), IF a = b THEN 1 ELSE 0))
         ELSE /\ \A a \in 1..N : \A m \in 1..Len(o.M[1]) : Near0(RDot(I.inv[a], Column1(o.M, m)))
              /\ \A a, b \in 1..N : REq(I.inv[a][b], I.inv[b][a]) \/ Near0(RSub(I.inv[a][b], I.inv[b][a]))
Next == (IF Prof.prior THEN Prior \/ Put ELSE Diag \/ Kernel \/ Marg \/ SumUp \/ Zero) \/ Ask \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
