------------------------------ MODULE QuantGen -------------------------------
(* Times of observations on a grid, window and least size of epochs: TLC       *)
(* enumerates all of them and checks what epochs and interpolation must be.    *)
EXTENDS Bases, Json, IOUtils
Prof == ndJsonDeserialize(IOEnv.PROFILE)[1]
VARIABLES x, done
vars == <<x, done>>
Init == /\ \E n \in 1..Prof.n : \E t \in [1..n -> 0..Prof.grid], dt \in 1..Prof.dt, nmin \in 1..Prof.nmin :
             x = [t |-> t, dt |-> dt, nmin |-> nmin]
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ x' = x /\ PrintT("SCN " \o ToJson(x))
Spec == Init /\ [][Next]_vars
Ep == Epochs(RVec(x.t), x.dt, x.nmin)
All == Epochs(RVec(x.t), x.dt, 1)
T(i) == x.t[i]
Near(a, b) == RLe(RAbs(RSub(a, b)), "1e-60")
\* epochs: windows that start with an observation; every observation belongs to exactly one
Partition ==
  done \/ LET a == All IN
  /\ \A i \in 1..Len(x.t) : Cardinality({k \in 1..Len(a) : i \in RangeOf(a[k])}) = 1
  /\ \A k \in 1..Len(a) : \A i, j \in RangeOf(a[k]) : T(i) - T(j) < x.dt
  /\ \A k \in 1..Len(a) - 1 : T(a[k + 1][1]) - T(a[k][1]) >= x.dt
  /\ \A k \in 1..Len(a), j \in 1..Len(x.t) : T(j) >= T(a[k][1]) /\ T(j) - T(a[k][1]) < x.dt => j \in RangeOf(a[k])
  /\ RangeOf(Ep) = {e \in RangeOf(a) : Len(e) >= x.nmin}
\* linear interpolation reproduces straight lines (more than one time)
Straight ==
  done \/ (\A i \in 1..Len(x.t) : T(i) = T(1)) \/
  LET b == LinInterp(RVec(x.t), x.dt) IN
  \A i \in 1..Len(x.t) : /\ Near(RSum(RVec([k \in 1..Len(b.cols) |-> b.cols[k][i]])), 1)
                         /\ Near(RSum(RVec([k \in 1..Len(b.cols) |-> RMul(b.labels[k], b.cols[k][i])])), T(i))
=============================================================================
