------------------------------- MODULE RealNum -------------------------------
(* Real numbers for the reference semantics.  The definitions below say what  *)
(* each operator means; TLC evaluates them with java/RealNum.java, on decimal *)
(* numbers with 80 significant digits.  Arguments may also be integers or     *)
(* decimal literals given as strings ("1.5e-7").                              *)
EXTENDS Integers, Sequences

R(x)        == CHOOSE r : TRUE                 \* the real denoted by x
RAdd(a, b)  == a + b
RSub(a, b)  == a - b
RMul(a, b)  == a * b
RDiv(a, b)  == CHOOSE q : q * b = a            \* NaN when b = 0
RNeg(a)     == -a
RAbs(a)     == IF a >= 0 THEN a ELSE -a
RLe(a, b)   == a <= b                          \* FALSE on NaN
RLt(a, b)   == a < b
REq(a, b)   == a = b
RIsNaN(a)   == FALSE
RMax(a, b)  == IF a >= b THEN a ELSE b
RMin(a, b)  == IF a <= b THEN a ELSE b
RFloor(a)   == CHOOSE n \in Int : n <= a /\ a < n + 1
RTrunc(a)   == IF a >= 0 THEN RFloor(a) ELSE -RFloor(-a)
IsVector(a) == \E n \in Nat : DOMAIN a = 1..n   \* a sequence, rather than a real
RShow(a)    == CHOOSE s : TRUE                 \* a printable approximation

RExp(a)     == CHOOSE r : TRUE
RLn(a)      == CHOOSE r : RExp(r) = a
RSqrt(a)    == CHOOSE r : r * r = a /\ r >= 0
RSin(a)     == CHOOSE r : TRUE
RCos(a)     == CHOOSE r : TRUE
RAtan2(y, x) == CHOOSE r : TRUE
RErf(a)     == CHOOSE r : TRUE
RPi         == CHOOSE r : TRUE
RPow(a, b)  == CHOOSE r : TRUE                 \* a^b
RPow10(a)   == RPow(10, a)

\* vectors are sequences of reals
RVec(s)       == [i \in 1..Len(s) |-> R(s[i])]
RECURSIVE RSum(_)
RSum(s)       == IF s = <<>> THEN 0 ELSE RAdd(Head(s), RSum(Tail(s)))
RDot(s, t)    == RSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])
RAxpy(a, s, t) == [i \in 1..Len(s) |-> RAdd(RMul(a, s[i]), t[i])]
RScale(a, s)  == [i \in 1..Len(s) |-> RMul(a, s[i])]
RVAdd(s, t)   == [i \in 1..Len(s) |-> RAdd(s[i], t[i])]
RVSub(s, t)   == [i \in 1..Len(s) |-> RSub(s[i], t[i])]
RVMul(s, t)   == [i \in 1..Len(s) |-> RMul(s[i], t[i])]
===============================================================================
