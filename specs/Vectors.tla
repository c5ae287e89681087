------------------------------ MODULE Vectors ------------------------------
(* Coordinatewise arithmetic of positions, over integer grids.               *)
EXTENDS Integers, Sequences
Abs1(x) == IF x < 0 THEN -x ELSE x
VAdd(p, q) == [i \in 1..Len(p) |-> p[i] + q[i]]
VSub(p, q) == [i \in 1..Len(p) |-> p[i] - q[i]]
VMul(p, s) == [i \in 1..Len(p) |-> p[i] * s]
VZero(n) == [i \in 1..n |-> 0]
RECURSIVE DotTo(_, _, _)
DotTo(p, q, n) == IF n = 0 THEN 0 ELSE DotTo(p, q, n - 1) + p[n] * q[n]
Dot(p, q) == DotTo(p, q, Len(p))
RECURSIVE TaxiTo(_, _, _)
TaxiTo(p, q, n) == IF n = 0 THEN 0 ELSE TaxiTo(p, q, n - 1) + Abs1(p[n] - q[n])
Taxi(p, q) == TaxiTo(p, q, Len(p))
Norm2(p) == Dot(p, p)
(* w/64 is the root of n up to 1/64 *)
Root64(w, n) == w >= 0 /\ w * w <= 4096 * n /\ 4096 * n < (w + 1) * (w + 1)
Sharp(w, n) == w % 64 = 0 /\ (w \div 64) * (w \div 64) = n
(* a measured length m, in 1/64 *)
LengthIs(m, n) == IF \E k \in {m \div 64} : k * k = n THEN m = 64 * (m \div 64)
                  ELSE m >= 0 /\ (m = 0 \/ (m - 1) * (m - 1) <= 4096 * n) /\ 4096 * n <= (m + 1) * (m + 1)
(* a right triangle with sides a (odd), b = (a a - 1)/2 and hypotenuse b + 1, in    *)
(* any two directions of the space                                                *)
LongSide(d) == LET S == {Abs1(d[i]) : i \in 1..Len(d)} \ {0} IN CHOOSE b \in S : \A a \in S : a <= b
ShortSide(d) == LET S == {Abs1(d[i]) : i \in 1..Len(d)} \ {0} IN CHOOSE a \in S : \A b \in S : a <= b
IsRight(d) == ShortSide(d) * ShortSide(d) = 2 * LongSide(d) + 1
=============================================================================
