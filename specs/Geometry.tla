------------------------------ MODULE Geometry ------------------------------
(* Shapes and boundaries over an integer grid.  A system s has               *)
(*   shape "cubic": |x_i| <= L; the first d coordinates reflect, the others   *)
(*                  wrap around (d = dim: all reflecting, d = 0: periodic)    *)
(*         "circ":  norm <= R (d = dim: all coordinates are radial)           *)
(*         "cyl":   the first d coordinates radial and reflecting, the others *)
(*                  |x_i| <= L and periodic                                   *)
EXTENDS Integers, Sequences
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SqSum(_, _, _)
SqSum(p, a, b) == IF a > b THEN 0 ELSE p[a] * p[a] + SqSum(p, a + 1, b)
Radial(s) == IF s.shape = "cubic" THEN 0 ELSE IF s.shape = "circ" THEN s.dim ELSE s.d
Reflects(s, i) == s.shape = "cubic" /\ i <= s.d
WithinRadius(s, p) == Radial(s) = 0 \/ SqSum(p, 1, Radial(s)) <= s.R * s.R
WithinLength(s, p) == \A i \in (Radial(s) + 1)..s.dim : AbsI(p[i]) <= s.L
(* the defining inequality, boundary included *)
Inside(s, p) == WithinRadius(s, p) /\ WithinLength(s, p)
(* image of one rectangular coordinate *)
FoldR(L, x) == IF AbsI(x) <= L THEN x ELSE IF x > 0 THEN 2 * L - x ELSE -2 * L - x
FoldP(L, x) == IF AbsI(x) <= L THEN x ELSE IF x > 0 THEN x - 2 * L ELSE x + 2 * L
Fold(s, i, x) == IF Reflects(s, i) THEN FoldR(s.L, x) ELSE FoldP(s.L, x)
(* one image is enough: up to one system size beyond the wall *)
SingleImage(s, p) ==
  /\ \A i \in (Radial(s) + 1)..s.dim : AbsI(p[i]) <= 3 * s.L
  /\ Radial(s) = 0 \/ SqSum(p, 1, Radial(s)) <= 9 * s.R * s.R
Add(p, q) == [i \in 1..Len(p) |-> p[i] + q[i]]
(* found: strictly closer to the centre than the size *)
Dist2(p, q) == SqSum([i \in 1..Len(p) |-> p[i] - q[i]], 1, Len(p))
Found(t, p) == Dist2(p, t.p) < t.r * t.r
(* w * w <= n < (w+1)^2 : w is the integer square root of n *)
IsRoot(w, n) == w >= 0 /\ w * w <= n /\ n < (w + 1) * (w + 1)
=============================================================================
