-------------------------------- MODULE Work --------------------------------
(* Energy and force along a walk.  Where the force is monotone between two     *)
(* distances, the mean slope of the (negative) potential lies between the      *)
(* forces at the two ends; this holds for steps of any length exactly when the *)
(* force is the negative derivative of the potential.                          *)
EXTENDS Integers
MinW(a, b) == IF a < b THEN a ELSE b
MaxW(a, b) == IF a < b THEN b ELSE a
Between(a, s, b, e) == MinW(a, b) - e <= s /\ s <= MaxW(a, b) + e
(* distances in millionths of the range; the Lennard-Jones force has its only  *)
(* extremum at (26/7)^(1/6) = 1.2444550                                        *)
Monotone(kind, x, y) ==
  \/ kind = "exp"
  \/ kind = "lj" /\ x <= 1244454 /\ y <= 1244454
  \/ kind = "lj" /\ x >= 1244456 /\ y >= 1244456
=============================================================================
