------------------------------ MODULE Reflect ------------------------------
(* Mirror reflection at the tangent plane of a circle/sphere of radius r0      *)
(* about the origin, at the point h where a straight step leaves it.           *)
(* Rational results are carried with the common denominator r0^2.              *)
EXTENDS Geometry
DotP(p, q) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE p[i] * q[i] + S(i - 1) IN S(Len(p))
Step(h, v, k) == [i \in 1..Len(h) |-> h[i] + k * v[i]]
(* how far q lies beyond the tangent plane at h, times r0 *)
Beyond(h, q, r0) == DotP(q, h) - r0 * r0
(* r0^2 times the mirror image of q *)
ImageNum(h, q, r0) == [i \in 1..Len(h) |-> r0 * r0 * q[i] - 2 * Beyond(h, q, r0) * h[i]]
(* squared distance of the image from the centre (see ReflectModel, Norm)      *)
ImageNorm2(h, q, r0) == DotP(q, q) - 4 * Beyond(h, q, r0)
=============================================================================
