---------------------------- MODULE ReflectModel ----------------------------
(* Every hit point h of radius r0 on the grid, every outgoing direction v and   *)
(* every step from a start inside (h - a v) to an end outside (h + b v).        *)
EXTENDS Reflect, TLC
CONSTANTS Dim, Radii, V, MaxA, MaxB, Plane
VARIABLES r0, h, v, a, b, im
vars == <<r0, h, v, a, b, im>>
MaxR == CHOOSE x \in Radii : \A y \in Radii : y <= x
Vec(m) == [1..Dim -> -m..m]
Im == IF Plane THEN ImageNum(h, Step(h, v, b), r0)
      ELSE LET q == Step(h, v, b) IN [i \in 1..Dim |-> r0 * r0 * q[i] - 2 * Beyond(q, q, r0) * q[i]]      \* mirrored along the end point instead
Init ==
  /\ r0 \in Radii
  /\ h \in {x \in Vec(r0) : DotP(x, x) = r0 * r0}
  /\ v \in {x \in Vec(V) : DotP(x, h) > 0}
  /\ a = 0 /\ b = 0 /\ im = ImageNum(h, h, r0)
Back == /\ a < MaxA /\ DotP(Step(h, v, -(a + 1)), Step(h, v, -(a + 1))) <= r0 * r0
        /\ a' = a + 1 /\ UNCHANGED <<r0, h, v, b, im>>
Out == /\ b < MaxB /\ b' = b + 1 /\ UNCHANGED <<r0, h, v, a>>
       /\ im' = IF Plane THEN ImageNum(h, Step(h, v, b + 1), r0)
                ELSE LET q == Step(h, v, b + 1) IN [i \in 1..Dim |-> r0 * r0 * q[i] - 2 * Beyond(q, q, r0) * q[i]]
Next == Back \/ Out
Spec == Init /\ [][Next]_vars
R2 == r0 * r0
Q == Step(h, v, b)
(* the end point of a step that crossed the surface is outside *)
Leaves == b > 0 => DotP(Q, Q) > R2
(* the image is as far from the hit point as the end point was *)
Isometry == LET d == [i \in 1..Dim |-> im[i] - R2 * h[i]] IN DotP(d, d) = R2 * R2 * b * b * DotP(v, v)
(* it mirrors the normal part and keeps the tangential part *)
Mirror == DotP(im, h) - R2 * R2 = -R2 * Beyond(h, Q, r0)
Tangent == \A i, j \in 1..Dim : (im[i] - R2 * Q[i]) * h[j] = (im[j] - R2 * Q[j]) * h[i]
(* the start of the step, mirrored path and normal: reflecting twice is the identity *)
Twice == LET w == [i \in 1..Dim |-> R2 * im[i] - 2 * (DotP(im, h) - R2 * R2) * h[i]] IN \A i \in 1..Dim : w[i] = R2 * R2 * Q[i]
(* |image|^2 = |q|^2 - 4 (q.h - r0^2) *)
Norm == DotP(im, im) = R2 * R2 * ImageNorm2(h, Q, r0)
(* a crossing is the only one ahead: the point of the segment on the surface is h *)
Start == DotP(Step(h, v, -a), Step(h, v, -a)) <= R2
=============================================================================
