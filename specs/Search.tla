------------------------------- MODULE Search -------------------------------
(* A search run composed from the parts: agents are placed, moved with        *)
(* boundary handling, detected by the target, merged when they collide, and   *)
(* the next time is taken, until an agent is found or the time is used up.    *)
(* The predicates below say which steps are legal.  e is the slack of the     *)
(* projection in grid units: 0 in the model, positive for recorded runs.      *)
EXTENDS Merge, Geometry, Clock

Sqr(x) == x * x
(* all of the system, up to e *)
InsideUpTo(s, p, e) ==
  /\ Radial(s) = 0 \/ SqSum(p, 1, Radial(s)) <= Sqr(s.R + e)
  /\ \A i \in (Radial(s) + 1)..s.dim : AbsI(p[i]) <= s.L + e
(* closer than r, up to e *)
Closer(p, q, r, e) == Dist2(p, q) < Sqr(r + e)
Farther(p, q, r, e) == r <= e \/ Dist2(p, q) >= Sqr(r - e)
(* the answer y to "is p closer to q than r?" is right *)
Answer(y, p, q, r, e) == IF y THEN Closer(p, q, r, e) ELSE Farther(p, q, r, e)

(* rectangular coordinate: the image of some point within e of the target of the move *)
CoordOk(s, i, x, q, e) == \E k \in (-e)..e : AbsI(x + k) <= 3 * s.L /\ AbsI(Fold(s, i, x + k) - q) <= e
(* radial part: unchanged inside; outside reflected along the radius.  w is the *)
(* norm of the target (a witness recorded with the move and checked here)       *)
RadialStay(s, t, q, e) == SqSum(t, 1, Radial(s)) <= Sqr(s.R + 3 * e) /\ \A i \in 1..Radial(s) : AbsI(q[i] - t[i]) <= e
RadialBack(s, t, q, w, e) ==
  /\ IsRoot(w, SqSum(t, 1, Radial(s)))
  /\ w >= s.R - 3 * e /\ w <= 3 * s.R + 3 * e
  /\ \A i \in 1..Radial(s) : AbsI(q[i] * w - t[i] * (2 * s.R - w)) <= (IF e = 0 THEN w ELSE 3 * e * (w + 2 * s.R))
Lands(s, t, q, w, e) ==
  /\ \A i \in (Radial(s) + 1)..s.dim : CoordOk(s, i, t[i], q[i], e)
  /\ Radial(s) = 0 \/ RadialStay(s, t, q, e) \/ RadialBack(s, t, q, w, e)
(* moves that leave by more than one image are refused *)
TooFar(s, t, e) ==
  \/ \E i \in (Radial(s) + 1)..s.dim : AbsI(t[i]) >= 3 * s.L - e
  \/ Radial(s) > 0 /\ SqSum(t, 1, Radial(s)) >= Sqr(3 * s.R - 3 * e)
=============================================================================
