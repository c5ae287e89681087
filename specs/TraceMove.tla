------------------------------ MODULE TraceMove ------------------------------
(* C07: recorded moves of the real systems against the rule of images.        *)
EXTENDS Geometry, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, pos
vars == <<c, l, pos>>
Case == Trace[c]
S == Case.cfg
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ pos = <<>>
Exact(n) == \E k \in {E.w \div 16} : 16 * k = E.w /\ k * k = n
RadialImage(t, n) ==
  /\ IsRoot(E.w, 256 * n)
  /\ \A i \in 1..Radial(S) :
       AbsI(E.qm[i] * E.w - t[i] * (32 * S.R - E.w) * 1000) <= (IF Exact(n) THEN E.w ELSE 4000 * S.R + E.w)
Image(t) ==
  LET n == SqSum(t, 1, Radial(S)) IN
  /\ \A i \in (Radial(S) + 1)..S.dim : E.q[i] = Fold(S, i, t[i])
  /\ IF WithinRadius(S, t) THEN \A i \in 1..Radial(S) : E.q[i] = t[i] ELSE RadialImage(t, n)
Edge(t) == Radial(S) > 0 /\ SqSum(t, 1, Radial(S)) = 9 * S.R * S.R
MoveEv ==
  /\ E.op = "move"
  /\ E.cont => E.p = pos
  /\ LET t == Add(E.p, E.dp) IN
     /\ IF Inside(S, t) THEN E.ok /\ E.q = t
        ELSE IF ~SingleImage(S, t) THEN ~E.ok
        ELSE (E.ok \/ Edge(t)) /\ (E.ok => Image(t))
     /\ pos' = E.q
(* a vector of another dimension is answered with an error *)
WrongEv == E.op = "wrong" /\ ~E.ok /\ UNCHANGED pos
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (MoveEv \/ WrongEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
