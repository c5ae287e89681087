----------------------------- MODULE TracePlace -----------------------------
(* C08: placements.  u: coordinates in 1/10000 of the radius (radial ones) or  *)
(* of the length; g: offset from the target in 1/1000 of its size.             *)
EXTENDS Geometry, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* signs, far, near: parts of the system reached so far, per way of drawing    *)
VARIABLES c, l, signs, far, near
vars == <<c, l, signs, far, near>>
Case == Trace[c]
S == Case.cfg
E == Case.ev[l]
Done == l > Len(Case.ev)
U == 10000
Scaled == [S EXCEPT !.L = U + 1, !.R = U + 1]
InSys(u) == Len(u) = S.dim /\ Inside(Scaled, u)
Clear(g) == SqSum(g, 1, Len(g)) >= 997 * 997
Init == c \in 1..Len(Trace) /\ l = 1 /\ signs = {} /\ far = {} /\ near = {}
Cover(way, u) ==
  /\ signs' = signs \cup {<<way, [i \in 1..S.dim |-> IF u[i] > 0 THEN 1 ELSE 0]>>}
  /\ far' = far \cup {<<way, i, u[i] > 0>> : i \in {j \in 1..S.dim : AbsI(u[j]) > 6000}}
  /\ near' = near \cup {<<way, i>> : i \in {j \in 1..S.dim : AbsI(u[j]) < 4000}}
Keep == UNCHANGED <<signs, far, near>>
DrawEv == E.op \in {"pos", "vec"} /\ E.ok /\ E.lib /\ InSys(E.u) /\ Cover(E.op, E.u)
BadVec == E.op = "badvec" /\ ~E.ok /\ Keep
OutEv == E.op = "out" /\ E.ok /\ ~E.lib /\ Len(E.u) = S.dim /\ ~Inside([S EXCEPT !.L = U, !.R = U], E.u) /\ Keep
AgentEv == /\ E.op \in {"new", "renew"} /\ E.ok /\ E.lib /\ ~E.hit
           /\ InSys(E.u) /\ Clear(E.g) /\ E.dim = S.dim /\ E.same /\ Keep
(* where system and target disagree there is no place *)
NoPlace == E.op = "noplace" /\ ~E.ok /\ Keep
EndEv ==
  /\ E.op = "end"
  /\ \A way \in {"pos", "vec"} :
       /\ \A i \in 1..S.dim, side \in BOOLEAN : <<way, i, side>> \in far
       /\ \A i \in 1..S.dim : <<way, i>> \in near
       /\ S.dim <= 3 => \A q \in [1..S.dim -> {0, 1}] : <<way, q>> \in signs
  /\ Keep
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (DrawEv \/ BadVec \/ OutEv \/ AgentEv \/ NoPlace \/ EndEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
