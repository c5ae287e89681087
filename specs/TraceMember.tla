----------------------------- MODULE TraceMember -----------------------------
(* C09: membership of a system and detection by a target.                     *)
EXTENDS Geometry, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l>>
Case == Trace[c]
S == Case.cfg
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1
InEv == /\ E.op = "in"
        /\ E.r = (IF Len(E.p) # S.dim THEN "err" ELSE IF Inside(S, E.p) THEN "yes" ELSE "no")
FindEv == /\ E.op = "find"
          /\ E.r = (IF Len(E.p) # Len(E.t) THEN "err" ELSE IF Found([p |-> E.t, r |-> E.size], E.p) THEN "yes" ELSE "no")
(* on an axis, e representable numbers beyond the wall (or before it) *)
EdgeEv == \/ E.op = "inedge" /\ E.r = (IF E.e <= 0 THEN "yes" ELSE "no")
          \/ E.op = "findedge" /\ E.r = (IF E.e < 0 THEN "yes" ELSE "no")
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (InEv \/ FindEv \/ EdgeEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
