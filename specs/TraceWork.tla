------------------------------ MODULE TraceWork ------------------------------
(* C25: walks of a pair of real agents through their distances.  a, b are the  *)
(* forces at the two ends, s the slope of the potential, in units of a hundred *)
(* millionth of the largest force (or energy per distance) of the step.        *)
EXTENDS Work, Sequences, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, x
vars == <<c, l, x>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ x = -1
Move ==
  /\ E.op = "step" /\ (x = -1 \/ E.x0 = x) /\ x' = E.x1
  /\ Monotone(Case.cfg.kind, E.x0, E.x1) => Between(E.a, E.s, E.b, 3)
  (* a short step is a straight line whatever the shape *)
  /\ E.by = "short" => Between(E.a, E.s, E.b, 300)
Jump == E.op = "jump" /\ x' = E.x
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (Move \/ Jump)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
