----------------------------- MODULE TraceSteps -----------------------------
(* C06: the schedule of the steps.  Emission itself is read from the history. *)
EXTENDS Clock, Sequences, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, k, e, on
vars == <<c, l, k, e, on>>
Case == Trace[c]
G == Case.cfg
E == Case.ev[l]
Done == l > Len(Case.ev)
(* where the grid of the log runs out a grown step may be off by one unit *)
Stepped(k0, x) == /\ IF StepOf(k0) = k0.d THEN x = k0.d
                     ELSE x \in (StepOf(k0) - 1)..(StepOf(k0) + 1) /\ x >= k0.d /\ x <= k0.dmax
After(k0, x) == [EmitOf(k0) EXCEPT !.cur = 0, !.d = x]
Init == /\ c \in 1..Len(Trace) /\ l = 1 /\ on = FALSE
        /\ k = [cur |-> 0, d |-> Trace[c].cfg.dmin, n |-> 0, dmin |-> Trace[c].cfg.dmin, dmax |-> Trace[c].cfg.dmax,
                len |-> Trace[c].cfg.len, num |-> Trace[c].cfg.num, den |-> Trace[c].cfg.den, tmax |-> 0]
        /\ e = k
NewEv == E.op = "new" /\ E.d = k.dmin /\ E.grows /\ UNCHANGED <<k, e, on>>
NextEv ==
  /\ E.op = "next" /\ E.capped
  /\ IF E.some THEN Stepped(k, E.d) /\ k' = After(k, E.d) ELSE UNCHANGED k
  /\ E.grows /\ UNCHANGED <<e, on>>
DiffEv == E.op = "diff" /\ on' = TRUE /\ e' = k /\ UNCHANGED k
DNextEv ==
  /\ E.op = "dnext" /\ on /\ E.capped
  /\ IF E.some THEN Stepped(e, E.d) /\ e' = After(e, E.d) ELSE UNCHANGED e
  /\ UNCHANGED <<k, on>>
RenewEv == E.op = "renew" /\ k' = [RenewOf(k) EXCEPT !.cur = 0] /\ E.d = k.dmin /\ E.grows /\ UNCHANGED <<e, on>>
TmaxEv == E.op = "settmax" /\ UNCHANGED <<k, e, on>>
IncEv == /\ E.op = "setinc" /\ E.ok = ValidInc(E.num, E.den) /\ E.grows
         /\ k' = IF E.ok THEN [k EXCEPT !.num = LimitNum(k.len, E.num, E.den), !.den = LimitDen(k.len, E.num, E.den)] ELSE k
         /\ UNCHANGED <<e, on>>
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (NewEv \/ NextEv \/ DiffEv \/ DNextEv \/ RenewEv \/ TmaxEv \/ IncEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
