----------------------------- MODULE TraceTimes -----------------------------
(* C05: the relation between emitted times, announced steps and the limit.   *)
(* The step itself is read from the history; its schedule is TraceSteps'.    *)
EXTENDS Clock, Sequences, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* cur, d: the clock; on: a diff iterator was made; ecur: its own time       *)
(* a limit is <<m, e>>: m, and e representable numbers beyond it              *)
VARIABLES c, l, cur, tmax, on, ecur, etmax
vars == <<c, l, cur, tmax, on, ecur, etmax>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Fits(x, m) == m[1] = 0 \/ x < m[1] \/ (x = m[1] /\ m[2] >= 0)
Init == /\ c \in 1..Len(Trace) /\ l = 1 /\ cur = 0 /\ tmax = <<Trace[c].cfg.tmax, Trace[c].cfg.te>> /\ on = FALSE /\ ecur = 0 /\ etmax = <<0, 0>>
NextEv ==
  /\ E.op = "next"
  /\ E.some = Fits(cur, tmax)
  /\ IF E.some THEN E.t = cur /\ E.d > 0 /\ cur' = cur + E.d ELSE UNCHANGED cur
  /\ E.now = cur'
  /\ UNCHANGED <<tmax, on, ecur, etmax>>
DiffEv == E.op = "diff" /\ on' = TRUE /\ ecur' = cur /\ etmax' = tmax /\ UNCHANGED <<cur, tmax>>
DNextEv ==
  /\ E.op = "dnext" /\ on
  /\ E.some = Fits(ecur, etmax)
  /\ IF E.some THEN E.t = ecur /\ E.d > 0 /\ ecur' = ecur + E.d ELSE UNCHANGED ecur
  /\ UNCHANGED <<cur, tmax, on, etmax>>
RenewEv == E.op = "renew" /\ cur' = 0 /\ E.now = 0 /\ UNCHANGED <<tmax, on, ecur, etmax>>
TmaxEv == /\ E.op = "settmax" /\ E.ok = (E.x >= 0) /\ E.now = cur
          /\ tmax' = (IF E.ok THEN <<E.x, E.e>> ELSE tmax) /\ UNCHANGED <<cur, on, ecur, etmax>>
IncEv == E.op = "setinc" /\ E.now = cur /\ UNCHANGED <<cur, tmax, on, ecur, etmax>>
(* arbitrary real steps: the same relation, judged by the driver in floating point *)
RealEv ==
  /\ E.op = "real"
  /\ E.some = E.fits
  /\ E.some => /\ E.adv /\ E.pos /\ E.le
  /\ UNCHANGED <<cur, tmax, on, ecur, etmax>>
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (NextEv \/ DiffEv \/ DNextEv \/ RenewEv \/ TmaxEv \/ IncEv \/ RealEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
