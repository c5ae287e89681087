---------------------------- MODULE TraceArgSets ----------------------------
(* C34: histories of one real set of arguments x and a copy y.                *)
EXTENDS ArgSets, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, x, y
vars == <<c, l, x, y>>
Case == Trace[c]
K == Case.cfg.comp
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ x = <<>> /\ y = <<>>
Becomes(v) == E.x2 = v /\ E.y2 = y /\ x' = v /\ UNCHANGED y
CountEv == E.op = "count" /\ E.of = NumArgs(K) /\ E.by = NumArgs(K) /\ UNCHANGED <<x, y>>
(* the first make of a case gives both sets *)
StartEv == E.op = "start" /\ E.x2 = ArgsOf(K, E.vals) /\ x' = E.x2 /\ y' = E.x2
MakeEv == E.op = "make" /\ Becomes(ArgsOf(K, E.vals))
ReadEv == E.op = "read" /\ E.ok /\ Becomes(ArgsOf(K, E.vals))
ClearEv == E.op = "clear" /\ Becomes(Cleared(K))
PutEv == E.op = "put" /\ Becomes(Put(x, E.i, E.v))
CopyEv == E.op = "copy" /\ E.y2 = x /\ y' = x /\ UNCHANGED x
SwapEv == E.op = "swap" /\ E.x2 = y /\ E.y2 = x /\ x' = y /\ y' = x
EqEv == E.op = "eq" /\ E.eq = (x = y) /\ E.ne = (x # y) /\ E.qe = (x = y) /\ E.own /\ UNCHANGED <<x, y>>
TextEv == E.op = "text" /\ E.labels = LabelsOf(<<K>>) /\ UNCHANGED <<x, y>>
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c
     /\ (CountEv \/ StartEv \/ MakeEv \/ ReadEv \/ ClearEv \/ PutEv \/ CopyEv \/ SwapEv \/ EqEv \/ TextEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
