----------------------------- MODULE TraceFaults -----------------------------
(* C32: analyses, set-ups and readings of real files that fail.                *)
EXTENDS Faults, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* needs: sizes of the output files when nothing fails                          *)
VARIABLES c, l, needs
vars == <<c, l, needs>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ needs = <<>>
Sizes(fs) == [i \in 1..Len(fs) |-> fs[i].need]
FreeEv == E.op = "free" /\ E.res = "ok" /\ E.one /\ E.touched = <<>> /\ needs' = Sizes(E.files)
(* files of an unlimited run that stand there afterwards are compared by name;  *)
(* what was written stays below the limit, success means all of it              *)
LimitEv == /\ E.op = "limit" /\ UNCHANGED needs
           /\ LET a == Answer(needs, E.lim) IN E.res = a.res /\ E.kind = a.kind
           /\ E.touched = <<>>
           /\ E.res = "ok" => Sizes(E.files) = needs /\ \A i \in 1..Len(E.files) : E.files[i].same
           /\ \A i \in 1..Len(E.files) : E.files[i].got <= E.lim
TakenEv == E.op = "taken" /\ E.res = "err" /\ E.kind = "io" /\ E.touched = <<>> /\ UNCHANGED needs
DataEv == E.op = "data" /\ <<E.res, E.kind>> \in LineAnswer(E.line) /\ E.touched = <<>> /\ UNCHANGED needs
OpenEv == E.op = "open" /\ <<E.res, E.kind>> \in OpenAnswer(E.how) /\ UNCHANGED needs
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (FreeEv \/ LimitEv \/ TakenEv \/ DataEv \/ OpenEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
