------------------------------ MODULE TraceFreq ------------------------------
(* C26: draws of the real generators, counted batch after batch.               *)
EXTENDS Frequency, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, n, counts, far
vars == <<c, l, n, counts, far>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ n = 0 /\ counts = [i \in 1..16 |-> 0] /\ far = [i \in 1..7 |-> 0]
(* every draw falls into a cell: the seventeenth count is of those that do not *)
Batch ==
  /\ E.op = "batch" /\ Len(E.cells) = 17 /\ E.cells[17] = 0 /\ Sum(E.cells, 16) = E.n
  /\ n' = n + E.n /\ counts' = Plus(counts, SubSeq(E.cells, 1, 16)) /\ far' = Plus(far, E.tails)
End ==
  /\ E.op = "end" /\ n = Millions * Million
  /\ \A i \in 1..16 : Usual(counts[i], Expected(Case.cfg.law, Case.cfg.form)[i])
  /\ \A i \in 1..7 : UsualTail(far[i], ExpectedTails(Case.cfg.law, Case.cfg.form)[i])
  /\ UNCHANGED <<n, counts, far>>
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (Batch \/ End)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
