----------------------------- MODULE TraceMerge -----------------------------
EXTENDS Merge, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
(* set: total size changes tracked through the sizes; touched: elements whose *)
(* coefficient is determined by their size (merged or renewed)                *)
VARIABLES c, l, alive, size, touched
vars == <<c, l, alive, size, touched>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
K == Case.cfg.k
Ids == 0..(K - 1)
Levy == {i \in Ids : Case.cfg.d0[i + 1] = -1}

Init == /\ c \in 1..Len(Trace) /\ l = 1
        /\ alive = 0..(Trace[c].cfg.k - 1) /\ size = [i \in 0..(Trace[c].cfg.k - 1) |-> 1] /\ touched = {}

Proj ==
  /\ E.al = AscSeq(alive')
  /\ E.sz = [i \in 1..K |-> size'[i - 1]]
  /\ \A i \in Ids : IF i \in Levy THEN E.dm[i + 1] = -1
                    ELSE IF i \in touched' THEN CoeffOk(E.dm[i + 1], size'[i], Case.cfg.al[i + 1])
                    ELSE E.dm[i + 1] = Case.cfg.d0[i + 1]
  /\ E.ps = [i \in 1..K |-> 9 + i]
  /\ E.rs            \* radius, exponent, dimension, initialisation are as they were

New == E.op = "init" /\ UNCHANGED <<alive, size, touched>> /\ Proj
DMerge ==
  /\ E.op = "merge"
  /\ E.ok = Mergeable(alive, Levy, E.i, E.j)
  /\ IF E.ok THEN /\ size' = [size EXCEPT ![E.i] = @ + size[E.j]]
                  /\ alive' = alive \ {E.j} /\ touched' = touched \cup {E.i}
                  /\ SumOver(size', alive') = SumOver(size, alive)
     ELSE UNCHANGED <<alive, size, touched>>
  /\ Proj
AMerge ==
  /\ E.op = "amerge" /\ E.same
  /\ E.ok = (E.i \notin Levy)
  /\ IF E.ok THEN size' = [size EXCEPT ![E.i] = @ + size[E.j]] /\ touched' = touched \cup {E.i}
     ELSE UNCHANGED <<size, touched>>
  /\ UNCHANGED alive /\ Proj
Grow ==
  /\ E.op = "grow"
  /\ E.ok = (E.i \notin Levy)
  /\ IF E.ok THEN size' = [size EXCEPT ![E.i] = @ + E.s] /\ touched' = touched \cup {E.i}
     ELSE UNCHANGED <<size, touched>>
  /\ E.z = size'[E.i]
  /\ UNCHANGED alive /\ Proj
Renew ==
  /\ E.op = "renew" /\ E.ok
  /\ size' = [size EXCEPT ![E.i] = 1] /\ touched' = touched \cup {E.i}
  /\ UNCHANGED alive /\ Proj
Del == E.op = "del" /\ E.ok = (E.i \in alive) /\ alive' = alive \ {E.i} /\ UNCHANGED <<size, touched>> /\ Proj
Conn == E.op = "conn" /\ E.ok /\ alive' = Ids /\ UNCHANGED <<size, touched>> /\ Proj
Dit == E.op = "dit" /\ UNCHANGED <<alive, size, touched>>

Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (New \/ DMerge \/ AMerge \/ Grow \/ Renew \/ Del \/ Conn \/ Dit)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
