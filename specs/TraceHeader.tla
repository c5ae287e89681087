---------------------------- MODULE TraceHeader ----------------------------
(* C11/C12: files written by the components, read back whole, cut, changed    *)
(* and by other combinations; argument lists; data sets.                      *)
EXTENDS ResultFile, Json, TLC, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, comps, orig, file
vars == <<c, l, comps, orig, file>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ comps = <<>> /\ orig = <<>> /\ file = <<>>
WriteEv == /\ E.op = "write" /\ E.nl
           /\ E.labels = LabelsOf(E.comps)
           /\ WellFormed(E.comps, E.vals)
           /\ comps' = E.comps /\ orig' = Block(E.comps, E.vals) /\ file' = orig'
SetEv == E.op = "set" /\ file' = [file EXCEPT ![E.at] = [label |-> E.label, val |-> E.val]] /\ UNCHANGED <<comps, orig>>
SwapEv == E.op = "swap" /\ file' = [file EXCEPT ![E.a] = file[E.b], ![E.b] = file[E.a]] /\ UNCHANGED <<comps, orig>>
RestoreEv == E.op = "restore" /\ file' = orig /\ UNCHANGED <<comps, orig>>
ReadEv == /\ E.op = "read"
          /\ LET on == SubSeq(file, 1, E.keep) IN
             IF Accepts(E.comps, on) THEN E.res = "ok" /\ E.vals = ReadOf(E.comps, on) ELSE E.res = "err"
          /\ UNCHANGED <<comps, orig, file>>
JunkEv == E.op = "junk" /\ E.res = "err" /\ UNCHANGED <<comps, orig, file>>
ArgvEv == /\ E.op = "argv"
          /\ IF AcceptsArgs(E.comp, E.words) THEN E.res = "ok" /\ E.vals = ArgsOf(E.comp, E.words) ELSE E.res = "err"
          /\ UNCHANGED <<comps, orig, file>>
(* a file cut at any byte: only the last value can be damaged without notice  *)
Sel == LET keep(f) == f.label \in ToSet(Case.cfg.sel) IN
       LET s == SelectSeq(file, keep) IN [i \in 1..Len(s) |-> s[i].val]
CutEv == /\ E.op = "cut" /\ E.total = Len(file)
         /\ \/ E.full >= E.total /\ E.res = "ok" /\ E.vals = Sel /\ E.same /\ E.next = "marker"
            \/ E.full = E.total - 1 /\ E.res = "ok" /\ E.vals = Sel /\ E.same
            \/ E.full = E.total - 1 /\ E.res = "err"
            \/ E.full < E.total - 1 /\ E.res = "err"
         /\ UNCHANGED <<comps, orig, file>>
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c
     /\ (WriteEv \/ SetEv \/ SwapEv \/ RestoreEv \/ ReadEv \/ JunkEv \/ ArgvEv \/ CutEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
