-------------------------- MODULE ResultFileModel --------------------------
(* A writer killed at any point, and readers for any combination.  A read     *)
(* that succeeds yields the configuration that was written.  With             *)
(* CheckLabels = FALSE the reader trusts positions, as the library once did.   *)
EXTENDS ResultFile, FiniteSets, TLC
CONSTANTS Systems, Agents, Times, Sims, Vals, CheckLabels
VARIABLES comps, vals, disk, phase, reader, res
vars == <<comps, vals, disk, phase, reader, res>>
Combos == {<<s, "Bulk", a, t, m>> : s \in Systems, a \in Agents, t \in Times, m \in Sims}
(* one value differs from the others, at any field *)
ValsOf(cs) == LET f == Fields(cs) IN
  {[i \in 1..Len(f) |-> IF f[i].fix # "*" THEN f[i].fix ELSE IF i = k THEN v ELSE "0"] : k \in 1..Len(f), v \in Vals}
Init == /\ comps \in Combos /\ vals \in ValsOf(comps) /\ disk = <<>> /\ phase = "write" /\ reader = <<>> /\ res = <<>>
WriteLine == /\ phase = "write" /\ Len(disk) < Len(vals)
             /\ disk' = Append(disk, Block(comps, vals)[Len(disk) + 1]) /\ UNCHANGED <<comps, vals, phase, reader, res>>
Kill == phase = "write" /\ phase' = "dead" /\ UNCHANGED <<comps, vals, disk, reader, res>>
Takes(cs, lines) == IF CheckLabels THEN Accepts(cs, lines) ELSE Len(lines) >= Len(Fields(cs))
Read == /\ phase = "dead" /\ \E cs \in Combos : reader' = cs /\ res' = IF Takes(cs, disk) THEN ReadOf(cs, disk) ELSE <<>>
        /\ phase' = "read" /\ UNCHANGED <<comps, vals, disk>>
Next == WriteLine \/ Kill \/ Read
Spec == Init /\ [][Next]_vars
Faithful == (phase = "read" /\ res # <<>>) => (res = vals /\ reader = comps)
NotRefused == (phase = "read" /\ reader = comps /\ Len(disk) = Len(vals)) => res = vals
ArgsRoundTrip == \A i \in 1..Len(comps) : LET c == comps[i] IN
   \A v \in Vals : LET w == [k \in 1..NumArgs(c) |-> IF k = 1 THEN v ELSE "0"] IN WellFormed(<<c>>, ArgsOf(c, w))
=============================================================================
