------------------------------ MODULE HelpModel ------------------------------
(* A user who follows the help gets what was meant: values are chosen by name,   *)
(* written in the order of the help, and read in the declared order.             *)
EXTENDS Help, TLC, FiniteSets
CONSTANTS Comps, Values, Sorted
VARIABLES comp, meant, words, got
vars == <<comp, meant, words, got>>
Names(c) == {Named(c)[i] : i \in 1..Len(Named(c))}
(* order of the help: as declared, or (Sorted) any other *)
HelpOrder(c) == IF Sorted THEN [i \in 1..Len(Named(c)) |-> Named(c)[Len(Named(c)) + 1 - i]] ELSE Named(c)
Init == /\ comp \in Comps /\ meant \in [Names(comp) -> Values] /\ words = <<>> /\ got = [n \in {} |-> 0]
Write == /\ Len(words) < Len(Named(comp)) /\ words' = Append(words, meant[HelpOrder(comp)[Len(words) + 1]]) /\ UNCHANGED <<comp, meant, got>>
Read == /\ Len(words) = Len(Named(comp)) /\ got = [n \in {} |-> 0]
        /\ got' = [n \in Names(comp) |-> words[CHOOSE i \in 1..Len(words) : Named(comp)[i] = n]]
        /\ UNCHANGED <<comp, meant, words>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars
Meant == got # [n \in {} |-> 0] => got = meant
NoTwice == Cardinality(Names(comp)) = Len(Named(comp))
=============================================================================
