----------------------------- MODULE MergeImpl -----------------------------
(* The merge as the code performs it, step by step (grow the absorber, then  *)
(* delete the absorbed), with the validation first or, Validate = FALSE, as  *)
(* in the original code.  Conservation and atomicity of refusals.            *)
EXTENDS Merge
CONSTANTS N, MaxSize, Validate, Levy
VARIABLES alive, size, last
vars == <<alive, size, last>>
Ids == 0..(N - 1)
Init == alive = Ids /\ size = [i \in Ids |-> 1] /\ last = <<"init", TRUE>>
DoMerge(i, j) ==
  IF Validate /\ ~(i # j /\ i \in alive /\ j \in alive)
  THEN last' = <<"merge", FALSE>> /\ UNCHANGED <<alive, size>>
  ELSE IF i \in Levy
  THEN /\ last' = <<"merge", FALSE>> /\ UNCHANGED alive
       /\ size' = IF Validate THEN size ELSE [size EXCEPT ![i] = @ + size[j]]
  ELSE /\ size' = [size EXCEPT ![i] = @ + size[j]]
       /\ alive' = alive \ {j}
       /\ last' = <<"merge", j \in alive>>
Del(i) == i \in alive /\ alive' = alive \ {i} /\ last' = <<"del", TRUE>> /\ UNCHANGED size
(* a new run: everything reconnected and renewed *)
Fresh == alive' = Ids /\ size' = [i \in Ids |-> 1] /\ last' = <<"fresh", TRUE>>
Next == (\E i, j \in Ids : DoMerge(i, j)) \/ (\E i \in Ids : Del(i)) \/ Fresh
Spec == Init /\ [][Next]_vars
Total == SumOver(size, alive)
Conserved == [][last'[1] = "merge" => SumOver(size', alive') = Total]_vars
Atomic == [][last' = <<"merge", FALSE>> => UNCHANGED <<alive, size>>]_vars
Shrinks == [][last' = <<"merge", TRUE>> => Cardinality(alive') = Cardinality(alive) - 1]_vars
Bounded == \A i \in Ids : size[i] <= MaxSize
=============================================================================
