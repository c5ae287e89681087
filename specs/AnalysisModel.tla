---------------------------- MODULE AnalysisModel ----------------------------
(* An analysis of a directory as the program does it: an output directory is   *)
(* chosen and made, files are read one after the other in any order, their     *)
(* samples go into the accumulator of their configuration, at the end every    *)
(* accumulator with samples is drawn. Files may be added between analyses,     *)
(* and one object may be cleared and fed again.                                *)
EXTENDS Analysis
CONSTANTS Own, ClearAll, Configs, Values, MaxFiles, MaxRuns
VARIABLES files, outs, phase, todo, acc, made, runs, result
vars == <<files, outs, phase, todo, acc, made, runs, result>>
(* an accumulator: sums as the program keeps them, and counts of the bins      *)
G == [min |-> 4, max |-> 12, bn |-> 4, bd |-> 1, n |-> 2, xq |-> TRUE, xl |-> TRUE,
      edges |-> <<4000, 8000, 16000>>, mids |-> <<5657, 11314>>, kind |-> "time", nv |-> 1]
Bin(x) == IF x < 4 \/ x > 12 THEN -1 ELSE IF x < 8 THEN 0 ELSE 1
LBin(x) == IF x < 4 \/ x > 12 THEN -1 ELSE IF x < 8 THEN 0 ELSE 1
Empty == [ens |-> 0, sum |-> 0, sq |-> 0, lin |-> [k \in 0..1 |-> 0], log |-> [k \in 0..1 |-> 0]]
Put(a, x) == [ens |-> a.ens + 1, sum |-> a.sum + x, sq |-> a.sq + x * x,
              lin |-> [k \in 0..1 |-> a.lin[k] + (IF Bin(x) = k THEN 1 ELSE 0)],
              log |-> [k \in 0..1 |-> a.log[k] + (IF LBin(x) = k THEN 1 ELSE 0)]]
RECURSIVE PutAll(_, _, _)
PutAll(a, S, n) == IF n = 0 THEN a ELSE Put(PutAll(a, S, n - 1), S[n])
Init == /\ files = <<>> /\ outs = {} /\ phase = "idle" /\ todo = {} /\ acc = [k \in Configs |-> Empty]
        /\ made = 0 /\ runs = 0 /\ result = <<>>
AddFile == /\ phase = "idle" /\ Len(files) < MaxFiles
           /\ \E k \in Configs, S \in {<<>>} \cup {<<x>> : x \in Values} \cup {<<x, y>> : x \in Values, y \in Values} :
                files' = Append(files, [key |-> k, ens |-> S])
           /\ result' = <<>> /\ UNCHANGED <<outs, phase, todo, acc, made, runs>>
(* the name of the first output directory of the day is 1, then 2, 3, ...        *)
Foreign == phase = "idle" /\ runs < MaxRuns /\ \E d \in 1..3 : d \notin outs /\ outs' = outs \cup {d}
           /\ UNCHANGED <<files, phase, todo, acc, made, runs, result>>
Free == IF Own THEN CHOOSE d \in 1..9 : d \notin outs /\ \A e \in 1..(d - 1) : e \in outs ELSE 1
Begin == /\ phase = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
         /\ made' = Free /\ outs' = outs \cup {Free}
         /\ phase' = "read" /\ todo' = 1..Len(files)
         /\ acc' = (IF ClearAll THEN [k \in Configs |-> Empty] ELSE [k \in Configs |-> [acc[k] EXCEPT !.ens = 0]])
         /\ UNCHANGED <<files, result>>
Read == /\ phase = "read" /\ \E i \in todo :
             /\ acc' = [acc EXCEPT ![files[i].key] = PutAll(@, files[i].ens, Len(files[i].ens))]
             /\ todo' = todo \ {i}
        /\ UNCHANGED <<files, outs, phase, made, runs, result>>
Finish == /\ phase = "read" /\ todo = {} /\ phase' = "idle"
          /\ result' = [k \in {k \in Configs : acc[k].ens > 0} |-> acc[k]]
          /\ UNCHANGED <<files, outs, todo, acc, made, runs>>
Next == AddFile \/ Foreign \/ Begin \/ Read \/ Finish
Spec == Init /\ [][Next]_vars
Pooled(k) == LET F == SelectSeq(files, LAMBDA f : f.key = k) IN Flat([i \in 1..Len(F) |-> F[i].ens], Len(F))
(* an analysis that has ended states exactly the pooled samples                  *)
Exact == (phase = "idle" /\ result # <<>>) =>
  /\ DOMAIN result = {k \in Configs : Pooled(k) # <<>>}
  /\ \A k \in DOMAIN result : LET P == Pooled(k)
                                  ms == Mays(G, FALSE, [i \in 1..Len(P) |-> <<P[i], 0>>])
                                  ls == Mays(G, TRUE, [i \in 1..Len(P) |-> <<P[i], 0>>])
                                  a == result[k] IN
       /\ a.ens = Len(P) /\ a.sum = Sum(P) /\ a.sq = SqSeq(P, Len(P))
       /\ \A b \in 0..1 : a.lin[b] = Least(ms, b) /\ a.lin[b] = Most(ms, b)
                          /\ a.log[b] = Least(ls, b) /\ a.log[b] = Most(ls, b)
(* the oracle of the trace specifications puts every sample of the range into     *)
(* exactly one bin of each kind                                                   *)
OneBin == \A x \in Values : \A log \in BOOLEAN :
            Cardinality(May(G, log, <<x, 0>>)) = (IF In(G, <<x, 0>>) THEN 1 ELSE 0)
OwnDirectory == [][phase = "idle" /\ phase' = "read" => made' \notin outs]_vars
OutsKept == [][outs \subseteq outs']_vars
=============================================================================
