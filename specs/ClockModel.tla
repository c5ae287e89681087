----------------------------- MODULE ClockModel -----------------------------
(* Bounded exploration of the clock: any interleaving of emissions, changes  *)
(* of the limit and of the factor, and renewals.                             *)
EXTENDS Clock, TLC
CONSTANTS DMaxs, Lens, Incs, TMaxs, MaxEmit, Guarded
VARIABLES k, last, cnt, same
vars == <<k, last, cnt, same>>
None == [t |-> -1, d |-> 0, ok |-> FALSE]
DMin == 8
IncsOf == Incs     \* pairs <<num, den>>
Init == \E dm \in DMaxs, L \in Lens, tm \in TMaxs :
   /\ k = [cur |-> 0, d |-> DMin, n |-> 0, dmin |-> DMin, dmax |-> dm, len |-> L, num |-> 3, den |-> 2, tmax |-> tm]
   /\ last = None /\ cnt = 0 /\ same = 0
Emit == /\ cnt < MaxEmit /\ CanEmit(k)
        /\ last' = [t |-> k.cur, d |-> StepOf(k), ok |-> TRUE]
        /\ same' = IF last.ok /\ last.d = StepOf(k) THEN same + 1 ELSE 1
        /\ k' = EmitOf(k) /\ cnt' = cnt + 1
Withhold == /\ ~CanEmit(k) /\ last.ok /\ last' = [last EXCEPT !.ok = FALSE] /\ UNCHANGED <<k, cnt, same>>
Renew == /\ cnt > 0 /\ cnt < MaxEmit /\ k' = RenewOf(k) /\ last' = None /\ same' = 0 /\ cnt' = cnt + 1
SetTmax == \E x \in TMaxs : /\ x # k.tmax /\ cnt < MaxEmit /\ cnt' = cnt + 1 /\ last' = IF last.ok THEN last ELSE [last EXCEPT !.ok = FALSE]
                            /\ k' = [k EXCEPT !.tmax = x] /\ UNCHANGED same
SetInc == \E x \in Incs : /\ k.len > 0 /\ cnt < MaxEmit /\ cnt' = cnt + 1 /\ UNCHANGED <<last, same>>
            /\ k' = IF Guarded => ValidInc(x[1], x[2])
                    THEN [k EXCEPT !.num = LimitNum(k.len, x[1], x[2]), !.den = LimitDen(k.len, x[1], x[2])] ELSE k
Next == Emit \/ Withhold \/ Renew \/ SetTmax \/ SetInc \/ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Live == Init /\ [][Emit \/ Withhold]_vars /\ WF_vars(Emit) /\ WF_vars(Withhold)

InRange == k.d >= k.dmin /\ k.d <= k.dmax /\ Growing(k)
(* a stage never lasts longer than declared unless the cap is reached *)
StageLen == (k.len > 0 /\ k.d < k.dmax) => k.n <= k.len
TimeOk == (last.ok /\ last.t >= 0) => k.cur = last.t + last.d
Monotone == [][(last'.t >= 0 /\ last.t >= 0 /\ last'.t # last.t) => last'.t = last.t + last.d]_vars
NeverPast == [][(last'.ok /\ last'.t # last.t /\ k.tmax > 0) => last'.t <= k.tmax]_vars
NoShrink == [][(last'.t >= 0 /\ last.t >= 0) => last'.d >= last.d]_vars
Positive == k.d > 0
Ends == <>(~ENABLED Emit)
IncSet == {<<3, 2>>, <<2, 1>>, <<6, 5>>, <<1, 1>>, <<1, 2>>, <<10, 1>>}
=============================================================================
