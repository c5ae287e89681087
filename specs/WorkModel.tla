------------------------------ MODULE WorkModel ------------------------------
(* All landscapes on a small grid whose slope lies between the forces at the   *)
(* ends of each step: along every walk the work done is bounded by the forces  *)
(* met, and a closed walk returns the energy.  Flip turns the force round,*)
(* Scale = 2 forgets a factor.                                                      *)
EXTENDS Work, Sequences
CONSTANTS Len0, Top, Steps, Flip, Scale
VARIABLES u, f, r, lo, hi, gain, k
vars == <<u, f, r, lo, hi, gain, k>>
Grid == 0..Len0
(* forces that fall with the distance, and every potential they belong to      *)
Falling == {g \in [Grid -> 0..Top] : \A i \in 0..(Len0 - 1) : g[i] > g[i + 1]}
RECURSIVE Pots(_, _)
Pots(g, i) == IF i = Len0 THEN {[j \in {Len0} |-> 0]}
              ELSE UNION {{[j \in i..Len0 |-> IF j = i THEN q[i + 1] + d ELSE q[j]] : d \in (g[i + 1])..(g[i])} : q \in Pots(g, i + 1)}
Init == \E g \in Falling : \E q \in Pots(g, 0) :
          f = [i \in Grid |-> (IF Flip THEN -1 ELSE 1) * Scale * g[i]] /\ u = q /\ r \in Grid /\ lo = 0 /\ hi = 0 /\ gain = 0 /\ k = 0
Step(s) ==
  /\ k < Steps /\ s \in Grid /\ s \in {r - 1, r + 1}
  /\ LET d == s - r  a == d * f[r]  b == d * f[s] IN lo' = lo + MinW(a, b) /\ hi' = hi + MaxW(a, b)
  /\ gain' = gain + u[r] - u[s] /\ r' = s /\ k' = k + 1 /\ UNCHANGED <<u, f>>
Next == \E s \in Grid : Step(s)
Spec == Init /\ [][Next]_vars
Bounded == lo <= gain /\ gain <= hi
=============================================================================
