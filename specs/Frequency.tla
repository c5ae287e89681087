------------------------------ MODULE Frequency ------------------------------
(* How often each cell of a table may be hit in some million draws.  The cells    *)
(* of a flat variable are equally likely; those of a bell variable have the    *)
(* normal probabilities of the intervals cut at 0, .25, .5, .8, 1.2, 1.6, 2,    *)
(* 2.5 and their negatives; pairs of quarters of independent variables are     *)
(* equally likely.                                                             *)
EXTENDS Integers, Sequences
(* the histories are this long; probabilities are given in millionths *)
Millions == 4
Million == 1000000
Equal == [i \in 1..16 |-> Millions * 62500]
Bell == <<6210, 16540, 32049, 60270, 96786, 96682, 92756, 98706,
          98706, 92756, 96682, 96786, 60270, 32049, 16540, 6210>>
Expected(law, form) == IF law = "bell" /\ form = "one" THEN [i \in 1..16 |-> Millions * Bell[i]] ELSE Equal
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
AbsF(x) == IF x < 0 THEN -x ELSE x
(* eight standard deviations: of all histories with the right law, fewer than  *)
(* one in 10^14 leaves the region                                              *)
Usual(n, e) == AbsF(n - e) <= 20000 /\ (n - e) * (n - e) <= 64 * e
(* far out, in four million draws: the last 1/10000 at each end of a flat variable *)
(* and 1/100000 of both; a bell beyond 3, 3.5 and 4 on either side, and beyond 4.5 *)
FlatTails == <<400, 400, 80, 0, 0, 0, 0>>
BellTails == <<5400, 5400, 930, 930, 127, 127, 27>>
ExpectedTails(law, form) == IF form # "one" THEN <<0, 0, 0, 0, 0, 0, 0>> ELSE IF law = "bell" THEN BellTails ELSE FlatTails
(* ten standard deviations, and what is not excluded happens at least once         *)
UsualTail(n, e) == IF e = 0 THEN n = 0 ELSE n > 0 /\ (n - e) * (n - e) <= 100 * e
Plus(s, t) == [i \in 1..Len(s) |-> s[i] + t[i]]
=============================================================================
