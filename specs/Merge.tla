------------------------------- MODULE Merge -------------------------------
(* Agents that absorb each other, kept in the list.  Sizes are kept for all  *)
(* elements ever created, deleted or not, as the code does.                  *)
EXTENDS LinkList

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

Abs(x) == IF x < 0 THEN -x ELSE x

(* d millionths is size^(-al/4), to the rounding of the projection *)
CoeffOk(d, size, al) ==
  CASE al = 0  -> d = 1000000
    [] al = 4  -> Abs(d * size - 1000000) <= size
    [] al = 8  -> IF size > 1000 THEN d \in {0, 1} ELSE Abs(d * size * size - 1000000) <= size * size
    [] al = -4 -> d = 1000000 * size
    [] al = 2  -> LET t == d \div 1000 IN t * t * size <= 1000000 + 2 * t * size /\ (t + 1) * (t + 1) * size >= 1000000
    [] OTHER   -> FALSE

(* which requests are accepted *)
Mergeable(alive, levy, i, j) == i # j /\ i \in alive /\ j \in alive /\ i \notin levy
=============================================================================
