------------------------------ MODULE LinkList ------------------------------
(* The contract of the list of agents.  Elements are identified by the order *)
(* in which they were pushed (0, 1, 2, ...).  Deleted elements stay where    *)
(* they are; reconnecting revives them.  The abstract list is therefore the  *)
(* number n of elements ever pushed and the set of the live ones.            *)
EXTENDS Integers, Sequences, FiniteSets

NONE == -1

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE AscSeq(_)
AscSeq(S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<m>> \o AscSeq(S \ {m})
(* the same, by looking instead of building *)
IsAsc(s, S) == /\ Len(s) = Cardinality(S) /\ \A i \in 1..Len(s) : s[i] \in S
               /\ \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Range(s) == {s[i] : i \in 1..Len(s)}

(* Single sweep: the successor of the element yielded last, NONE at the end. *)
Above(S, x) == {y \in S : x < y}
NextSingle(S, last) == IF Above(S, last) = {} THEN NONE ELSE Min(Above(S, last))

(* Pair sweep: pairs <<i, j>> with i < j, in row order.                      *)
PairLt(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
NoPair == <<NONE, NONE>>
(* least pair of live elements that comes after p; "before all" is <<-1,-1>> *)
NextPair(S, p) ==
  LET row == IF p[1] \in S THEN Above(S, p[2]) ELSE {}
      rows == {i \in Above(S, p[1]) : Above(S, i) # {}}
  IN IF row # {} THEN <<p[1], Min(row)>>
     ELSE IF rows # {} THEN LET i == Min(rows) IN <<i, Min(Above(S, i))>>
     ELSE NoPair
=============================================================================
