------------------------------ MODULE Sequence ------------------------------
(* A position is the sequence of its coordinates. *)
EXTENDS Integers, Sequences
Put(x, i, v) == [x EXCEPT ![i] = v]
Shift(x, k) == [i \in 1..Len(x) |-> x[i] + k]
Zeros(x) == [i \in 1..Len(x) |-> 0]
(* Rust ranges a..b are 0 based and end before b *)
Range0(x, a, b) == SubSeq(x, a + 1, b)
(* the live ones of a list of positions, in order *)
Live(n, dead) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \notin dead)
=============================================================================
