---------------------------- MODULE SequenceModel ----------------------------
(* Two owners of coordinates and what their operations may change; Shared: the   *)
(* copy of a position still holds the original's coordinates.                    *)
EXTENDS Sequence
CONSTANTS MaxLen, Values, Shared
VARIABLES x, y, alias, hist
vars == <<x, y, alias, hist>>
Init == x = <<>> /\ y = <<>> /\ alias = FALSE /\ hist = [dim |-> 0, last |-> "new", other |-> <<>>]
Do(name, nx) == /\ x' = nx /\ y' = (IF alias THEN nx ELSE y) /\ alias' = alias
                /\ hist' = [dim |-> Len(x), last |-> name, other |-> y]
Push == Len(x) < MaxLen /\ \E v \in Values : Do("push", Append(x, v))
Extend == \E s \in {<<>>} \cup [1..2 -> Values] : Len(x) + Len(s) <= MaxLen /\ Do("extend", x \o s)
PutAt == \E i \in 1..Len(x), v \in Values : Do("put", Put(x, i, v))
Clear == Do("clear", Zeros(x))
Copy == /\ y' = x /\ alias' = Shared /\ hist' = [dim |-> Len(x), last |-> "copy", other |-> x] /\ UNCHANGED x
Swap == /\ x' = y /\ y' = x /\ UNCHANGED alias /\ hist' = [dim |-> Len(y), last |-> "swap", other |-> x]
Next == Push \/ Extend \/ PutAt \/ Clear \/ Copy \/ Swap
Spec == Init /\ [][Next]_vars
Types == x \in UNION {[1..n -> Values \cup {0}] : n \in 0..MaxLen} /\ Len(x) <= MaxLen
(* no operation on one position touches the other *)
Apart == y = hist.other
KeepsDim == hist.last \in {"put", "clear", "copy"} => Len(x) = hist.dim
Pieces == \A a \in 0..Len(x) : Range0(x, 0, a) \o Range0(x, a, Len(x)) = x
=============================================================================
