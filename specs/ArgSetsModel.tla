---------------------------- MODULE ArgSetsModel ----------------------------
(* Histories of two sets of arguments of one component.  Shared: a copy holds  *)
(* the original's fields; KindToo: clearing restores the kind as well.         *)
EXTENDS ArgSets, FiniteSets
CONSTANTS Comps, Values, Shared, KindToo
VARIABLES c, x, y, alias, hist
vars == <<c, x, y, alias, hist>>
Init == /\ c \in Comps /\ x = Cleared(c) /\ y = Cleared(c) /\ alias = FALSE /\ hist = [last |-> "none", i |-> 0, was |-> x, other |-> y]
Do(name, i, nx) == /\ x' = nx /\ y' = (IF alias THEN nx ELSE y)
                   /\ hist' = [last |-> name, i |-> i, was |-> x, other |-> y] /\ UNCHANGED <<c, alias>>
Make == \E w \in [1..NumArgs(c) -> Values] : Do("make", 0, ArgsOf(c, w))
PutAt == \E i \in 1..Len(x), v \in Values : Do("put", i, Put(x, i, v))
Clear == Do("clear", 0, [i \in 1..Len(x) |-> IF ~KindToo /\ Schema(c)[i].fix # "*" THEN x[i] ELSE DefaultOf(Schema(c)[i])])
Copy == y' = x /\ alias' = Shared /\ hist' = [last |-> "copy", i |-> 0, was |-> x, other |-> x] /\ UNCHANGED <<c, x>>
Swap == x' = y /\ y' = x /\ hist' = [last |-> "swap", i |-> 0, was |-> x, other |-> x] /\ UNCHANGED <<c, alias>>
Next == Make \/ PutAt \/ Clear \/ Copy \/ Swap
Spec == Init /\ [][Next]_vars
Fields0 == Len(x) = Len(Schema(c)) /\ Len(y) = Len(x)
Apart == y = hist.other
OneOnly == hist.last = "put" => \A j \in 1..Len(x) : j # hist.i => x[j] = hist.was[j]
Fresh == hist.last = "clear" => x = Cleared(c)
KindOf == hist.last \in {"make", "clear"} => WellFormed(<<c>>, x)
(* every value put in lies in its own field: what is read back are the words in order *)
InOrder == hist.last = "make" => \E w \in [1..NumArgs(c) -> Values] : ArgsOf(c, w) = x /\ SelectSeq([i \in 1..Len(x) |-> <<i, x[i]>>], LAMBDA p : Schema(c)[p[1]].fix = "*") # <<>>
Rows == \A a \in Comps : NumArgs(a) = Cardinality({i \in 1..Len(Schema(a)) : Schema(a)[i].fix = "*"})
=============================================================================
