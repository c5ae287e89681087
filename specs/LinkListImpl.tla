---------------------------- MODULE LinkListImpl ----------------------------
(* Implementation-shaped model: a doubly linked list in vectors with two     *)
(* cursors, one action per public method (src/iterator.rs).  The ghost       *)
(* variables carry the contract of LinkList; the invariants say that the     *)
(* linked structure and the cursors refine it in every reachable state.      *)
EXTENDS LinkList

CONSTANTS MaxN,        \* number of elements ever pushed
          RepairCursor   \* TRUE: repair the pair cursor on deletion as the code does
                       \* FALSE: move each cursor separately (the original code)
VARIABLES nx, pv, al, head, tail, cur,     \* the vectors and cursors
          n, live,                         \* abstract list
          mode, last, closed,              \* what the caller is doing
          plast, whole, seen,              \* pair sweep: last pair, alive since start, presented
          out                              \* what the last step returned

impl == <<nx, pv, al, head, tail, cur>>
ghost == <<n, live, mode, last, closed, plast, whole, seen, out>>
vars == <<nx, pv, al, head, tail, cur, n, live, mode, last, closed, plast, whole, seen, out>>

Idx == 0..(n - 1)
Nxt(f, x) == IF x = NONE THEN NONE ELSE f[x]

Init == \E k \in 0..MaxN :
  /\ n = k /\ live = 0..(k - 1)
  /\ nx = [i \in 0..(k - 1) |-> IF i = k - 1 THEN NONE ELSE i + 1]
  /\ pv = [i \in 0..(k - 1) |-> i - 1]
  /\ al = [i \in 0..(k - 1) |-> TRUE]
  /\ head = (IF k = 0 THEN NONE ELSE 0) /\ tail = k - 1
  /\ cur = <<NONE, NONE>>
  /\ mode = "none" /\ last = NONE /\ closed = FALSE
  /\ plast = NoPair /\ whole = {} /\ seen = {} /\ out = <<"init", k>>

Ext(f, v) == [i \in 0..n |-> IF i = n THEN v ELSE f[i]]

Push ==
  /\ n < MaxN
  /\ n' = n + 1 /\ live' = live \cup {n}
  /\ nx' = [Ext(nx, NONE) EXCEPT ![IF tail = NONE THEN n ELSE tail] = IF tail = NONE THEN NONE ELSE n]
  /\ pv' = Ext(pv, tail) /\ al' = Ext(al, TRUE)
  /\ head' = (IF tail = NONE THEN n ELSE head) /\ tail' = n
  /\ mode' = (IF mode = "pair" THEN "none" ELSE mode)   \* pushes during a pair sweep are outside the contract
  /\ out' = <<"push">>
  /\ UNCHANGED <<cur, last, closed, plast, whole, seen>>

Del(i) ==
  /\ i \in Idx /\ al[i]
  /\ LET a == pv[i] b == nx[i]
         nx2 == IF a = NONE THEN nx ELSE [nx EXCEPT ![a] = b]
         pv2 == IF b = NONE THEN pv ELSE [pv EXCEPT ![b] = a]
     IN /\ al' = [al EXCEPT ![i] = FALSE]
        /\ nx' = nx2 /\ pv' = pv2
        /\ head' = (IF a = NONE THEN b ELSE head)
        /\ tail' = (IF b = NONE THEN a ELSE tail)
        /\ cur' = IF ~RepairCursor THEN <<IF cur[1] = i THEN b ELSE cur[1], IF cur[2] = i THEN b ELSE cur[2]>>
                  ELSE IF cur[1] = i THEN <<b, IF cur[2] = NONE THEN NONE ELSE Nxt(nx2, b)>>
                  ELSE IF cur[2] = i
                       THEN IF b # NONE THEN <<cur[1], b>>
                            ELSE <<Nxt(nx2, cur[1]), Nxt(nx2, Nxt(nx2, cur[1]))>>
                  ELSE cur
  /\ live' = live \ {i} /\ whole' = whole \ {i}
  /\ closed' = (closed \/ Above(live \ {i}, last) = {})
  /\ out' = <<"del", i>>
  /\ UNCHANGED <<n, mode, last, plast, seen>>

ConnectAll ==
  /\ nx' = [i \in Idx |-> IF i = n - 1 THEN NONE ELSE i + 1]
  /\ pv' = [i \in Idx |-> i - 1]
  /\ al' = [i \in Idx |-> TRUE]
  /\ head' = (IF n = 0 THEN NONE ELSE 0) /\ tail' = n - 1
  /\ live' = 0..(n - 1) /\ mode' = "none" /\ out' = <<"conn">>
  /\ UNCHANGED <<cur, n, last, closed, plast, whole, seen>>

IntoIter ==
  /\ cur' = <<head, IF RepairCursor THEN NONE ELSE cur[2]>>
  /\ mode' = "single" /\ last' = NONE /\ closed' = (live = {}) /\ out' = <<"it">>
  /\ UNCHANGED <<nx, pv, al, head, tail, n, live, plast, whole, seen>>

Step ==
  /\ mode = "single"
  /\ IF cur[1] = NONE
     THEN /\ out' = <<"step", NONE>> /\ mode' = "none"
          /\ UNCHANGED <<cur, last, closed>>
     ELSE /\ out' = <<"step", cur[1]>>
          /\ cur' = <<nx[cur[1]], cur[2]>>
          /\ last' = cur[1] /\ closed' = (Above(live, cur[1]) = {}) /\ UNCHANGED mode
  /\ UNCHANGED <<nx, pv, al, head, tail, n, live, plast, whole, seen>>

IntoDouble ==
  /\ cur' = <<head, Nxt(nx, head)>>
  /\ mode' = "pair" /\ plast' = NoPair /\ whole' = live /\ seen' = {} /\ out' = <<"dit">>
  /\ UNCHANGED <<nx, pv, al, head, tail, n, live, last, closed>>

DStep ==
  /\ mode = "pair"
  /\ IF cur[1] = NONE \/ cur[2] = NONE
     THEN /\ out' = <<"dstep", NONE, NONE>> /\ mode' = "none"
          /\ UNCHANGED <<cur, plast, seen>>
     ELSE /\ out' = <<"dstep", cur[1], cur[2]>>
          /\ cur' = IF cur[2] = tail THEN <<Nxt(nx, cur[1]), Nxt(nx, Nxt(nx, cur[1]))>>
                    ELSE <<cur[1], nx[cur[2]]>>
          /\ plast' = <<cur[1], cur[2]>> /\ seen' = seen \cup {<<cur[1], cur[2]>>} /\ UNCHANGED mode
  /\ UNCHANGED <<nx, pv, al, head, tail, n, live, last, closed, whole>>

Next == Push \/ (\E i \in Idx : Del(i)) \/ ConnectAll \/ IntoIter \/ Step \/ IntoDouble \/ DStep
Spec == Init /\ [][Next]_vars

(* ---- C01: the links are the ascending order of the live elements ---- *)
RECURSIVE Walk(_, _, _)
Walk(f, x, k) == IF x = NONE \/ k = 0 THEN <<>> ELSE <<x>> \o Walk(f, f[x], k - 1)
Structure ==
  /\ Walk(nx, head, n + 1) = AscSeq(live)
  /\ Walk(pv, tail, n + 1) = Reverse(AscSeq(live))
  /\ \A i \in Idx : al[i] <=> i \in live

(* ---- C02 ---- *)
SingleStep ==
  [][(mode = "single" /\ out'[1] = "step") =>
       LET m == NextSingle(live, last) IN
         IF closed THEN out'[2] \in {NONE, m} ELSE out'[2] = m /\ m # NONE]_vars
(* ---- C03 ---- *)
PairStep ==
  [][(mode = "pair" /\ out'[1] = "dstep") => <<out'[2], out'[3]>> = NextPair(live, plast)]_vars
PairOrder == \A p \in seen : p[1] < p[2]
PairComplete ==
  (out[1] = "dstep" /\ out[2] = NONE) =>
     \A i, j \in whole : i < j => <<i, j>> \in seen

View == <<impl, n, live, mode, last, closed, plast, whole, seen, out>>
=============================================================================
