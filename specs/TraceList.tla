------------------------------ MODULE TraceList ------------------------------
(* Accepts exactly the recorded histories of the real list that follow the   *)
(* contract of LinkList.  One recorded case = one line = one initial state;  *)
(* a rejected event shows up as a deadlock at that event.                    *)
EXTENDS LinkList, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, n, live, ct, mode, last, closed, plast
vars == <<c, l, n, live, ct, mode, last, closed, plast>>

Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)

Init ==
  /\ c \in 1..Len(Trace) /\ l = 1
  /\ n = Trace[c].cfg.k /\ live = 0..(Trace[c].cfg.k - 1)
  /\ ct = [i \in 0..(Trace[c].cfg.k - 1) |-> 100 + i]
  /\ mode = "none" /\ last = NONE /\ closed = FALSE /\ plast = NoPair

(* projection of the real structure after the operation *)
Proj == Case.cfg.proj =>
  /\ IsAsc(E.fw, live') = TRUE
  /\ IsAsc(TLCEval(Reverse(E.bw)), live') = TRUE
  /\ IsAsc(E.al, live') = TRUE
  /\ E.ct = [i \in 1..n' |-> ct'[i - 1]]
  /\ E.hd = (IF live' = {} THEN NONE ELSE Min(live'))
  /\ E.tl = (IF live' = {} THEN NONE ELSE Max(live'))

New == E.op = "init" /\ UNCHANGED <<n, live, ct, mode, last, closed, plast>> /\ Proj

Push ==
  /\ E.op = "push"
  /\ n' = n + 1 /\ live' = live \cup {n}
  /\ ct' = [i \in 0..n |-> IF i = n THEN E.v ELSE ct[i]]
  /\ mode' = (IF mode = "pair" THEN "grown" ELSE mode)
  /\ UNCHANGED <<last, closed, plast>> /\ Proj

Del ==
  /\ E.op = "del"
  /\ E.ok = (E.i \in live)
  /\ live' = live \ {E.i}
  /\ closed' = (closed \/ Above(live \ {E.i}, last) = {})
  /\ UNCHANGED <<n, ct, mode, last, plast>> /\ Proj

Conn ==
  /\ E.op = "conn" /\ E.ok
  /\ live' = 0..(n - 1) /\ mode' = "none"
  /\ UNCHANGED <<n, ct, last, closed, plast>> /\ Proj

It ==
  /\ E.op = "it" /\ mode' = "single" /\ last' = NONE /\ closed' = (live = {})
  /\ UNCHANGED <<n, live, ct, plast>> /\ Proj

(* the element yielded: the next live one; if there was a moment without any  *)
(* element left to visit, ending is allowed as well                           *)
Yield(m) ==
  /\ m # NONE
  /\ E.i \in {m, -2}
  /\ E.a \in {0, 1, 2, 3} => E.v = ct[m]
  /\ ct' = (IF E.a \in {1, 3} THEN [ct EXCEPT ![m] = E.w] ELSE ct)
  /\ last' = m /\ closed' = (Above(live, m) = {}) /\ UNCHANGED mode
Step ==
  /\ E.op = "step"
  /\ IF mode \notin {"single", "ended"} THEN UNCHANGED <<ct, last, closed, mode>>
     ELSE IF E.i = NONE            \* ends, and stays so until a new sweep is started
     THEN /\ closed \/ NextSingle(live, last) = NONE \/ mode = "ended"
          /\ mode' = "ended"
          /\ UNCHANGED <<ct, last, closed>>
     ELSE mode = "single" /\ Yield(NextSingle(live, last))
  /\ UNCHANGED <<n, live, plast>> /\ Proj

Dit ==
  /\ E.op = "dit" /\ mode' = "pair" /\ plast' = NoPair
  /\ UNCHANGED <<n, live, ct, last, closed>> /\ Proj

DStep ==
  /\ E.op = "dstep"
  /\ IF mode = "pended" THEN E.i = NONE /\ E.j = NONE /\ UNCHANGED <<plast, mode>>
     ELSE IF mode = "grown"        \* elements came in between: still only new pairs of live elements, and an end is an end
     THEN IF E.i = NONE THEN mode' = "pended" /\ UNCHANGED plast
          ELSE IF E.i = -2 THEN mode' = "none" /\ UNCHANGED plast
          ELSE /\ E.i \in live /\ E.j \in live /\ E.i < E.j
               /\ plast # NoPair => E.i > plast[1] \/ (E.i = plast[1] /\ E.j > plast[2])
               /\ E.a \in {0, 1} => E.x = ct[E.i] /\ E.y = ct[E.j]
               /\ plast' = <<E.i, E.j>> /\ UNCHANGED mode
     ELSE IF mode # "pair" THEN UNCHANGED <<plast, mode>>
     ELSE LET p == NextPair(live, plast) IN
       IF p = NoPair
       THEN E.i = NONE /\ E.j = NONE /\ mode' = "pended" /\ UNCHANGED plast
       ELSE /\ E.i \in {p[1], -2} /\ E.j \in {p[2], -2}
            /\ E.a \in {0, 1} => E.x = ct[p[1]] /\ E.y = ct[p[2]]
            /\ plast' = p /\ UNCHANGED mode
  /\ UNCHANGED <<n, live, ct, last, closed>> /\ Proj

Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (New \/ Push \/ Del \/ Conn \/ It \/ Step \/ Dit \/ DStep)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
