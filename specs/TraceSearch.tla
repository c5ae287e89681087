----------------------------- MODULE TraceSearch -----------------------------
(* Recorded runs of programs composed from the library's parts.               *)
(* cfg: shape, d, dim, L, R (grid units), n agents, kind "merge" | "force" |   *)
(* "indep", style "first" | "all", t/ts target, rad particle radius, al        *)
(* exponent in quarters, d0 declared coefficient, tmax.                        *)
EXTENDS Search, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, ph, alive, pos, size, cur, now, last, plast, acc, gone, touched
vars == <<c, l, ph, alive, pos, size, cur, now, last, plast, acc, gone, touched>>
st == <<ph, alive, pos, size, cur, now, last, plast, acc, gone, touched>>
Case == Trace[c]
G == Case.cfg
E == Case.ev[l]
Done == l > Len(Case.ev)
N == G.n
Ids == 0..(N - 1)
SL == 1
Null == [k \in 1..G.dim |-> 0]
Init ==
  /\ c \in 1..Len(Trace) /\ l = 1 /\ ph = "over" /\ alive = {} /\ pos = <<>> /\ size = <<>>
  /\ cur = 0 /\ now = 0 /\ last = NONE /\ plast = NoPair /\ acc = <<>> /\ gone = 0 /\ touched = {}

InTarget(p) == Closer(p, G.t, G.ts, -2)
Coeffs(dm, al, sz, tch) ==
  \A k \in 1..Len(dm) : IF G.kind # "merge" THEN dm[k] = G.d0
                        ELSE IF al[k] \in tch THEN CoeffOk(dm[k], sz[al[k]], G.al) ELSE dm[k] = G.d0
(* everything the run starts from *)
Place ==
  /\ E.op = "place" /\ ph = "over" /\ E.ok
  /\ alive' = Ids /\ E.al = AscSeq(Ids) /\ E.walk = AscSeq(Ids)
  /\ pos' = [i \in Ids |-> E.p[i + 1]]
  /\ size' = [i \in Ids |-> 1] /\ \A i \in 1..N : E.sz[i] = 1
  /\ touched' = (IF E.renewed /\ G.kind = "merge" THEN Ids ELSE {})
  /\ Coeffs(E.dm, E.al, size', touched')
  /\ \A i \in 1..N : Len(E.p[i]) = G.dim /\ (InsideUpTo(G, E.p[i], SL) = TRUE) /\ Farther(E.p[i], G.t, G.ts, 2)
  /\ E.now = 0 /\ cur' = 0 /\ now' = 0 /\ gone' = 0
  /\ ph' = "idle" /\ last' = NONE /\ plast' = NoPair /\ acc' = [i \in Ids |-> Null]
Emit ==
  /\ E.op = "emit" /\ ph = "idle"
  /\ E.some = (G.tmax = 0 \/ cur <= G.tmax)
  /\ IF E.some
     THEN E.t = cur /\ E.d > 0 /\ cur' = cur + E.d /\ now' = cur
          /\ ph' = (IF cur = 0 THEN "idle" ELSE IF G.kind = "force" THEN "collide" ELSE "sweep")
     ELSE ph' = "late" /\ UNCHANGED <<cur, now>>
  /\ last' = NONE /\ plast' = NoPair /\ acc' = [i \in Ids |-> Null]
  /\ UNCHANGED <<alive, pos, size, gone, touched>>
Pair ==
  /\ E.op = "pair" /\ ph = "collide"
  /\ NextPair(alive, plast) = <<E.i, E.j>>
  /\ plast' = <<E.i, E.j>>
  /\ IF G.kind = "force"
     THEN acc' = [acc EXCEPT ![E.i] = [k \in 1..G.dim |-> @[k] - E.f[k]], ![E.j] = [k \in 1..G.dim |-> @[k] + E.f[k]]]
          /\ UNCHANGED <<alive, size, touched>>
     ELSE /\ Answer(E.m, pos[E.i], pos[E.j], 2 * G.rad, 3)
          /\ IF E.m
             THEN LET a == IF G.absorber = "first" THEN E.i ELSE E.j  b == IF a = E.i THEN E.j ELSE E.i IN
                  /\ E.ok /\ size' = [size EXCEPT ![a] = @ + size[b]] /\ alive' = alive \ {b} /\ touched' = touched \cup {a}
             ELSE UNCHANGED <<alive, size, touched>>
          /\ UNCHANGED acc
  /\ UNCHANGED <<ph, pos, cur, now, last, gone>>
PairEnd ==
  /\ E.op = "pend" /\ ph = "collide" /\ NextPair(alive, plast) = NoPair
  /\ ph' = (IF G.kind = "force" THEN "sweep" ELSE "snap")
  /\ UNCHANGED <<alive, pos, size, cur, now, last, plast, acc, gone, touched>>
Move ==
  /\ E.op = "move" /\ ph = "sweep"
  /\ NextSingle(alive, last) = E.i
  /\ E.p = pos[E.i] /\ Len(E.q) = G.dim
  /\ \A k \in 1..G.dim : AbsI(E.a[k] - acc[E.i][k]) <= 1 + N
  /\ (\A k \in 1..G.dim : E.capped \/ AbsI(E.d[k] - E.a[k]) <= E.b + 1) = TRUE
  /\ LET t == Add(E.p, E.d) IN
     IF E.ok
     THEN /\ Lands(G, t, E.q, E.w, SL) = TRUE /\ InsideUpTo(G, E.q, SL) = TRUE
          /\ Answer(E.hit, E.q, G.t, G.ts, 2)
          /\ ph' = (IF E.hit /\ G.style = "first" THEN "hit" ELSE IF E.hit THEN "take" ELSE "sweep")
          /\ pos' = [pos EXCEPT ![E.i] = E.q]
     ELSE TooFar(G, t, SL) = TRUE /\ ph' = "error" /\ UNCHANGED pos
  /\ last' = E.i
  /\ UNCHANGED <<alive, size, cur, now, plast, acc, gone, touched>>
(* a found agent is taken out and the sweep goes on *)
Take ==
  /\ E.op = "take" /\ ph = "take" /\ E.i = last /\ E.ok
  /\ alive' = alive \ {E.i} /\ gone' = gone + size[E.i] /\ ph' = "sweep"
  /\ UNCHANGED <<pos, size, cur, now, last, plast, acc, touched>>
SweepEnd ==
  /\ E.op = "send" /\ ph = "sweep" /\ NextSingle(alive, last) = NONE
  /\ ph' = (IF alive = {} THEN "empty" ELSE IF G.kind = "merge" THEN "collide" ELSE "snap")
  /\ UNCHANGED <<alive, pos, size, cur, now, last, plast, acc, gone, touched>>
(* at the end of every tick, everything seen directly *)
Snap ==
  /\ E.op = "snap" /\ ph = "snap" /\ ph' = "idle"
  /\ E.al = AscSeq(alive)
  /\ \A k \in 1..Len(E.al) :
       /\ E.p[k] = pos[E.al[k]] /\ E.sz[k] = size[E.al[k]]
       /\ InsideUpTo(G, E.p[k], SL) = TRUE
       /\ Farther(E.p[k], G.t, G.ts, 2)
  /\ Coeffs(E.dm, E.al, size, touched)
  /\ SumOver(size, alive) + gone = N
  /\ G.kind = "merge" => \A i, j \in alive : i < j => Farther(pos[i], pos[j], 2 * G.rad, 3)
  /\ E.now = cur
  /\ UNCHANGED <<alive, pos, size, cur, now, last, plast, acc, gone, touched>>
Over ==
  /\ E.op = "over"
  /\ CASE ph = "hit" -> E.why = "hit" /\ E.t = now /\ now > 0
       [] ph = "late" -> E.why = "time"
       [] ph = "empty" -> E.why = "empty" /\ E.t = now /\ gone = N
       [] ph = "error" -> E.why = "error"
       [] OTHER -> ph = "idle" /\ E.why = "stop"
  /\ SumOver(size, alive) + gone = N
  /\ ph' = "over"
  /\ UNCHANGED <<alive, pos, size, cur, now, last, plast, acc, gone, touched>>
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (Place \/ Emit \/ Pair \/ PairEnd \/ Move \/ Take \/ SweepEnd \/ Snap \/ Over)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
