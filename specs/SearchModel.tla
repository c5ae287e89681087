----------------------------- MODULE SearchModel -----------------------------
(* All runs of a small search: N agents on a line or a square, any placement,  *)
(* any displacement up to Step, any order of hits and collisions, consecutive  *)
(* ensembles that reuse the same objects.                                      *)
EXTENDS Search
CONSTANTS N, L, Dim, Reflecting, Target, Radius, Step, TMax, MaxRuns, Mergeable2, Style,
          SkipFirst, LoseMass, Reconnect, StopOuter, ResetClock
VARIABLES ph, alive, pos, size, now, tick, last, plast, moves, found, gone, runs, hit
vars == <<ph, alive, pos, size, now, tick, last, plast, moves, found, gone, runs, hit>>
MCTarget == [p |-> [i \in 1..Dim |-> IF i = 1 THEN 1 ELSE 0], r |-> 1]
S == [shape |-> "cubic", d |-> (IF Reflecting THEN Dim ELSE 0), dim |-> Dim, L |-> L, R |-> 0]
Ids == 0..(N - 1)
Points == [1..Dim -> (-L)..L]
Free == {p \in Points : ~Found(Target, p)}
Zero == [i \in Ids |-> 0]
Init ==
  /\ ph = "place" /\ alive = Ids /\ pos = [i \in Ids |-> [k \in 1..Dim |-> 0]] /\ size = [i \in Ids |-> 1]
  /\ now = 0 /\ tick = 0 /\ last = NONE /\ plast = NoPair /\ moves = Zero /\ found = FALSE /\ gone = 0 /\ runs = 0 /\ hit = NONE
Place ==
  /\ ph = "place" /\ pos' \in [Ids -> Free]
  /\ size' = [i \in Ids |-> 1] /\ alive' = (IF Reconnect THEN Ids ELSE alive) /\ ph' = "idle"
  /\ now' = (IF ResetClock THEN 0 ELSE now) /\ tick' = 0 /\ gone' = 0 /\ runs' = runs + 1
  /\ found' = FALSE /\ hit' = NONE /\ moves' = Zero /\ UNCHANGED <<last, plast>>
(* the clock emits 0, 1, 2, ... while not beyond TMax; nothing moves at time 0 *)
Emit ==
  /\ ph = "idle" /\ now <= TMax
  /\ tick' = now /\ now' = now + 1
  /\ ph' = (IF now = 0 THEN "idle" ELSE "sweep")
  /\ last' = (IF SkipFirst /\ alive # {} THEN Min(alive) ELSE NONE) /\ moves' = Zero
  /\ UNCHANGED <<alive, pos, size, plast, found, gone, runs, hit>>
Move ==
  /\ ph = "sweep" /\ NextSingle(alive, last) # NONE
  /\ LET i == NextSingle(alive, last) IN \E d \in [1..Dim -> (-Step)..Step] :
       LET t == Add(pos[i], d)  q == [k \in 1..Dim |-> Fold(S, k, t[k])] IN
       /\ pos' = [pos EXCEPT ![i] = q] /\ last' = i /\ moves' = [moves EXCEPT ![i] = @ + 1]
       /\ IF Found(Target, q)
          THEN IF Style = "first"
               THEN hit' = i /\ (IF StopOuter THEN ph' = "over" /\ found' = TRUE ELSE ph' = "collide" /\ UNCHANGED found)
                    /\ UNCHANGED <<alive, gone>>
               ELSE alive' = alive \ {i} /\ gone' = gone + size[i] /\ UNCHANGED <<ph, found, hit>>
          ELSE UNCHANGED <<ph, found, hit, alive, gone>>
  /\ plast' = NoPair
  /\ UNCHANGED <<size, now, tick, runs>>
Swept ==
  /\ ph = "sweep" /\ NextSingle(alive, last) = NONE
  /\ ph' = (IF alive = {} THEN "over" ELSE IF Mergeable2 THEN "collide" ELSE "idle") /\ plast' = NoPair
  /\ found' = (alive = {})
  /\ UNCHANGED <<alive, pos, size, now, tick, last, moves, gone, runs, hit>>
Collide ==
  /\ ph = "collide"
  /\ LET p == NextPair(alive, plast) IN
     IF p = NoPair THEN ph' = "idle" /\ UNCHANGED <<alive, size, plast>>
     ELSE /\ plast' = p /\ UNCHANGED ph
          /\ IF Closer(pos[p[1]], pos[p[2]], 2 * Radius, 0)
             THEN /\ alive' = alive \ {p[2]}
                  /\ size' = (IF LoseMass THEN size ELSE [size EXCEPT ![p[1]] = @ + size[p[2]]])
             ELSE UNCHANGED <<alive, size>>
  /\ UNCHANGED <<pos, now, tick, last, moves, found, gone, runs, hit>>
OutOfTime ==
  /\ ph = "idle" /\ now > TMax /\ ph' = "over"
  /\ UNCHANGED <<alive, pos, size, now, tick, last, plast, moves, found, gone, runs, hit>>
Again ==
  /\ ph = "over" /\ runs < MaxRuns /\ ph' = "place"
  /\ UNCHANGED <<alive, pos, size, now, tick, last, plast, moves, found, gone, runs, hit>>
Next == Place \/ Emit \/ Move \/ Swept \/ Collide \/ OutOfTime \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllInside == \A i \in alive : Inside(S, pos[i])
Mass == SumOver(size, alive) + gone = N
(* while a run goes on nobody sits in the target; a run that ended by a hit has one *)
NobodyInTarget == ph \in {"idle", "collide"} => \A i \in alive : ~Found(Target, pos[i])
HitIsReal == ph = "over" /\ found /\ Style = "first" => hit \in alive /\ Found(Target, pos[hit]) /\ tick > 0 /\ tick <= TMax
MovedOnce == ph = "collide" \/ (ph = "idle" /\ now > 1 /\ ~Mergeable2) => \A i \in alive : moves[i] = 1
NeverTwice == \A i \in Ids : moves[i] <= 1
(* after the collisions are handled no two live agents are in contact *)
Apart == ph = "idle" /\ now > 1 /\ Mergeable2 => \A i, j \in alive : i # j => ~Closer(pos[i], pos[j], 2 * Radius, 0)
Fresh == ph = "idle" /\ now = 0 => alive = Ids /\ \A i \in Ids : size[i] = 1
FreshClock == [][ph = "place" => now' = 0 /\ alive' = Ids]_vars
TimeMoves == [][ph = "idle" /\ ph' # "over" => tick' = now /\ now' = now + 1]_vars
(* every run ends, every ensemble is made *)
Ends == <>(ph = "over" /\ runs = MaxRuns)
=============================================================================
