---------------------------- MODULE GeometryModel ----------------------------
(* All moves of an agent on small grids, in every shape and boundary          *)
(* condition: the rule of images keeps the agent inside, is an involution at  *)
(* a mirror, a translation by the period at a periodic wall, and fails exactly *)
(* for moves beyond one system size.  Radial images are rational; they are     *)
(* represented by <<x, s>>: image = x * (2R - s) / s with s the norm of x.     *)
EXTENDS Geometry, TLC
CONSTANTS L, R, Dim, MaxMove, MixWrong
VARIABLES s, pos, last
vars == <<s, pos, last>>
Grid == (-L)..L
Shapes == [shape : {"cubic"}, d : 0..Dim, dim : {Dim}, L : {L}, R : {0}]
          \cup [shape : {"cyl"}, d : 0..(Dim - 1), dim : {Dim}, L : {L}, R : {R}]
          \cup [shape : {"circ"}, d : {Dim}, dim : {Dim}, L : {0}, R : {R}]
Moves == [1..Dim -> (-MaxMove)..MaxMove]
Points == [1..Dim -> (-5)..5]
NoLast == [ok |-> TRUE, to |-> <<>>, dp |-> <<>>]
Init == /\ s \in Shapes /\ pos \in {p \in Points : Inside(s, p)} /\ last = NoLast
FoldS(i, x) == IF MixWrong THEN Fold(s, Dim + 1 - i, x) ELSE Fold(s, i, x)
NoRadialImage(p) == Radial(s) = 0 \/ SqSum(p, 1, Radial(s)) <= R * R
(* moves whose radial image would leave the grid end the exploration there *)
Go(dp, q) ==
   /\ last' = [ok |-> SingleImage(s, q), to |-> q, dp |-> dp]
   /\ pos' = IF SingleImage(s, q) /\ NoRadialImage(q)
             THEN [i \in 1..Dim |-> IF i <= Radial(s) THEN q[i] ELSE FoldS(i, q[i])] ELSE pos
   /\ UNCHANGED s
Move == last.to = <<>> /\ \E dp \in Moves : Go(dp, Add(pos, dp))
Settle == last.to # <<>> /\ last' = NoLast /\ UNCHANGED <<s, pos>>
Next == Move \/ Settle
Spec == Init /\ [][Next]_vars
InSystem == Inside(s, pos)
(* where the image comes from *)
Right == (last.to # <<>> /\ last.ok /\ NoRadialImage(last.to)) =>
  \A i \in (Radial(s) + 1)..Dim :
     IF AbsI(last.to[i]) <= s.L THEN pos[i] = last.to[i]
     ELSE IF s.shape = "cubic" /\ i <= s.d THEN pos[i] + last.to[i] = (IF last.to[i] > 0 THEN 2 * s.L ELSE -2 * s.L)
     ELSE AbsI(pos[i] - last.to[i]) = 2 * s.L
(* a move of at most one diameter never fails in the rectangular directions *)
NoFail == (last.to # <<>> /\ Radial(s) = 0 /\ \A i \in 1..Dim : AbsI(last.dp[i]) <= 2 * L) => last.ok
(* the radial image lies inside exactly when the point is within three radii: |2R - n| <= R for every norm n with n*n the square sum *)
RadialRule == (last.to # <<>> /\ Radial(s) > 0) =>
   \A n \in 0..(MaxMove * 4 + 20) : (n * n = SqSum(last.to, 1, Radial(s)) /\ n > R) =>
       ((AbsI(2 * R - n) <= R) <=> (SqSum(last.to, 1, Radial(s)) <= 9 * R * R))
=============================================================================
