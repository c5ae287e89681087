---------------------------- MODULE TraceReflect ----------------------------
(* C27: recorded steps out of real circular systems, answered by the exact and  *)
(* the first order reflection.                                                  *)
EXTENDS Reflect, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l>>
Case == Trace[c]
S == Case.cfg
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1
R2 == S.R * S.R
(* the recorded hit, direction and both ends belong together *)
Honest == /\ DotP(E.h, E.h) = R2 /\ E.a >= 0 /\ E.b > 0 /\ DotP(E.h, E.v) > 0
          /\ E.p = Step(E.h, E.v, -E.a) /\ DotP(E.p, E.p) <= R2
(* measured in thousandths *)
Measured(num) == \A i \in 1..Len(num) : AbsI(E.qm[i] * R2 - 1000 * num[i]) <= R2
HitEv ==
  /\ E.op = "hit" /\ Honest
  /\ LET q == Step(E.h, E.v, E.b)
         n == ImageNorm2(E.h, q, S.R) IN
     /\ (n < R2 => E.ok) /\ (n > R2 => ~E.ok)
     /\ (E.ok => Measured(ImageNum(E.h, q, S.R)))
StayEv == /\ E.op = "stay" /\ DotP(Add(E.p, E.dp), Add(E.p, E.dp)) <= R2
          /\ E.ok /\ E.q = Add(E.p, E.dp)
WrongEv == E.op = "wrong" /\ ~E.ok
(* first order: b1000 = 1000 times step / radius, cos1000 >= 500 the angle at    *)
(* the surface; diff and depth in millionths of the radius                      *)
Tol == 3 * E.b1000 * E.b1000 + 2
FirstEv ==
  /\ E.op = "first"
  /\ (E.ok => E.inside /\ \A i \in 1..Len(E.diff) : AbsI(E.diff[i]) <= Tol)
  /\ (E.depth > Tol => E.ok)
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (HitEv \/ StayEv \/ WrongEv \/ FirstEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
