------------------------------ MODULE TraceDisp ------------------------------
(* C21: mutual displacements of two agents at grid positions p and q.          *)
(* e: vector in 1/10000; m: distance in 1/64; w: root of 4096 * |q - p|^2.     *)
EXTENDS Vectors, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1
Unit(e, d, w, n) ==
  /\ Len(e) = Len(d) /\ Root64(w, n)
  /\ \A i \in 1..Len(d) : Abs1(e[i] * w - 640000 * d[i]) <= (IF Sharp(w, n) THEN w ELSE 10000 + w)
Ok == LET d == VSub(E.q, E.p) n == Norm2(d) IN
  /\ Unit(E.e, d, E.w, n) /\ LengthIs(E.m, n)
  /\ E.kept
(* both ways round: the same distance, the opposite vector *)
DispEv == /\ E.op = "disp" /\ E.ok = (Len(E.p) = Len(E.q)) /\ E.kept
          /\ (E.ok => Ok /\ E.back = VMul(E.e, -1) /\ E.mback = E.m)
VecEv == /\ E.op = "vec" /\ E.ok = (Len(E.p) = Len(E.q) /\ Len(E.p) = E.vd) /\ E.kept
         /\ (IF E.ok THEN Ok /\ E.same ELSE E.untouched)
DistEv == E.op = "mdist" /\ E.ok = (Len(E.p) = Len(E.q)) /\ E.kept /\ (E.ok => LengthIs(E.m, Norm2(VSub(E.q, E.p))))
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (DispEv \/ VecEv \/ DistEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
