---------------------------- MODULE TraceVectors ----------------------------
(* C23: a history of in-place operations on one vector x (f64 or i32), with    *)
(* the allocating operators and the measures evaluated beside it.              *)
EXTENDS Vectors, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, x
vars == <<c, l, x>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ x = Trace[c].cfg.x
(* alloc: result of the allocating form(s); inpl: x after the in-place form;   *)
(* y2: the operand afterwards                                                  *)
Both(v) == /\ \A k \in 1..Len(E.alloc) : E.alloc[k] = v
           /\ E.inpl = v /\ x' = v
AddEv == E.op = "add" /\ Both(VAdd(x, E.y)) /\ E.y2 = E.y
SubEv == E.op = "sub" /\ Both(VSub(x, E.y)) /\ E.y2 = E.y
MulEv == E.op = "mul" /\ Both(VMul(x, E.s))
ClearEv == E.op = "clear" /\ E.inpl = VZero(Len(x)) /\ x' = E.inpl
SetEv == E.op = "set" /\ x' = E.y
NormEv == E.op = "norm" /\ LengthIs(E.m, Norm2(x)) /\ E.x2 = x /\ UNCHANGED x
DistEv == E.op = "dist" /\ E.ok = (Len(x) = Len(E.y))
          /\ (E.ok => LengthIs(E.m, Norm2(VSub(x, E.y)))) /\ E.x2 = x /\ E.y2 = E.y /\ UNCHANGED x
DotEv == E.op = "dot" /\ E.ok = (Len(x) = Len(E.y)) /\ (E.ok => E.m = Dot(x, E.y)) /\ E.x2 = x /\ E.y2 = E.y /\ UNCHANGED x
TaxiEv == E.op = "taxi" /\ E.ok = (Len(x) = Len(E.y)) /\ (E.ok => E.m = Taxi(x, E.y)) /\ E.x2 = x /\ E.y2 = E.y /\ UNCHANGED x
MisEv == E.op = "mis" /\ Len(x) # Len(E.y) /\ (\A k \in 1..Len(E.refused) : E.refused[k]) /\ E.x2 = x /\ E.y2 = E.y /\ UNCHANGED x
PushEv == E.op = "push" /\ x' = x \o E.y /\ E.inpl = x'
(* hypotenuses, as whole numbers and thousandths off them *)
FarEv == E.op = "far" /\ UNCHANGED x
         /\ VSub(E.q, E.p) = E.d /\ IsRight(E.d)
         /\ \A i \in 1..3 : E.m[i] = LongSide(E.d) + 1 /\ E.off[i] = 0
LatticeEv == E.op = "lattice" /\ E.ok /\ (\A i \in 1..2 : E.m[i] = Taxi(E.p, E.q)) /\ UNCHANGED x
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c
     /\ (AddEv \/ SubEv \/ MulEv \/ ClearEv \/ SetEv \/ NormEv \/ DistEv \/ DotEv \/ TaxiEv \/ PushEv \/ MisEv \/ FarEv \/ LatticeEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
