--------------------------- MODULE TraceRandMove ---------------------------
(* C20: drawn displacements.  n: 100 * 2 D dt; w: root of 4096 n, so the       *)
(* length is w/640; g: the normal vector of the generator and x: the result,   *)
(* both in 1/1000; base: content of the given vector before (integers).        *)
EXTENDS Vectors, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, vec
vars == <<c, l, vec>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ vec = <<>>
Near(x, g) == Abs1(640 * x - E.w * g) <= (IF Sharp(E.w, E.n) THEN E.w + 700 ELSE Abs1(g) + E.w + 700)
Scaled(y) == Len(y) = E.dim /\ Len(E.g) = E.dim /\ Root64(E.w, E.n) /\ \A i \in 1..E.dim : Near(y[i], E.g[i])
Fits(kind, d) == kind = "brownian"
MoveEv == /\ E.op = "rm" /\ E.ok = (E.mt = "brownian") /\ E.kept /\ (E.ok => Scaled(E.x)) /\ UNCHANGED vec
(* vec: content of the accumulating vector *)
SetEv == E.op = "set" /\ vec' = E.x
IntoEv == /\ E.op = "rmv" /\ E.ok = (E.mt = "brownian" /\ Len(vec) = E.dim) /\ E.kept
          /\ IF E.ok THEN Len(E.x) = E.dim /\ Scaled(VSub(E.x, vec)) /\ vec' = E.x ELSE E.x = vec /\ UNCHANGED vec
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (MoveEv \/ SetEv \/ IntoEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
