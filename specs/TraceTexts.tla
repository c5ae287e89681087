------------------------------ MODULE TraceTexts ------------------------------
(* C28: texts written by the real types and read back.  shown maps a type's text  *)
(* to the value it was written for.                                               *)
EXTENDS Texts, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, shown
vars == <<c, l, shown>>
Case == Trace[c]
Ty == Case.cfg.ty
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ shown = <<>>
Ran(f) == {f[x] : x \in DOMAIN f}
(* different values have different texts, equal values the same *)
ShowEv == /\ E.op = "show"
          /\ \A t \in DOMAIN shown : (t = E.text) = (shown[t] = E.val)
          /\ shown' = (E.text :> E.val) @@ shown
ReadEv == /\ E.op = "read" /\ E.text \in DOMAIN shown
          /\ E.ok /\ E.val = shown[E.text] /\ UNCHANGED shown
ShortEv == /\ E.op = "short" /\ UNCHANGED shown
           /\ LET m == Short(Ty, E.name, E.a, E.k, E.zero) IN
              IF m = Refused THEN ~E.ok ELSE E.ok /\ E.val = m
(* every number of a written text replaced by a word, or the text cut before its  *)
(* first number: refused                                                          *)
SpoilEv == E.op = "spoil" /\ ~E.ok /\ UNCHANGED shown
(* any other text: an answer, and an accepted one is stable under writing         *)
AnyEv == E.op = "any" /\ (E.ok => E.again = E.val) /\ UNCHANGED shown
(* six digits are kept of the numbers of a time type *)
NearEv == E.op = "near" /\ E.ok /\ (\A i \in 1..Len(E.dev) : E.dev[i] \in -520..520) /\ UNCHANGED shown
NumEv == E.op = "num" /\ UNCHANGED shown
         /\ E.n = (CASE E.val.v = "Exponential" -> E.val.a[2] [] E.val.v = "LennardJones" -> E.val.a[1] [] OTHER -> E.zero)
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (ShowEv \/ ReadEv \/ ShortEv \/ SpoilEv \/ AnyEv \/ NearEv \/ NumEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
