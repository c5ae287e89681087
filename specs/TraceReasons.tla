---------------------------- MODULE TraceReasons ---------------------------
(* C33: requests put to the real code, with what is wrong about each computed *)
(* by the specification from the facts of the request.                        *)
EXTENDS Reasons, Json, TLC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l>>
Case == Trace[c]
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1
DefectsOf(e) ==
  CASE e.what = "move" -> MoveDefects(e.d, e.ds, e.far)
    [] e.what \in {"inside", "draw", "find", "distance", "product", "taxi", "apart"} -> DimDefect(e.d, e.ds)
    [] e.what = "jump" -> JumpDefects(e.d, e.ds, e.levy)
    [] e.what = "value" -> ValueDefects(e.bad)
    [] e.what = "words" -> WordDefects(e.need, e.got, e.bad)
    [] e.what = "analysis" -> AnalysisDefects(e.needs, e.got, e.bad, e.range)
    [] e.what = "header" -> HeaderDefects(e.lines)
AskEv == E.op = "ask" /\ LET ds == DefectsOf(E) IN
           IF ds = {} THEN E.res = "ok" ELSE E.res = "err" /\ E.reason \in Names(ds)
KindEv == E.op = "kind" /\ E.class = Class(E.code) /\ E.io = (E.class = "io") /\ E.data = (E.class = "data") /\ E.syntax = (E.class = "syntax")
(* errors are equal when they are of one class; their texts tell them apart   *)
SameEv == E.op = "same" /\ E.eq = (Class(E.a) = Class(E.b)) /\ E.text = (E.a = E.b)
Next == \/ ~Done /\ l' = l + 1 /\ c' = c /\ ((AskEv \/ KindEv \/ SameEv) = TRUE)
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
