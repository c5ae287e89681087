---------------------------- MODULE ReasonsModel ---------------------------
(* A reader that looks at the parts of a request one after another, in an     *)
(* order of its own, and stops at the first defect: however it orders them,   *)
(* it refuses exactly the defective requests and names a defect that is there.*)
EXTENDS Reasons, TLC
CONSTANTS N, Own, Through   \* wrong readers: one name for everything; not looking to the end
Parts == {"good", "name", "value", "missing", "bytes"}
VARIABLES req, left, out
vars == <<req, left, out>>
Init == req \in UNION {[1..n -> Parts] : n \in 0..N} /\ left = 1..Len(req) /\ out = "?"
Look == out = "?" /\ \E i \in left :
          /\ left' = left \ {i}
          /\ out' = IF req[i] = "good" THEN "?" ELSE IF Own THEN CHOOSE x \in Names(LineDefect(req[i])) : TRUE ELSE "InvalidArgumentInput"
          /\ req' = req
Accept == out = "?" /\ (Through => left = {}) /\ out' = "ok" /\ UNCHANGED <<req, left>>
Next == Look \/ Accept \/ (out # "?" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Look \/ Accept)
Refuses == out = "ok" => HeaderDefects(req) = {}
Names1 == out \notin {"?", "ok"} => out \in Names(HeaderDefects(req))
Distinct == \A x, y \in Defects : (Name(x) = Name(y)) <=> (x = y)
Answers == <>(out # "?")
=============================================================================
