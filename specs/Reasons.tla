------------------------------ MODULE Reasons ------------------------------
(* Refusals name their reason. A request has any number of defects; it is     *)
(* done if and only if it has none, and otherwise answered with an error that *)
(* names one of the defects it really has (which one, is left open).          *)
EXTENDS Integers, Sequences, FiniteSets
Codes == {"InvalidDimension", "InvalidType", "InvalidConfiguration", "InvalidNumberOfArguments", "InvalidArgumentInput",
          "InvalidFormat", "InvalidFile", "TooLargeTimeStep", "FeatureNotProvided", "UnexpectedEnd"}
(* the reason by which each defect is named                                   *)
Name(defect) ==
  CASE defect = "dimension" -> "InvalidDimension"          \* a vector of another dimension
    [] defect = "step"      -> "TooLargeTimeStep"          \* a step too long to be brought back
    [] defect = "motion"    -> "FeatureNotProvided"        \* a kind of motion that does not provide it
    [] defect = "number"    -> "InvalidNumberOfArguments"  \* too few or too many words
    [] defect = "value"     -> "InvalidArgumentInput"      \* a word or value that is none, or out of range
    [] defect = "label"     -> "InvalidFormat"             \* a header line that is not the one expected
    [] defect = "missing"   -> "InvalidFile"               \* a file that ends early
    [] defect = "unreadable" -> "io"                       \* a failure of the file system, or no text
Defects == {"dimension", "step", "motion", "number", "value", "label", "missing", "unreadable"}
Names(ds) == {Name(x) : x \in ds}
(* classes: a failing file system, a free message, everything else            *)
Class(code) == IF code \in {"io1", "io2", "io3"} THEN "io" ELSE IF code \in {"msg1", "msg2"} THEN "data" ELSE "syntax"

\* what is wrong with a request
DimDefect(d, ds) == IF \E i \in 1..Len(ds) : ds[i] # d THEN {"dimension"} ELSE {}
MoveDefects(d, ds, far) == IF DimDefect(d, ds) # {} THEN {"dimension"} ELSE IF far THEN {"step"} ELSE {}
JumpDefects(d, ds, levy) == DimDefect(d, ds) \cup (IF levy THEN {"motion"} ELSE {})
ValueDefects(bad) == IF bad THEN {"value"} ELSE {}
WordDefects(need, got, bad) == (IF got # need THEN {"number"} ELSE {}) \cup (IF bad > 0 THEN {"value"} ELSE {})
AnalysisDefects(needs, got, bad, range) == IF ~(\E i \in 1..Len(needs) : needs[i] = got) THEN {"number"} ELSE IF bad > 0 \/ range THEN {"value"} ELSE {}
LineDefect(l) == CASE l = "good" -> {} [] l \in {"name", "colon", "kind"} -> {"label"} [] l = "value" -> {"value"}
                   [] l = "missing" -> {"missing"} [] l = "bytes" -> {"unreadable"}
HeaderDefects(ls) == UNION {LineDefect(ls[i]) : i \in 1..Len(ls)}
=============================================================================
