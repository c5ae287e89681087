------------------------------- MODULE Faults -------------------------------
(* Programs whose files fail. A file holds at most `lim` units (a full disk, a *)
(* limit of the file size); what a program reports has to agree with what lies *)
(* on the disk in the end. Failures of the file system are reported as "io",   *)
(* everything that could be read but makes no sense as "syntax".               *)
EXTENDS Naturals, Sequences
Fits(needs, lim) == \A i \in 1..Len(needs) : needs[i] <= lim
(* the answer of a program whose files need so much under this limit           *)
Answer(needs, lim) == IF Fits(needs, lim) THEN [res |-> "ok", kind |-> ""] ELSE [res |-> "err", kind |-> "io"]
(* what a line that is no sample is answered with: a line that is no text      *)
(* cannot be read, all others can                                              *)
LineAnswer(line) == IF line = "none" THEN {<<"ok", "">>}
                    ELSE IF line = "bytes" THEN {<<"err", "io">>, <<"err", "syntax">>}
                    ELSE {<<"err", "syntax">>}
OpenAnswer(how) == CASE how = "good" -> {<<"ok", "">>}
                     [] how \in {"missing", "dir", "below", "loop"} -> {<<"err", "io">>}
                     [] how \in {"short", "foreign"} -> {<<"err", "syntax">>}
                     [] how = "bytes" -> {<<"err", "io">>, <<"err", "syntax">>}
=============================================================================
