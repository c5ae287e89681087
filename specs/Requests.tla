------------------------------ MODULE Requests ------------------------------
(* Which bins an analysis may be asked for, and what asking does. Times, widths  *)
(* and ratios in quarters; 0 stands for the smallest time there is.              *)
EXTENDS Integers, Sequences
RangeOK(min, max) == 0 <= min /\ min < max
SizeOK(min, max, bin, lbin) == RangeOK(min, max) /\ bin > 0 /\ lbin > 4
(* ten bins or more are always enough, none is no request; in between the        *)
(* library may refuse                                                            *)
NumVerdict(min, max, n) == IF ~RangeOK(min, max) \/ n = 0 THEN {FALSE} ELSE IF n >= 10 THEN {TRUE} ELSE {TRUE, FALSE}
(* words: [r |-> it is a number, q |-> that number, u |-> it is a whole number   *)
(* of bins, n |-> that number]                                                   *)
WordsVerdict(kind, ws) ==
  LET o == IF kind = "vec" THEN 1 ELSE 0
      w(i) == ws[o + i]
      k == Len(ws) - o
  IN IF k \notin {3, 4} THEN {FALSE}
     ELSE IF o = 1 /\ ~ws[1].u THEN {FALSE}
     ELSE IF ~w(1).r \/ ~w(2).r THEN {FALSE}
     ELSE IF k = 3 THEN (IF w(3).u THEN NumVerdict(w(1).q, w(2).q, w(3).n) ELSE {FALSE})
     ELSE {w(3).r /\ w(4).r /\ SizeOK(w(1).q, w(2).q, w(3).q, w(4).q)}
Asked(form, a) == [form |-> form, a |-> a]
Fresh == Asked("default", <<>>)
=============================================================================
