---------------------------- MODULE ConfigModel ----------------------------
(* Every way to an object ends in the same test. The ways differ in where     *)
(* they test: the direct constructor at once, the argument structure when it  *)
(* is converted (it can be built unchecked), the words when they are parsed   *)
(* into the argument structure. An object then lives through changes.         *)
EXTENDS Config, TLC
CONSTANTS ArgsChecked, Ranks, MaxDim
VARIABLES g, way, phase, obj, lim, inc, tries
vars == <<g, way, phase, obj, lim, inc, tries>>
None == [kind |-> "none"]
Systems == [kind : {"Cubic"}, size : Ranks, len : {Zero}, dim : 0..MaxDim, bc : {"R"}, k : {0}]
           \cup [kind : {"Cubic"}, size : Ranks, len : {Zero}, dim : 0..MaxDim, bc : {"M"}, k : 0..(MaxDim + 1)]
           \cup [kind : {"Circ"}, size : Ranks, len : {Zero}, dim : 0..MaxDim, bc : {"R"}, k : {0}]
           \cup [kind : {"Cyl", "CylWrong"}, size : Ranks, len : Ranks, dim : 0..MaxDim, bc : {"M"}, k : 0..(MaxDim + 1)]
Clocks == [kind : {"Const"}, dt : Ranks, dtmax : {Zero}, length : {1}]
          \cup [kind : {"ExpStep"}, dt : Ranks, dtmax : Ranks, length : 0..2]
Inters == [kind : {"Inter"}, agent : {"exp", "lj"}, int : {"exp", "lj", "c2", "c3"}, idim : 1..MaxDim, pdim : 1..MaxDim]
IsClock(x) == x.kind \in {"Const", "ExpStep"}
Usable(x) == IF IsClock(x) THEN /\ StepUsable(x.dt)
                                /\ x.kind = "ExpStep" => x.dtmax >= x.dt /\ x.dtmax # NaN /\ x.length > 0
             ELSE IF x.kind = "Inter" THEN InterUsable(x)
             ELSE SystemUsable(x)
Init == /\ g \in Systems \cup Clocks \cup Inters /\ way \in {"new", "args", "words"}
        /\ phase = (IF way = "words" THEN "words" ELSE IF way = "args" THEN "args" ELSE "checked")
        /\ obj = None /\ lim = NoLimit /\ inc = 11 /\ tries = 0
Parse == phase = "words" /\ phase' = "args" /\ UNCHANGED <<g, way, obj, lim, inc, tries>>
Convert == phase = "args" /\ phase' = (IF ArgsChecked THEN "checked" ELSE "made")
           /\ obj' = (IF ArgsChecked THEN None ELSE g) /\ UNCHANGED <<g, way, lim, inc, tries>>
Decide == phase = "checked" /\ phase' = (IF Usable(g) THEN "made" ELSE "refused")
          /\ obj' = (IF Usable(g) THEN g ELSE None) /\ UNCHANGED <<g, way, lim, inc, tries>>
SetLimit(r) == /\ phase = "made" /\ IsClock(g) /\ tries < 2 /\ tries' = tries + 1
               /\ IF LimitValid(r) THEN lim' \in LimitOf(r) ELSE lim' = lim
               /\ UNCHANGED <<g, way, phase, obj, inc>>
(* growth factors by their rank: at most 10 (one) does not grow               *)
SetInc(r) == /\ phase = "made" /\ g.kind = "ExpStep" /\ tries < 2 /\ tries' = tries + 1
             /\ inc' = (IF r > 10 /\ r # NaN THEN r ELSE inc) /\ UNCHANGED <<g, way, phase, obj, lim>>
Next == Parse \/ Convert \/ Decide \/ (\E r \in Ranks : SetLimit(r) \/ SetInc(r))
Spec == Init /\ [][Next]_vars /\ WF_vars(Parse \/ Convert \/ Decide)
Sound == phase = "made" => Usable(g) /\ obj = g
Complete == phase = "refused" => ~Usable(g)
Advances == (phase = "made" /\ IsClock(g)) => inc > 10 /\ inc # NaN /\ lim # NaN /\ (lim = NoLimit \/ lim > Zero)
Settles == <>(phase \in {"made", "refused"})
=============================================================================
