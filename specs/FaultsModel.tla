----------------------------- MODULE FaultsModel -----------------------------
(* A program that writes several files through buffers. Its writes are taken   *)
(* into the buffer; the buffer is spilled when it is full, and what is left in *)
(* it at the end. The file system may take only a part of what it is handed.   *)
(* Flush: the rest is spilled, and a failure noticed, before the file is       *)
(* dropped; otherwise the rest is lost silently. Whole: a partial write is     *)
(* continued until it is complete or fails.                                    *)
EXTENDS Faults, FiniteSets
CONSTANTS Files, Cap, MaxNeed, MaxLim, Flush, Whole
VARIABLES need, lim, buf, todo, disk, open, rep
vars == <<need, lim, buf, todo, disk, open, rep>>
F == 1..Files
Init == /\ need \in [F -> 0..MaxNeed] /\ lim \in 0..MaxLim
        /\ buf = [f \in F |-> 0] /\ todo = need /\ disk = [f \in F |-> 0] /\ open = [f \in F |-> TRUE] /\ rep = "none"
Running == rep = "none"
Room(f) == lim - disk[f]
(* n units for f: the file system takes k of them, in one or several calls     *)
Take(f, n) == IF n <= Room(f) THEN n ELSE Room(f)
Put(f) == /\ Running /\ open[f] /\ todo[f] > 0 /\ buf[f] < Cap
          /\ buf' = [buf EXCEPT ![f] = @ + 1] /\ todo' = [todo EXCEPT ![f] = @ - 1]
          /\ UNCHANGED <<need, lim, disk, open, rep>>
Spill(f) == /\ Running /\ open[f] /\ buf[f] = Cap
            /\ disk' = [disk EXCEPT ![f] = @ + Take(f, buf[f])]
            /\ buf' = [buf EXCEPT ![f] = 0]
            /\ rep' = (IF Whole /\ Take(f, buf[f]) < buf[f] THEN "err" ELSE rep)
            /\ UNCHANGED <<need, lim, todo, open>>
Close(f) == /\ Running /\ open[f] /\ todo[f] = 0
            /\ disk' = [disk EXCEPT ![f] = @ + Take(f, buf[f])]
            /\ buf' = [buf EXCEPT ![f] = 0] /\ open' = [open EXCEPT ![f] = FALSE]
            /\ rep' = (IF Flush /\ Take(f, buf[f]) < buf[f] THEN "err" ELSE rep)
            /\ UNCHANGED <<need, lim, todo>>
Report == /\ Running /\ \A f \in F : ~open[f]
          /\ rep' = "ok" /\ UNCHANGED <<need, lim, buf, todo, disk, open>>
Next == (\E f \in F : Put(f) \/ Spill(f) \/ Close(f)) \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Honest == rep = "ok" => \A f \in F : disk[f] = need[f]
Needed == [f \in F |-> need[f]]
NoCry == rep = "err" => ~Fits(Needed, lim)
Agrees == rep # "none" => rep = Answer(Needed, lim).res
Within == \A f \in F : disk[f] <= lim /\ disk[f] + buf[f] + todo[f] <= need[f]
Ends == <>(rep # "none")
=============================================================================
