------------------------------ MODULE CliModel ------------------------------
(* Programs running, being killed and analysing in one directory.  A run       *)
(* opens the file named by its data set, writes the header, flushes it, and     *)
(* adds rows; it may be killed after any step.  Sets are pairs <<phys, idx>>.   *)
(* NameHasIdx = FALSE: the name states the physical parameters only.            *)
(* HeaderFirst = FALSE: rows may reach the disk before the header is complete.  *)
(* CheckCount = FALSE: surplus arguments are ignored instead of refused.        *)
EXTENDS Cli, FiniteSets, TLC
CONSTANTS Phys, Idx, MaxRuns, MaxRows, NameHasIdx, HeaderFirst, CheckCount
Sets == Phys \X Idx
Name(s) == IF NameHasIdx THEN s ELSE <<s[1], 0>>
(* a file: the set written into it, complete header, rows as <<set, number of the run>> *)
VARIABLES disk, run, runs, ended, help, result
vars == <<disk, run, runs, ended, help, result>>
None == [phase |-> "none"]
Init == disk = <<>> /\ run = None /\ runs = 0 /\ ended = {} /\ help = 0 /\ result = <<>>
Names == DOMAIN disk
Put(n, f) == [m \in Names \cup {n} |-> IF m = n THEN f ELSE disk[m]]
Start == /\ run.phase = "none" /\ runs < MaxRuns /\ runs' = runs + 1
         /\ \E s \in Sets :
              /\ run' = [phase |-> "open", set |-> s, id |-> runs + 1, rows |-> 0]
              /\ disk' = Put(Name(s), [set |-> s, hdr |-> FALSE, rows |-> {}])
              (* the same set again replaces its own earlier data *)
              /\ ended' = {e \in ended : e[1] # s}
         /\ result' = <<>> /\ UNCHANGED help
Header == /\ run.phase = "open" /\ disk' = [disk EXCEPT ![Name(run.set)].hdr = TRUE]
          /\ run' = [run EXCEPT !.phase = "data"] /\ UNCHANGED <<runs, ended, help, result>>
CanRow == run.phase = "data" \/ (~HeaderFirst /\ run.phase = "open")
Row == /\ CanRow /\ run.rows < MaxRows
       /\ disk' = [disk EXCEPT ![Name(run.set)].rows = @ \cup {<<run.set, run.id, run.rows + 1>>}]
       /\ run' = [run EXCEPT !.rows = @ + 1] /\ UNCHANGED <<runs, ended, help, result>>
Finish == /\ run.phase = "data" /\ run' = None
          /\ ended' = ended \cup {<<run.set, run.id, run.rows>>} /\ UNCHANGED <<disk, runs, help, result>>
Kill == run.phase # "none" /\ run' = None /\ UNCHANGED <<disk, runs, ended, help, result>>
(* every number of arguments that fits nothing *)
Call == /\ run.phase = "none" /\ help < 2 /\ help' = help + 1
        /\ \E n \in {0, 3, 7, 12, 14, 30} :
             disk' = IF Mode("time", <<"Circ", "Bulk", "Indep", "Const", "Var">>, n) = "help" /\ (CheckCount \/ n < 13) THEN disk
                     ELSE Put(<<0, 0>>, [set |-> <<0, 0>>, hdr |-> TRUE, rows |-> {}])
        /\ UNCHANGED <<run, runs, ended, result>>
Analyse == /\ run.phase = "none"
           /\ result' = [p \in {disk[n].set[1] : n \in {n \in Names : disk[n].hdr /\ disk[n].rows # {}}} |->
                           UNION {disk[n].rows : n \in {n \in Names : disk[n].hdr /\ disk[n].set[1] = p}}]
           /\ UNCHANGED <<disk, run, runs, ended, help>>
Next == Start \/ Header \/ Row \/ Finish \/ Kill \/ Call \/ Analyse
Spec == Init /\ [][Next]_vars
(* no row stands in a file without its complete header *)
HeaderBeforeData == \A n \in Names : disk[n].rows # {} => disk[n].hdr
(* a file holds the rows of its own set only *)
OwnRows == \A n \in Names : \A r \in disk[n].rows : r[1] = disk[n].set
(* runs of different sets never share a file, so what has ended is still there *)
NothingLost == \A e \in ended : /\ Name(e[1]) \in Names /\ disk[Name(e[1])].set = e[1]
                                /\ \A k \in 1..e[3] : <<e[1], e[2], k>> \in disk[Name(e[1])].rows
(* an analysis finds all that has ended and tells configurations apart *)
Found == result # <<>> => /\ \A e \in ended : e[3] > 0 => e[1][1] \in DOMAIN result /\ \A k \in 1..e[3] : <<e[1], e[2], k>> \in result[e[1][1]]
                          /\ \A p \in DOMAIN result : \A r \in result[p] : r[1][1] = p
(* calls that fit nothing leave nothing behind *)
HelpIsHarmless == <<0, 0>> \notin Names
Total == TotalArgs(<<"Circ", "Bulk", "Indep", "Const", "Var">>) = 13
(* no combination takes as many arguments as an analysis: a call is never ambiguous *)
Clear == \A s \in {"Cubic", "Circ", "Cyl"}, a \in {"Indep", "Merge", "Exp", "LJ"}, t \in {"Const", "ExpStep"}, m \in {"Var", "ParVar", "Process"}, k \in {"time", "vec", "proc"} :
           TotalArgs(<<s, "Bulk", a, t, m>>) \notin AnalysisCounts(k)
=============================================================================
