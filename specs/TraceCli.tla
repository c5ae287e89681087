------------------------------ MODULE TraceCli ------------------------------
(* C17, C18, C29: a program called again and again over its directories.            *)
(* files: what its runs left: directory, name, data set, key, samples;          *)
(* others: what else lies at the top of a directory                             *)
EXTENDS Cli, Analysis, Help, Json, IOUtils
Aspect == IOEnv.ASPECT
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, files, others
vars == <<c, l, files, others>>
Case == Trace[c]
G == Case.cfg
CS == G.comps
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ files = <<>> /\ others = {}
In17 == Aspect = "C17"
In18 == Aspect = "C18"
(* C29: the help counts the words, and names every argument of the program in the *)
(* order in which they are read, and those of its analysis                        *)
Told == Mode(G.kind, CS, Len(E.words)) = "help" =>
  /\ E.said.given = Len(E.words) /\ E.said.wanted = Len(NamedAll(CS, Len(CS)))
  /\ E.said.over = NamedAll(CS, Len(CS)) /\ E.said.descr = NamedAll(CS, Len(CS))
  /\ E.said.an = Named(G.kind) /\ E.said.andescr = Named(G.kind)
Range(s) == {s[i] : i \in 1..Len(s)}
(* a number of arguments that fits nothing, or a word that is no value: help or  *)
(* refusal, and nothing has happened                                             *)
Refused ==
  /\ E.res = "err" /\ ~E.started /\ E.files = <<>> /\ E.dirs = <<>> /\ E.touched = <<>>
  /\ CASE Mode(G.kind, CS, Len(E.words)) = "help" -> E.help
       [] Mode(G.kind, CS, Len(E.words)) = "simulate" -> ~Readable(CS, E.words)
       [] OTHER -> FALSE
RefusedEv == E.op = "refused" /\ ((In17 => Refused) /\ (Aspect = "C29" => Told)) = TRUE /\ UNCHANGED <<files, others>>
(* the arguments arrive in their order                                           *)
Arrived == /\ Mode(G.kind, CS, Len(E.words)) = "simulate" /\ Readable(CS, E.words)
           /\ E.vars = Vars(CS, E.words) /\ ToString(E.nag) = NumAgents(CS, E.words)
           /\ E.res = (IF E.die THEN "killed" ELSE "ok")
(* one file, complete and closed before the first row, named by its data set      *)
At(d, n) == SelectSeq(files, LAMBDA f : f.dir = d /\ f.name = n)
Written ==
  /\ E.name # "?" /\ E.others = <<>>
  /\ E.first /\ E.closed /\ E.kept
  /\ E.vals = HeaderVals(CS, E.words, Len(CS))
  /\ E.labels = LabelsOf(CS)
  /\ E.named = SetOf(CS, E.words)
  /\ \A i \in 1..Len(files) : files[i].dir = E.dir /\ files[i].name = E.name => files[i].set = SetOf(CS, E.words)
  /\ E.key = KeyOf(CS, E.words)
  /\ IF E.die THEN \E n \in 0..Len(E.want) : E.ens = SubSeq(E.want, 1, n) ELSE E.ens = E.want
RunEv ==
  /\ E.op = "run" /\ ((In17 => Arrived) /\ (In18 => E.res \in {"ok", "killed"} /\ Written)) = TRUE
  /\ files' = Append(SelectSeq(files, LAMBDA f : f.dir # E.dir \/ f.name # E.name),
                     [dir |-> E.dir, name |-> E.name, set |-> SetOf(CS, E.words), key |-> E.key, ens |-> E.ens])
  /\ UNCHANGED others
OtherEv == E.op = "other" /\ others' = others \cup {<<E.dir, "sub">>, <<E.dir, "notes.txt">>} /\ UNCHANGED files
(* an analysis of the directory and nothing else                                  *)
Here == SelectSeq(files, LAMBDA f : f.dir = E.dir)
Tops == {f.name : f \in Range(Here)} \cup {o[2] : o \in {o \in others : o[1] = E.dir}}
Analysed == /\ E.nargs \in AnalysisCounts(G.kind)
            /\ E.res = "ok" /\ Len(E.made) = 1 /\ E.made[1] \notin Tops /\ E.touched = <<>> /\ E.seen
Keys == {f.key : f \in {f \in Range(Here) : f.ens # <<>>}}
Pool(k) == LET F == SelectSeq(Here, LAMBDA f : f.key = k) IN Flat([i \in 1..Len(F) |-> F[i].ens], Len(F))
Found == /\ Len(E.rows) = Cardinality(Keys) /\ {r.key : r \in Range(E.rows)} = Keys
         /\ \A i \in 1..Len(E.rows) : LET ens == Pool(E.rows[i].key) IN
              /\ E.rows[i].ens = Len(ens)
              /\ IF G.kind = "proc" THEN LET P == TLCEval(Points(ens)) IN MeanIs(E.rows[i].mean[1], [k \in 1..Len(P) |-> P[k][2]])
                 ELSE \A j \in 1..G.nv : MeanIs(E.rows[i].mean[j], TLCEval(Firsts(TLCEval(Var(ens, j)))))
AnalyzeEv == /\ E.op = "analyze" /\ ((In17 => Analysed) /\ (In18 => (E.res = "ok" /\ E.seen /\ Found))) = TRUE
             /\ others' = others \cup {<<E.dir, m>> : m \in Range(E.made)} /\ UNCHANGED files
RestEv == E.op = "rest" /\ (In17 => (E.away = <<>> /\ ~E.started)) = TRUE /\ UNCHANGED <<files, others>>
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (RefusedEv \/ RunEv \/ OtherEv \/ AnalyzeEv \/ RestEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
