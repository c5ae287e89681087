------------------------------ MODULE TraceDirs ------------------------------
(* C13, C15, C16: a data directory: files come and go, it is analysed again    *)
(* and again. files: name -> key of the configuration and ensembles; others:   *)
(* everything else at the top of the directory; last: what the last analysis   *)
(* said about unchanged data                                                    *)
EXTENDS Analysis, Json, IOUtils
(* the property asked for *)
Aspect == IOEnv.ASPECT
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, files, others, last
vars == <<c, l, files, others, last>>
Case == Trace[c]
G == Case.cfg
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ files = <<>> /\ others = {} /\ last = <<>>
Names == {files[i].name : i \in 1..Len(files)}
Without(n) == SelectSeq(files, LAMBDA f : f.name # n)
FileEv == E.op = "file" /\ files' = Append(Without(E.name), [name |-> E.name, key |-> E.key, ens |-> E.ens]) /\ last' = <<>> /\ UNCHANGED others
OtherEv == E.op = "other" /\ E.name \notin Names /\ others' = others \cup {E.name} /\ last' = <<>> /\ UNCHANGED files
RmEv == E.op = "rm" /\ files' = Without(E.name) /\ last' = <<>> /\ UNCHANGED others
Keys == {files[i].key : i \in {i \in 1..Len(files) : files[i].ens # <<>>}}
Pool(k) == LET F == SelectSeq(files, LAMBDA f : f.key = k)
           IN Flat([i \in 1..Len(F) |-> F[i].ens], Len(F))
Range(s) == {s[i] : i \in 1..Len(s)}
RowKeys(R) == {R[i].key : i \in 1..Len(R)}
(* C16: a directory of its own, nothing else changed; each configuration has its *)
(* own histogram files; the same data, the same results                          *)
OwnOutput ==
  /\ Len(E.made) = 1 /\ E.made[1] \notin (others \cup Names) /\ E.touched = <<>>
  /\ Len(E.lin) = Cardinality(RowKeys(E.rows)) /\ RowKeys(E.lin) = RowKeys(E.rows)
  /\ Len(E.log) = Cardinality(RowKeys(E.rows)) /\ RowKeys(E.log) = RowKeys(E.rows)
  /\ last # <<>> => /\ Range(last[1]) = Range(E.rows) /\ Range(last[2]) = Range(E.lin) /\ Range(last[3]) = Range(E.log)
(* C13: one result per configuration, of exactly its samples                     *)
PooledExactly ==
  /\ Len(E.rows) = Cardinality(Keys) /\ RowKeys(E.rows) = Keys
  /\ \A i \in 1..Len(E.rows) : LET ens == Pool(E.rows[i].key) IN
        /\ Thin(G, E.rows[i].ens) = Len(ens)
        /\ IF G.kind = "proc" THEN LET P == TLCEval(Points(ens)) IN MeanIs(E.rows[i].mean[1], [k \in 1..Len(P) |-> P[k][2]])
           ELSE \A j \in 1..G.nv : MeanIs(E.rows[i].mean[j], TLCEval(Firsts(TLCEval(Var(ens, j)))))
(* C14, C15: what is stated about the configurations that are there              *)
CountsExact ==
  /\ \A i \in 1..Len(E.lin) : E.lin[i].key \in Keys => CountsAre(G, FALSE, E.lin[i].rows, Pool(E.lin[i].key))
  /\ \A i \in 1..Len(E.log) : E.log[i].key \in Keys => CountsAre(G, TRUE, E.log[i].rows, Pool(E.log[i].key))
StatsExact ==
  /\ \A i \in 1..Len(E.rows) : E.rows[i].key \in Keys => SummaryIs(G, E.rows[i], Pool(E.rows[i].key))
  /\ \A i \in 1..Len(E.lin) : E.lin[i].key \in Keys => StatsAre(G, FALSE, E.lin[i].rows, Pool(E.lin[i].key))
  /\ \A i \in 1..Len(E.log) : E.log[i].key \in Keys => StatsAre(G, TRUE, E.log[i].rows, Pool(E.log[i].key))
Verdict == CASE Aspect = "C13" -> E.res = "ok" /\ (E.seen => PooledExactly)
             [] Aspect = "C14" -> E.res # "panic" /\ (E.seen => CountsExact)
             [] Aspect = "C15" -> E.seen => StatsExact
             [] Aspect = "C16" -> E.res = "ok" => E.seen /\ OwnOutput
AnalyzeEv ==
  /\ E.op = "analyze" /\ Verdict = TRUE
  /\ others' = others \cup Range(E.made)
  /\ last' = (IF E.seen THEN <<E.rows, E.lin, E.log>> ELSE <<>>)
  /\ UNCHANGED files
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (FileEv \/ OtherEv \/ RmEv \/ AnalyzeEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
