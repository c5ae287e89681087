------------------------------ MODULE TraceBins ------------------------------
(* C14, C15: one analysis object fed with samples, drawn, exported, cleared    *)
(* and used again. ens: what it holds; open: points of the running ensemble    *)
EXTENDS Analysis, Json, IOUtils
(* the property asked for *)
Aspect == IOEnv.ASPECT
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, ens, open
vars == <<c, l, ens, open>>
Case == Trace[c]
G == Case.cfg
E == Case.ev[l]
Done == l > Len(Case.ev)
Init == c \in 1..Len(Trace) /\ l = 1 /\ ens = <<>> /\ open = <<>>
AddEv == E.op = "add" /\ ens' = Append(ens, E.v) /\ UNCHANGED open
PointEv == E.op = "pt" /\ open' = Append(open, E.v) /\ UNCHANGED ens
EndEv == E.op = "endens" /\ ens' = Append(ens, open) /\ open' = <<>>
ClearEv == E.op = "clear" /\ ens' = <<>> /\ open' = <<>>
ReportEv ==
  /\ E.op = "report" /\ E.res = "ok"
  /\ IF Aspect = "C14" THEN CountsAre(G, FALSE, E.lin, ens) /\ CountsAre(G, TRUE, E.log, ens)
     ELSE SummaryIs(G, E.row, ens) /\ StatsAre(G, FALSE, E.lin, ens) /\ StatsAre(G, TRUE, E.log, ens)
  /\ UNCHANGED <<ens, open>>
(* arbitrary reals: the driver compares with a two pass computation             *)
RealEv == E.op = "real" /\ (Aspect = "C15" => E.fin /\ E.mean /\ E.sd) /\ UNCHANGED <<ens, open>>
(* one sample just beside the edge of a bin: it is in bin k and nowhere else     *)
EdgeEv ==
  /\ E.op = "edge" /\ UNCHANGED <<ens, open>>
  /\ (Aspect = "C14" =>
       /\ E.k >= 0 /\ Len(E.rows) = 1 /\ BinOf(G, E.log, E.rows[1].c) \in Cap(G, {E.k})
       /\ \A j \in 1..Len(E.rows[1].n) : E.rows[1].n[j] = 1) = TRUE
Next ==
  \/ ~Done /\ l' = l + 1 /\ c' = c /\ (AddEv \/ PointEv \/ EndEv \/ ClearEv \/ ReportEv \/ RealEv \/ EdgeEv)
  \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
